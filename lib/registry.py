"""property id -> (module under props/, function returning the Plan, title)"""
CHECKS = {
    "C01": ("langops", "plan_operators", "Operators"),
    "C02": ("langops", "plan_conversions", "Conversions"),
    "C03": ("flow", "plan_flow", "Control flow"),
    "C04": ("flow", "plan_lifetime", "Object lifetime"),
    "C05": ("memory", "plan_memory", "Addresses and storage"),
    "C06": ("arrays", "plan_values", "Array values"),
    "C07": ("arrays", "plan_elements", "Array element lifetime"),
    "C08": ("cxxarrays", "plan", "C++ arrays"),
    "C10": ("literals", "plan", "Literals"),
    "C11": ("structure", "plan", "Expression structure"),
    "C12": ("overloads", "plan", "Overloads"),
    "C13": ("templates", "plan", "Templates and macros"),
    "C09": ("refs", "plan", "Shared references"),
}
