T = "contract-based deductive verification of the IR the repository's compiler emits (own VC generator; z3, cvc5)"
P = [
 dict(id="C01", title="Every operator computes the value the language defines",
  statement="For every operator (+ - * / %, & | $ << >>, comparisons, unary - + ! not, ++ and --, and every compound assignment) and every combination of operand types it accepts, the compiled code computes exactly the value the language defines: operands are converted to the result type (the wider of both, at least 32 bits for arithmetic; signed when either is signed; floating point when either is), unsigned arithmetic wraps, signed and unsigned operands use their own division, remainder, right shift and ordering, and assignments store that value in the target variable and nothing else. Results not excluded by signed overflow, division by zero, shifts beyond the width or out-of-range float conversion are never undefined.",
  over=["inputs"],
  qtext="for all values of the operands, for every operator and every combination of the integer types of 8 to 64 bits, ArchInt, ArchWord, Bool and both float types",
  why="The tests print a few results per operator with small values; sign, width and boundary errors of one type combination show only for specific values of that combination.",
  files=["Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp", "Sources/Spp/CodeGen/TypeGenerator.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Spp/LlvmCodeGen/Value.h"],
  mech=[("choice of result type and operand conversion", "CodeGen/ExpressionGenerator.cpp: _generateArithmeticOp, _generateBinaryOp, _generateComparisonOp, _generate*AssignOp"), ("instruction selection by type and signedness", "LlvmCodeGen/TargetGenerator.cpp: generateAdd ... generateLessThanOrEqual")],
  observe=["the value returned by a compiled function", "the value of the assigned variable"],
  technique=T,
  note="One contract per operator and type combination (about 3,700 functions, 12,000 obligations), each proved for all operand values on the IR emitted in this run; the matrix of operators and types is complete, expressions around them are sampled (nested forms, literals, references). Trusts the VC generator, the solvers, LLVM after IR emission; float remainder is uninterpreted."),
 dict(id="C02", title="Conversions between types keep the value or are exactly the defined cast",
  statement="Every conversion between numeric types, explicit (~cast), or implicit in an initialisation, an assignment, an argument, a return value, gives exactly the defined value: integers widen by the signedness of the source type and narrow by dropping high bits, integers become the nearest floating point value by the signedness of the source, floating point values truncate toward zero into integers in range. A value that the target type can represent is never changed, and a store changes exactly the target variable.",
  over=["inputs"],
  qtext="for all source values, every ordered pair of numeric types, and every syntactic form of conversion",
  why="Tests convert a handful of small values; errors of a single pair show only near the limits of the types.",
  files=["Sources/Spp/CodeGen/TypeGenerator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp", "Sources/Spp/Ast/IntegerType.cpp", "Sources/Spp/Ast/FloatType.cpp", "Sources/Spp/CodeGen/Generator.cpp"],
  mech=[("cast selection", "CodeGen/TypeGenerator.cpp: _generateCast; Ast/IntegerType.cpp, Ast/FloatType.cpp: matchTargetType"), ("cast instructions", "LlvmCodeGen/TargetGenerator.cpp: generateCastIntToInt, generateCastIntToFloat, generateCastFloatToInt, generateCastFloatToFloat")],
  observe=["the value returned by a compiled function", "the value of the assigned variable"],
  technique=T,
  note="One contract per type pair and conversion form (about 1,200 functions), proved for all values on the IR emitted in this run; the matrix of types and forms is complete. Same trusted base as C01."),
 dict(id="C03", title="Statements run in the order and under the conditions the source states",
  statement="In compiled code, the sequence of operations performed is exactly the one the source defines: sequencing, if/else, while, for, blocks, break and continue over any number of enclosing loops, return from any depth, short-circuit and/or (the second operand is evaluated exactly when it decides), argument evaluation before the call and every expression evaluated exactly once. This holds for every outcome of every condition and every number of iterations of every loop, and in every nesting of these constructs.",
  over=["inputs", "programs"],
  qtext="for all outcomes of all conditions and all iteration counts (proved); for all nestings of control constructs (sampled: thousands of generated programs)",
  why="The tests run a few programs with fixed inputs; an error of one construct inside another (continue in an else inside a for, break out of two loops from a short-circuit condition) needs exactly that nesting and that outcome.",
  files=["Sources/Spp/CodeGen/CommandGenerator.cpp", "Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp", "Sources/Spp/LlvmCodeGen/LoopContext.h", "Sources/Spp/LlvmCodeGen/IfContext.h"],
  mech=[("control statements", "CodeGen/CommandGenerator.cpp: _generateIfStatement, _generateWhileStatement, _generateForStatement, _generateContinueStatement, _generateBreakStatement, _generateReturnStatement, generateCondition"), ("short circuit", "CodeGen/ExpressionGenerator.cpp: _generateLogicalOp"), ("basic blocks", "LlvmCodeGen/TargetGenerator.cpp: prepare/finish If, While, For, LogicalOr, LogicalAnd")],
  observe=["calls to external functions with their arguments", "the result of a compiled function"],
  technique="contract-based deductive verification of the IR the repository's compiler emits: the contract of each function is its reference automaton; every external call in the emitted IR is an obligation against the reference automaton of the source, with inferred and proved loop invariants",
  level="translation_validation",
  note="Each generated program (4,000 per run; 16,000 thorough) is proved for all outcomes and iteration counts on the IR emitted in this run; the programs are sampled. The contract of a function is its reference automaton; external functions are abstract. Trusts the reference machine, the abstract IR machine, LLVM after IR emission."),
 dict(id="C04", title="Every object is initialised once and terminated once, on every path",
  statement="In compiled code, every object with user-defined initialisation or termination (local variables, parameters by value, temporaries of expressions, results of functions, members of classes) is initialised exactly once before its first use and terminated exactly once after its last use, when the scope or statement that owns it is left, in whatever way it is left (end of block, break, continue, return, not taken short-circuit operand). Members are initialised before and terminated after the object they belong to, arguments of the initialisation are the ones stated, and no object is initialised, copied, assigned or terminated other than where the source says so.",
  over=["inputs", "programs"],
  qtext="for all outcomes of all conditions and all iteration counts (proved); for all combinations of objects, expressions and control constructs (sampled: more than a thousand generated programs)",
  why="Tests construct a few objects in straight-line code; a missing or doubled termination needs a particular exit from a particular nesting of scopes, conditions and temporaries.",
  files=["Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/CodeGen/CommandGenerator.cpp", "Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/CodeGen/DestructionStack.cpp", "Sources/Spp/CodeGen/TypeGenerator.cpp", "Sources/Spp/Ast/UserType.cpp", "Sources/Spp/CodeGen/DestructionNode.h"],
  mech=[("scopes of objects", "CodeGen/DestructionStack.cpp; CodeGen/Generator.cpp: _generateVarGroupDestruction, _generateVarDestruction, _generateStatementBlock; CommandGenerator.cpp: scope counts of break/continue/return"), ("temporaries", "CodeGen/ExpressionGenerator.cpp: _generateFunctionCall, _generateParams, _generateLogicalOp; Generator.cpp: _generateTempVar, _generateVarInitialization"), ("member initialisation and termination", "CodeGen/TypeGenerator.cpp: _generateUserTypeAutoConstructor, _generateUserTypeAutoDestructor; Ast/UserType.cpp: getInitializationMethod, getDestructionMethod")],
  observe=["calls of the initialisation, copy, assignment and termination handlers with the objects they get"],
  technique="contract-based deductive verification of the IR the repository's compiler emits: the contract of each function is its reference automaton; every handler call in the emitted IR is an obligation against the reference automaton of the source (object ownership as ghost state), with inferred and proved loop invariants",
  level="translation_validation",
  note="Each generated program (3,200 per run; 12,000 thorough) over a fixed set of classes is proved for all outcomes and iteration counts on the IR emitted in this run; the programs are sampled. The order of terminations within one scope is left free. Trusts the reference machine, the abstract IR machine, LLVM after IR emission."),
 dict(id="C05", title="Every access reaches exactly the storage the source names",
  statement="In compiled code every variable, class member (also of injected members and through references), array element, pointer target and temporary occupies its own storage, laid out as the language (and the C ABI) defines, and each read, write, copy, argument passing, return or conversion of it reads or changes exactly the bytes that the source names and nothing else. Array indices and pointer offsets of every integer type count with their mathematical value; ~ptr, ~cnt, ~size, comparisons of pointers, casts between pointers and integers and changing what a reference refers to have their defined effect; assignments and parameters by value copy the whole object; arguments by reference and reference results denote the original object. This holds for all contents of memory and for every aliasing of the objects involved.",
  over=["inputs", "programs"],
  qtext="for all argument values, memory contents and aliasing (proved); for all classes, arrays, pointers and expressions over them (sampled: thousands of generated functions)",
  why="Tests read and write a few small objects; an error of an index type, an offset, a layout, or of two objects sharing a temporary needs a particular value, type or combination of accesses.",
  files=["Sources/Spp/CodeGen/ExpressionGenerator.cpp", "Sources/Spp/CodeGen/TypeGenerator.cpp", "Sources/Spp/LlvmCodeGen/TargetGenerator.cpp", "Sources/Spp/CodeGen/Generator.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Spp/Ast/ReferenceType.cpp", "Sources/Spp/Ast/PointerType.cpp"],
  mech=[("member and element addresses", "CodeGen/ExpressionGenerator.cpp: _generateMemberVarReference, _generateArrayReference, _generateCalleeReferenceChain; LlvmCodeGen/TargetGenerator.cpp: generateMemberVarReference, generateArrayElementReference, generateStructTypeBody"), ("pointers and references", "CodeGen/ExpressionGenerator.cpp: _generatePointerOp, _generateContentOp, _generateDerefOp, _generateNoDerefOp, _dereferenceIfNeeded, _generateSizeOp, pointer arithmetic and comparison; CodeGen/TypeGenerator.cpp: _generateCast"), ("copies", "CodeGen/ExpressionGenerator.cpp: _generateAssignOp, _prepareFunctionParams; LlvmCodeGen/TargetGenerator.cpp: generateAssign, generateFunctionCall, generateReturn")],
  observe=["memory after a call of a compiled function", "the result of a compiled function"],
  technique="contract-based deductive verification of the IR the repository's compiler emits: each function's contract is its meaning on a byte-level memory (own symbolic executor; z3)",
  level="translation_validation",
  note="Each generated function (about 4,500 in 120 random type sets per run; 300 sets thorough) is proved for all arguments, memory contents and aliasing: result and every byte of memory equal what the source means. Functions are loop-free; programs are sampled. Objects of a function and its parameters do not overlap the caller's; trusts the reference semantics (itself run against the native code), the IR executor, z3, LLVM after IR emission."),
 dict(id="C11", title="Expressions group by operator precedence whatever their spelling and layout",
  statement="An expression means what the operator precedence says, however many operators it chains and however it is laid out: brackets, calls and casts bind tightest, then a prefix or postfix operator, then bitwise operators and shifts, then * / %, then + -, then comparisons, then logical operators, then assignments; operators of one level group to the left, assignments to the right. Every operand is evaluated in its place; alternative spellings (÷, و, أو, ليس, && and and) mean the same operator; spaces, line ends, comments and direction marks between tokens, and names that begin with or contain keywords, change nothing.",
  over=["inputs"],
  level="translation_validation",
  qtext="for all values of the variables of each expression, for every ordered pair of binary operators, prefix and postfix operators against binary ones, and a large sample of longer expressions and layouts",
  why="A test fixes one expression and one layout and prints one result; wrong grouping shows only for particular operator sequences, and then only for values on which the groupings differ.",
  files=["Sources/Core/Data/Grammar/StandardFactory.cpp", "Sources/Core/Processing/Handlers/InfixParsingHandler.h", "Sources/Core/Processing/Handlers/OutfixParsingHandler.h", "Sources/Core/Processing/Handlers/ChainOpParsingHandler.cpp", "Sources/Core/Processing/Parser.cpp", "Sources/Core/Processing/Lexer.cpp", "Sources/Spp/CodeGen/ExpressionGenerator.cpp"],
  mech=[("precedence levels and operator lists", "Data/Grammar/StandardFactory.cpp: createTokenDataModule, createExpressionProductionModule"), ("grouping of chains", "Processing/Handlers/InfixParsingHandler.h: addData, findRightLeaf; OutfixParsingHandler.h: addData; ChainOpParsingHandler.cpp: addData"), ("longest token, ignored tokens", "Processing/Lexer.cpp; Processing/Parser.cpp")],
  observe=["the value returned by a compiled function", "the values of its variables"],
  technique=T,
  note="One contract per expression (about 2,800 functions): each emitted function is proved equal, for all values of its variables, to the meaning of the expression under the stated precedence. All ordered pairs of binary operators are covered; longer expressions (to about ten operators, eight variables) and layouts are sampled. Trusts the VC generator, the solvers, and the reference precedence table; products and quotients are treated as uninterpreted where that suffices (sound)."),
 dict(id="C12", title="A call reaches the overload that fits its arguments best",
  statement="Of the functions of one name that a call can see, the one whose worst-fitting argument fits best is called, with each argument converted to its parameter's type: same type or a reference to it fits best, then a reference to the class an object begins with (injected first member), then a wider type of the same family (an unsigned integer also into a wider signed one; a wider float), then any other numeric conversion, last a ~cast handler of an object (the better, the better its result fits); nothing but Word[1] fits Word[1]; the number of arguments must be right, and within the limits of a pack. Return values, definition order, other overloads and literal or variable arguments change nothing. The rule is the same for functions, methods, initializers, call and operator handlers, also through aliases and qualified names; an inner module's name hides the outer one's; members of an injected object are seen like the object's own, which come first when both fit equally.",
  over=["inputs"],
  level="translation_validation",
  qtext="for all values of the arguments of each call, for every argument type against every pair of parameter types, and a large sample of overload sets and call forms",
  why="A test calls a few overloads with a few types; which one is reached depends on the whole set of candidates and on the combination of argument types, and a wrong choice mostly yields a plausible converted value.",
  files=["Sources/Spp/Ast/CalleeTracer.cpp", "Sources/Spp/Ast/FunctionType.cpp", "Sources/Spp/Ast/IntegerType.cpp", "Sources/Spp/Ast/FloatType.cpp", "Sources/Spp/Ast/ReferenceType.cpp", "Sources/Spp/Ast/UserType.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Spp/CodeGen/ExpressionGenerator.cpp"],
  mech=[("fit of a call", "Ast/FunctionType.cpp: matchCall"), ("fit of a type", "Ast/IntegerType.cpp, FloatType.cpp, ReferenceType.cpp: matchTargetType; Ast/Helper.cpp"), ("choice", "Ast/CalleeTracer.cpp: selectBetterResult, _lookupCallee")],
  observe=["the value returned by a compiled function, from which the overload reached and its arguments can be read"],
  technique=T,
  note="One contract per call (about 5,000 functions): each emitted function is proved, for all values of its arguments, to return what the overload selected by the stated rule returns on the converted arguments. Calls that the rule leaves undecided are errors and are not claimed. Trusts the VC generator, the solvers and the reference rule."),
 dict(id="C13", title="A template instance or macro use means the code with its parameters replaced",
  statement="An instance of a class or function template behaves as the template's body with every parameter standing for its argument (a type, an integer, a string, a function or a module; a parameter left out stands for its default), and never as the instance of other arguments: instances whose arguments are equal (same type however it is spelled or aliased, same integer value in any base, same text, same function or module) are one and the same class, sharing its static members, and instances that differ in any argument are independent of each other, in whatever order, module or enclosing template they are used. A use of a macro is the macro's body with each parameter replaced by its argument as an expression (not as text), the macro being chosen by name, number of arguments and whether it is used on an object; names (__n__) and texts ({{n}}) made from an argument are complete, whatever their length.",
  over=["inputs"],
  level="translation_validation",
  qtext="for all values of the arguments of each function, over a large sample of templates, sets of instances that differ in one argument, spellings, macros and nested uses",
  why="A test uses a template with a few arguments; whether two uses get one instance or two depends on the whole history of instances before them and on how the arguments are spelled, and a wrong choice yields a plausible value of another instance.",
  files=["Sources/Spp/Ast/Template.cpp", "Sources/Spp/Ast/NodePathResolver.cpp", "Sources/Spp/Ast/Macro.h", "Sources/Spp/CodeGen/AstProcessor.cpp", "Sources/Spp/Ast/Helper.cpp", "Sources/Spp/Ast/ast.cpp"],
  mech=[("choice of an instance", "Ast/Template.cpp: matchInstance, matchTemplateVar, prepareTemplateVars"), ("names of instances", "Ast/NodePathResolver.cpp: _resolveTemplateInstance"), ("expansion of macros", "CodeGen/AstProcessor.cpp: _processParamPass, _processMacro, _interpolateAst_*")],
  observe=["the value returned by a compiled function that uses several instances or macros"],
  technique=T,
  note="One contract per set of uses (about 3,000 functions): each emitted function is proved, for all values of its arguments, to return what the bodies with the parameters replaced compute. ast and ast_ref parameters, code that runs while compiling, and arguments of equal value but different integer type (5 and 5i64 share an instance) are not covered. Trusts the VC generator, the solvers and the reference substitution."),
]
