"""Proof-task runner, evidence and verdict protocol shared by all checks."""
import json, multiprocessing as mp, os, sys, time, traceback
import irvc

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


class Task:
    """one function contract (one pre-state case): fn(Engine-independent) -> runs obligations.
    run(ctx) must build an engine, execute, and return the engine(s)."""
    def __init__(self, name, fn, args=(), function=None, bounded=False, weight=1):
        self.name, self.fn, self.args, self.function = name, fn, args, function or name
        self.bounded, self.weight = bounded, weight


def _run(i):
    t = TASKS[i]
    r = {"name": t.name, "function": t.function, "failures": [], "undecided": None, "obl": 0, "bounded": t.bounded}
    t0 = time.time()
    try:
        engs = t.fn(*t.args)
        if isinstance(engs, irvc.Engine):
            engs = [engs]
        st = irvc.Stats()
        inl, con = set(), set()
        for e in engs:
            st.merge(e.stats)
            inl |= e.inlined
            con |= e.used_contracts
            for f in e.failures:
                r["failures"].append({"obligation": f.name, "status": f.status, "inputs": f.model, "where": f.where})
        r.update(obl=st.obl, by=st.by, solver_s=st.solver_s, queries=st.queries, loops=st.loops, unrolled=st.unrolled,
                 inv=st.inv, covers=st.covers, inlined=sorted(inl), contracts=sorted(con), names=st.names)
        if st.obl == 0:
            r["undecided"] = "no obligations were generated (vacuous)"
        if not st.covers:
            r["undecided"] = "no reachable pre-state (vacuous)"
    except irvc.Unsupported as e:
        r["undecided"] = "outside the verifier's fragment: %s" % e
    except Exception as e:
        r["undecided"] = "verifier error: %s: %s" % (type(e).__name__, e)
        r["tb"] = traceback.format_exc()[-3000:]
    r["wall"] = time.time() - t0
    return r


TASKS = []


def run_tasks(tasks, jobs=None, wall=600, known=lambda task, f: False, linger=25):
    """-> list of result dicts (heaviest first).  After the first failure that is not a known finding the
    remaining tasks get `linger` more seconds."""
    global TASKS
    TASKS = tasks
    jobs = jobs or min(8, os.cpu_count() or 1)
    out = [None] * len(tasks)
    t0 = time.time()
    if os.environ.get("VRUN_SERIAL"):
        return [_run(i) for i in range(len(tasks))]
    pool = mp.get_context("fork").Pool(jobs, maxtasksperchild=8)
    deadline, cut = t0 + wall, False
    try:
        order = sorted(range(len(tasks)), key=lambda i: -tasks[i].weight)
        rs = {i: pool.apply_async(_run, (i,)) for i in order}
        while rs and time.time() < deadline:
            ready = [i for i in rs if rs[i].ready()]
            for i in ready:
                try:
                    out[i] = rs.pop(i).get()
                except Exception as e:
                    out[i] = {"name": tasks[i].name, "function": tasks[i].function, "failures": [], "undecided": "worker: %r" % e, "obl": 0, "bounded": tasks[i].bounded, "wall": 0}
                r = out[i]
                if not cut and (r["undecided"] or any(not known(r["name"], f) for f in r["failures"])):
                    cut = True
                    deadline = min(deadline, time.time() + linger)
            if not ready:
                time.sleep(0.02)
    finally:
        pool.terminate()
        pool.join()
    for i, t in enumerate(tasks):
        if out[i] is None:
            out[i] = {"name": t.name, "function": t.function, "failures": [], "undecided": "not finished: %s" % ("stopped after another obligation had failed" if cut else "time limit"), "obl": 0, "bounded": t.bounded, "wall": 0, "cut": cut}
    return out


def summarize(results):
    s = {"obligations": 0, "discharged": 0, "by": {}, "solver_s": 0.0, "loops": 0, "unrolled": 0, "invariants": 0, "functions": {}, "inlined": set(), "contracts": set(), "failed": [], "undecided": [], "covers": 0, "bounded": []}
    for r in results:
        n = r.get("obl", 0)
        s["obligations"] += n
        s["discharged"] += n - len(r["failures"])
        for k, v in r.get("by", {}).items():
            s["by"][k] = s["by"].get(k, 0) + v
        s["solver_s"] += r.get("solver_s", 0)
        s["loops"] += r.get("loops", 0)
        s["unrolled"] += r.get("unrolled", 0)
        s["invariants"] += r.get("inv", 0)
        s["covers"] += r.get("covers", 0)
        s["functions"].setdefault(r["function"], 0)
        s["functions"][r["function"]] += n
        s["inlined"] |= set(r.get("inlined", ()))
        s["contracts"] |= set(r.get("contracts", ()))
        for f in r["failures"]:
            s["failed"].append(dict(f, task=r["name"]))
        if r["undecided"]:
            s["undecided"].append((r["name"], r["undecided"]))
        if r.get("bounded"):
            s["bounded"].append(r["name"])
    return s


