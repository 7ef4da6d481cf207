"""Run the contract theorems of one property symbolically: extract, generate obligations, discharge.

usage: python -m pyded.verify PROPERTY OUT.json CONSTS.json BUDGET_SECONDS
"""
import ast
import json
import os
import signal
import sys
import time
import traceback
import multiprocessing as mp
from . import terms
from .terms import *
from .values import *
from .interp import Interp, MAX_PATHS
from .logic import Prover, Stats
from .symv import SymV

sys.setrecursionlimit(20000)
OBLIGATION_SECONDS = 40.0
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Late(BaseException):
    """the time of this step is used up"""


def _late(sig, frame):
    raise Late()


class alarm:
    """raise Late in this process after some seconds (solver calls have their own limits)"""

    def __init__(self, seconds):
        self.seconds = max(0.05, seconds)

    def __enter__(self):
        signal.signal(signal.SIGALRM, _late)
        signal.setitimer(signal.ITIMER_REAL, self.seconds, 1.0)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)


def theorems(prop):
    path = os.path.join(HERE, "contracts", prop.lower() + ".py")
    tree = ast.parse(open(path).read(), path)
    return [(n.name, ast.get_docstring(n) or "") for n in tree.body if isinstance(n, ast.FunctionDef) and n.name.startswith("theorem_")]


def pins_of(model):
    """counterexample values of contract inputs: {"name|i|j": value}"""
    out = {}
    for k, v in (model or {}).items():
        if isinstance(k, tuple) and isinstance(k[0], str) and k[0].startswith("in:") and v is not None:
            if any(x is None for x in k[1:]):
                continue
            out["|".join([k[0][3:]] + [str(x) for x in k[1:]])] = v
    return out


def run_theorem(prop, name, consts, budget, repo):
    t0 = time.time()
    reset_fresh()
    stats = Stats()
    it = Interp({"ries": repo, "contracts": HERE}, Prover(stats), consts)
    res = {"theorem": name, "paths": 0, "obligations": [], "unsupported": [], "functions": [], "assumed": [], "dropped": [], "reachable_paths": 0, "truncated": False}
    try:
        mod = it.load("contracts." + prop.lower())
    except Exception as e:
        res["unsupported"].append("loading: %s" % e)
        return res
    fn = mod.ns.get(name)
    if not isinstance(fn, FuncVal):
        res["unsupported"].append("contract not loadable: %s" % [d for d in mod.dropped])
        return res
    # module-level default objects etc. are shared by all paths: effects are journalled and undone
    work = [[]]
    seen = {}
    obs = []
    while work:
        if res["paths"] >= MAX_PATHS or time.time() - t0 > budget * 0.6:
            res["truncated"] = True
            break
        it.reset()
        it.wit_count = 0
        it.uniqs = {}
        it.prefix, it.pos, it.pending = work.pop(), 0, []
        it.journal = []
        sv = SymV(it)
        sv.theorem = name
        res["paths"] += 1
        dead = False
        try:
            with alarm(budget * 0.6 - (time.time() - t0)):
                it.call(fn, [sv], {})
        except Late:
            res["unsupported"].append("time budget used up at %s" % it.line)
            res["truncated"] = True
        except PathEnd:
            dead = True
        except PyRaise as e:
            it.obligations.append(it.mk_obligation("%s: no %s is raised (%s) at %s" % (name, e.name, e.value if not isinstance(e.value, (T, ListVal)) else "", it.line), FALSE, "exc"))
        except Unsupported as e:
            res["unsupported"].append("%s at %s" % (e, it.line))
        except (RecursionError, MemoryError) as e:
            res["unsupported"].append("%s at %s" % (type(e).__name__, it.line))
        except Exception as e:
            res["unsupported"].append("engine error %s: %s at %s\n%s" % (type(e).__name__, e, it.line, traceback.format_exc()[-1500:]))
        for key, obj, undo in reversed(it.journal):
            undo()
        try:
            with alarm(5):
                if not dead and it.prover.feasible(it.pc, TRUE):
                    res["reachable_paths"] += 1
        except Late:
            pass
        for o in it.obligations:
            k = (o.label, o.goal, frozenset(o.facts))
            o.choices = dict(sv.choices)
            if k not in seen:
                seen[k] = True
                obs.append(o)
        work.extend(it.pending)
    for o in obs:
        t1 = time.time()
        if t1 - t0 > budget:
            res["obligations"].append({"label": o.label, "kind": o.kind, "where": o.where, "status": "unknown", "backend": "", "info": "time budget", "time": 0.0, "pins": dict(o.choices)})
            continue
        try:
            with alarm(min(OBLIGATION_SECONDS, budget - (t1 - t0))):
                r = it.prover.prove(o.facts, o.goal)
        except Late:
            from .logic import Result
            r = Result("unknown", "", "time limit: " + terms.show(o.goal)[:500])
        except Exception as e:
            from .logic import Result
            r = Result("unknown", "engine", "%s: %s" % (type(e).__name__, e))
        d = {"label": o.label, "kind": o.kind, "where": o.where, "status": r.status, "backend": r.backend, "time": round(time.time() - t1, 3)}
        if not r.ok:
            d["info"] = r.info[:3000]
            d["pins"] = {**pins_of(r.model), **o.choices}
        res["obligations"].append(d)
    res["functions"] = sorted("%s.%s" % q for q in it.functions_seen if q[0].startswith("ries"))
    res["assumed"] = sorted(it.assumed)
    for m in it.modules.values():
        for line, names, why in m.dropped:
            if m.name.startswith("ries"):
                res["dropped"].append("%s:%d %s (%s)" % (m.name, line, ", ".join(names), why[:80]))
    res["solver_time"] = round(stats.solver_time, 3)
    res["queries"] = stats.queries
    res["backends"] = stats.backends
    res["wall"] = round(time.time() - t0, 3)
    return res


def _job(a):
    try:
        return run_theorem(*a)
    except Exception as e:
        return {"theorem": a[1], "paths": 0, "obligations": [], "unsupported": ["engine error: %s" % traceback.format_exc()[-2000:]], "functions": [], "assumed": [], "dropped": [],
                "reachable_paths": 0, "truncated": False, "solver_time": 0, "queries": 0, "backends": {}, "wall": 0}


def main(prop, out, consts_file, budget, repo="/repo"):
    consts = json.load(open(consts_file))
    ths = theorems(prop)
    only = os.environ.get("PYDED_ONLY")
    jobs = [(prop, n, consts, budget, repo) for n, _ in ths if not only or only in n]
    if len(jobs) > 1:
        with mp.get_context("fork").Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
            results = pool.map(_job, jobs, chunksize=1)
    else:
        results = [_job(j) for j in jobs]
    doc = dict(ths)
    for r in results:
        r["statement"] = doc[r["theorem"]]
    json.dump(results, open(out, "w"), indent=1)
    return results


if __name__ == "__main__":
    main(sys.argv[1], sys.argv[2], sys.argv[3], float(sys.argv[4]), *sys.argv[5:6])
