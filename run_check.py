"""Decide one property: discharge its contract theorems on the current source of /repo, replay failures.

usage: python3-vt run_check.py PROPERTY        (env VERIF_SEED, VERIF_TIER)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vspec import assumptions
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
CPY = "/opt/venv/bin/python"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")

TRUSTED = [
    "pyded (this verifier: AST interpreter, loop summaries, normal forms)",
    "z3 5.3.2",
    "cvc5 1.4.2",
    "CPython's ast module",
    "assumed contracts of external libraries (listed under assumed)",
]
GENERAL_ASSUMPTIONS = [
    "floats are mathematical reals: rounding, overflow and NaN are not modelled",
    "decimal literals stand for their exact decimal value",
    "int and float arithmetic is the exact arithmetic of Z and R",
    "names resolve as in the source files: no monkey patching of ries modules from outside",
    "docstrings, annotations and comments are dropped by extraction; module-level statements listed under dropped are not executed symbolically",
]


def limits():
    if TIER == "thorough":
        return {"sym": 700.0, "trials": 20000, "conc": 200.0, "search": 120.0}
    return {"sym": 240.0, "trials": 1500, "conc": 30.0, "search": 45.0}


def env():
    e = dict(os.environ)
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONHASHSEED"] = "0"
    e["VERIF_REPO"] = REPO
    e["OMP_NUM_THREADS"] = e["OPENBLAS_NUM_THREADS"] = "1"
    if REPO != "/repo":
        e["PYTHONPATH"] = REPO
    return e


def theorem_names(prop):
    import ast
    path = os.path.join(HERE, "contracts", prop.lower() + ".py")
    tree = ast.parse(open(path).read(), path)
    names = [n.name for n in tree.body if isinstance(n, ast.FunctionDef)]
    return [n for n in names if n.startswith("theorem_")], [n for n in names if n.startswith("bounded_")]


def concrete(work, tag, job):
    jf, of = os.path.join(work, tag + ".job"), os.path.join(work, tag + ".out")
    json.dump(job, open(jf, "w"))
    p = subprocess.Popen([CPY, os.path.join(HERE, "vspec", "concrete.py"), jf, of], cwd=work, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p, of


def collect(p, of, timeout):
    try:
        log = p.communicate(timeout=timeout)[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        log = p.communicate()[0].decode(errors="replace") + "\n(killed after %d s)" % timeout
    out = {"theorems": {}, "error": None, "log": log[-2000:]}
    if os.path.exists(of):
        try:
            out.update(json.load(open(of)))
        except ValueError:
            pass
    elif p.returncode != 0:
        out["error"] = "concrete run ended with status %s: %s" % (p.returncode, log[-1500:])
    return out


def known(prop):
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) label=\"([^\"]*)\" (.*)", line)
        if m and m.group(1) == prop:
            out.append((m.group(2), m.group(3).strip()))
    return out


def main(prop):
    t0 = time.time()
    L = limits()
    os.makedirs(os.path.join(EVIDENCE), exist_ok=True)
    for f in os.listdir(os.path.join(EVIDENCE)):
        if f.startswith("replay-%s-" % prop):
            os.remove(os.path.join(EVIDENCE, f))
    work = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        return decide(prop, t0, L, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(prop, t0, L, work):
    consts = os.path.join(work, "consts.json")
    subprocess.run([CPY, os.path.join(HERE, "vspec", "dump_consts.py"), consts], check=True, env=env(), cwd=work)
    sym_names, bounded_names = theorem_names(prop)
    share = max(1, (len(sym_names) + 7) // 8)
    # stage 1: proof and sampled execution side by side
    job = {"property": prop, "seed": SEED, "theorems": sym_names + bounded_names, "trials": L["trials"], "budget": L["conc"]}
    cp, cof = concrete(work, "sample", job)
    sym = []
    if sym_names:
        sof = os.path.join(work, "sym.json")
        checker = ["python3-vt", "-m", "pyded.verify", prop, sof, consts, str(L["sym"] / share), REPO]
        sp = subprocess.Popen(checker, cwd=HERE, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            slog = sp.communicate(timeout=L["sym"] + 120)[0].decode(errors="replace")
        except subprocess.TimeoutExpired:
            os.killpg(sp.pid, 9)
            slog = sp.communicate()[0].decode(errors="replace")
        if os.path.exists(sof):
            sym = json.load(open(sof))
        else:
            print("symbolic run gave no result: %s" % slog[-1500:])
            sym = [{"theorem": n, "paths": 0, "reachable_paths": 0, "obligations": [], "unsupported": ["no result: " + slog[-300:]], "functions": [], "assumed": [], "dropped": [],
                    "solver_time": 0.0, "queries": 0, "backends": {}, "wall": 0.0, "truncated": True, "statement": ""} for n in sym_names]
    sample = collect(cp, cof, L["conc"] * 2 + 240)
    results = {n: r for n, r in sample["theorems"].items()}
    failed = [(n, f) for n, r in results.items() for f in r["failures"]]
    # known findings are told apart from new failures
    kn = known(prop)
    printed = set()

    def unknown(found):
        out = []
        for n, f in found:
            rest = []
            for msg in f["failures"]:
                hit = [w for lab, w in kn if msg.startswith(lab)]
                if hit:
                    printed.add(hit[0])
                else:
                    rest.append(msg)
            if rest:
                out.append((n, dict(f, failures=rest)))
        return out
    # stage 2: counterexamples of failed obligations, and a longer search where the proof is incomplete
    open_obs = {}
    for r in sym:
        bad = [o for o in r["obligations"] if o["status"] != "proved"]
        if bad or r["unsupported"] or r["truncated"]:
            open_obs[r["theorem"]] = bad
    if open_obs and not unknown(failed):
        pins = {}
        for n, bad in open_obs.items():
            uniq = []
            for o in bad:
                if o.get("pins") and o["pins"] not in uniq:
                    uniq.append(o["pins"])
            pins[n] = uniq[:12]
        job = {"property": prop, "seed": SEED + 7919, "theorems": sorted(open_obs), "trials": L["trials"] * 4, "budget": L["search"], "pins": pins, "pin_trials": 25}
        p, of = concrete(work, "search", job)
        search = collect(p, of, L["search"] * 2 + 200)
        for n, r in search["theorems"].items():
            for f in r["failures"]:
                f["seed"] = SEED + 7919
                failed.append((n, f))
            if n in results:
                for k in ("trials", "passed", "rejected", "checked", "distinct"):
                    results[n][k] += r[k]
            else:
                results[n] = r
    fresh = unknown(failed)
    for w in sorted(printed):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    obligations = sum(len(r["obligations"]) for r in sym)
    discharged = sum(1 for r in sym for o in r["obligations"] if o["status"] == "proved")
    refuted = [(r["theorem"], o) for r in sym for o in r["obligations"] if o["status"] == "refuted" and not o["label"].startswith("defined:")]
    trials = sum(r["passed"] for r in results.values())
    status = 0
    replay = None
    if fresh:
        n, f = fresh[0]
        replay = write_replay(prop, 0, {"property": prop, "theorem": n, "seed": f.get("seed", SEED), "pins": f["pins"], "trial": f["trial"], "inputs": f["inputs"], "failures": f["failures"],
                                        "replay_cmd": "cd /verif && %s vspec/concrete.py --replay <this file>" % CPY,
                                        "failed_obligations": [o for _, o in refuted if _ == n][:5]})
        for m in f["failures"][:8]:
            print("%s: %s" % (n, m))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        status = 1
    elif refuted:
        n, o = refuted[0]
        replay = write_replay(prop, 0, {"property": prop, "theorem": n, "obligation": o["label"], "where": o["where"], "backend": o["backend"], "verifier_output": o.get("info", ""), "counter_model": o.get("pins", {}),
                                        "all_refuted": [x["label"] for _, x in refuted]})
        print("%s: obligation refuted: %s" % (n, o["label"]))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        status = 1
    proved_all = bool(sym) and all(r["obligations"] and r["reachable_paths"] and not r["unsupported"] and not r["truncated"] and results.get(r["theorem"], {}).get("passed", 0) for r in sym) and discharged == obligations
    bounded = [n for n in bounded_names] + sorted(open_obs)
    level = "proof" if sym_names and not bounded_names and proved_all else ("other" if sym_names else "exploration")
    meta = json.load(open(os.path.join(HERE, "MANIFEST.json")))
    for c in meta["checks"]:
        if c["property"] == prop and status == 0 and (c["level"] != "proof" or proved_all):
            level = c["level"]
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "python3-vt -m pyded.verify %s OUT.json CONSTS.json %g %s" % (prop, L["sym"] / share, REPO),
        "trusted_base": TRUSTED,
        "theorems": [{"name": r["theorem"], "statement": r.get("statement", "").split("\n")[0], "paths": r["paths"], "reachable_paths": r["reachable_paths"], "obligations": len(r["obligations"]),
                      "discharged": sum(1 for o in r["obligations"] if o["status"] == "proved"), "solver_time_s": r.get("solver_time", 0), "wall_s": r.get("wall", 0),
                      "unsupported": [u.split("\n")[0][:300] for u in r["unsupported"]][:5],
                      "undischarged": ["%s [%s]" % (o["label"], o["status"]) for o in r["obligations"] if o["status"] != "proved"][:20]} for r in sym],
        "functions_under_contract": sorted({f for r in sym for f in r["functions"]}),
        "back_ends": merge_counts([r.get("backends", {}) for r in sym]),
        "obligation_back_ends": merge_counts([{o["backend"] or "none": 1} for r in sym for o in r["obligations"]]),
        "solver_time_s": round(sum(r.get("solver_time", 0) for r in sym), 3),
        "solver_queries": sum(r.get("queries", 0) for r in sym),
        "assumed": sorted({a for r in sym for a in r["assumed"]}),
        "dropped": sorted({a for r in sym for a in r["dropped"]}),
        "bounded_only": bounded,
        "evaluations": sum(r["trials"] for r in results.values()),
        "distinct_nontrivial": sum(r["distinct"] for r in results.values()),
        "rule": "every theorem is also executed by CPython on inputs sampled from its preconditions (bounds, special values, constants of the source, counter-models); non-trivial: precondition satisfied, distinct inputs",
        "samples": [{"theorem": n, "inputs": s} for n, r in results.items() for s in r.get("samples", [])[:1]][:8],
        "explanation": "contract theorems discharged on the extracted source (obligations/discharged); parts listed under bounded_only are covered by sampled execution of the same contract only and are not counted as proved",
    }
    exhaustive = [n for n, r in results.items() if n in bounded_names and r.get("exhaustive")]
    if exhaustive:
        cov["exhaustive_parts"] = exhaustive
    ev = {"property": prop, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
          "assumptions": GENERAL_ASSUMPTIONS + assumptions.words(prop, cov["assumed"]),
          "wall_s": round(time.time() - t0, 2), "violations": 1 if status else 0}
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d sampled executions of %d theorems; %.1f s%s" % (
        prop, obligations, discharged, trials, len(results), time.time() - t0, "; bounded only: " + ", ".join(bounded) if bounded else ""))
    if status == 0 and sample["error"]:
        print("ERROR: %s" % sample["error"])
        return 2
    if status == 0 and (obligations == 0 and trials == 0 or (sym_names and obligations == 0 and trials == 0)):
        print("ERROR: nothing was checked")
        return 2
    return status


def merge_counts(ds):
    out = {}
    for d in ds:
        for k, n in d.items():
            out[k] = out.get(k, 0) + n
    return out


def write_replay(prop, k, doc):
    path = os.path.join(EVIDENCE, "replay-%s-%d.json" % (prop, k))
    json.dump(doc, open(path, "w"), indent=1, default=str)
    return path


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
