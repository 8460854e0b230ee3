#!/opt/venv/bin/python
"""run.py C01 [--replay FILE] : decide one property by monitoring executions of /repo's current tree.

VERIF_SEED and VERIF_TIER (quick|thorough) select the workload. Exit 0 held, 1 violation, 2 inconclusive / harness error.
"""
import os
import sys

os.environ.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", OMP_NUM_THREADS="1",
                  OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
os.environ.pop("MAV_IGNORE_CRC", None)
os.environ.pop("MAVNATIVE_FORCE", None)
os.environ.pop("MAVNATIVE_TESTING", None)
if os.environ.get("VT_CHILD") != "1" and os.environ.get("_VT_REEXEC") != "1":
    os.environ["_VT_REEXEC"] = "1"  # hash seed and thread settings only take effect in a fresh interpreter
    PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.dont_write_bytecode = True
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)

import argparse
import importlib
import json
import tempfile
import shutil
import subprocess
import time


def load(prop, quiet=True):
    from vt import core
    sys.path.insert(0, core.REPO)
    out = os.dup(1)
    if quiet:  # the dialect prints at import, decoders print while decoding
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
    mod = importlib.import_module(f"checks.{prop.lower()}")
    return mod, out


def scratch_home():
    """numba, matplotlib, and friends must not write next to /repo's sources or in $HOME"""
    d = tempfile.mkdtemp(prefix="vt_")
    os.environ["NUMBA_CACHE_DIR"] = d
    os.environ["MPLCONFIGDIR"] = d
    os.environ["VT_SCRATCH"] = d
    return d


def child(prop, seed, tier, shard, nshards, outfile, wall):
    import warnings
    from vt import core
    t0 = time.monotonic()
    mon = core.Monitor(prop, seed, tier)
    try:
        mod, _ = load(prop)
    except Exception as e:
        import traceback
        frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(core.REPO + "/")]
        if not frames:
            raise
        mon.violations.append({"workload": "import", "index": 0, "case": [],
                               "message": f"cannot be imported: {type(e).__name__}: {e} ({frames[-1].filename}:{frames[-1].lineno})"})
        with open(outfile, "w") as f:
            json.dump(dict(mon.export(), complete=False, meta={}), f)
        return
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    stop = False
    complete = True
    for name, fn, nq, nt in mod.WORKLOADS:
        n = nq * getattr(mod, "SCALE", 3) if tier == "quick" else nt
        for i in range(shard, n, nshards):
            if time.monotonic() - t0 > wall:
                complete = False
                stop = True
                break
            mon.run_case(name, fn, i)
            if mon.hung or len(mon.violations) >= 3 or len(mon.errors) >= 5:
                stop = True
                break
        if stop:
            break
    res = mon.export()
    res["complete"] = complete
    res["meta"] = {"rule": mod.RULE, "required": mod.REQUIRED, "assumptions": getattr(mod, "ASSUMPTIONS", [])}
    with open(outfile, "w") as f:
        json.dump(res, f)


def read_known(prop):
    """lines 'finding: property=<id> key=<key> <text>' of the committed known findings file"""
    res = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:") and f"property={prop} " in line:
                parts = line.split(None, 3)
                res[parts[2][4:]] = parts[3] if len(parts) > 3 else ""
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=0)
    ap.add_argument("--child", nargs=2)
    a = ap.parse_args()
    prop = a.prop.upper()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    wall = 600 if tier == "quick" else 3000
    if a.child:
        shard, nshards = map(int, a.child[0].split("/"))
        return child(prop, seed, tier, shard, nshards, a.child[1], wall)

    t0 = time.monotonic()
    scratch = scratch_home()
    try:
        return parent(a, prop, seed, tier, wall, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def parent(a, prop, seed, tier, wall, t0, scratch):
    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        mod, out = load(prop, quiet=True)
        from vt import core
        import warnings
        warnings.simplefilter("ignore")
        mon = core.Monitor(prop, r["seed"], r["tier"])
        fn = {w[0]: w[1] for w in mod.WORKLOADS}[r["workload"]]
        mon.run_case(r["workload"], fn, r["index"])
        os.dup2(out, 1)
        print(json.dumps(mon.export()["violations"] or mon.errors or "held", indent=1))
        return 1 if mon.violations else (2 if mon.errors else 0)

    nshards = a.shards or int(os.environ.get("VT_SHARDS", "0")) or min(8, max(1, os.cpu_count() or 1))
    procs = []
    for s in range(nshards):
        out = os.path.join(scratch, f"shard{s}.json")
        log = open(os.path.join(scratch, f"shard{s}.log"), "w")
        env = dict(os.environ, VT_CHILD="1")
        procs.append((subprocess.Popen([sys.executable, os.path.abspath(__file__), prop, "--child", f"{s}/{nshards}", out],
                                       stdout=log, stderr=subprocess.STDOUT, env=env, cwd=scratch), out, log.name))
    meta = {}
    merged = {"counters": {}, "assertions": 0, "evaluations": 0, "distinct": set(), "samples": {}, "violations": [],
              "errors": [], "known": set(), "complete": True}
    for p, out, log in procs:
        try:
            p.wait(timeout=wall + 120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        if not os.path.exists(out):
            tail = open(log, errors="replace").read()[-3000:]
            merged["errors"].append(f"shard died rc={p.returncode}: {tail}")
            continue
        try:
            with open(out) as f:
                r = json.load(f)
        except ValueError as e:
            merged["errors"].append(f"unreadable shard result: {e}")
            continue
        for k, v in r["counters"].items():
            merged["counters"][k] = merged["counters"].get(k, 0) + v
        merged["assertions"] += r["assertions"]
        merged["evaluations"] += r["evaluations"]
        merged["distinct"].update(r["distinct"])
        for k, v in r["samples"].items():
            merged["samples"].setdefault(k, v)
        merged["violations"] += r["violations"]
        merged["errors"] += r["errors"]
        merged["known"].update(r["known"])
        merged["complete"] &= r["complete"]
        meta = r["meta"]

    known = read_known(prop)
    required = meta.get("required", [])
    missing = [k for k in required if merged["counters"].get(k, 0) == 0]
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": merged["evaluations"], "distinct_nontrivial": len(merged["distinct"]),
            "rule": meta.get("rule", ""), "samples": list(merged["samples"].values())[:8],
            "oracle_assertions": merged["assertions"], "monitor_events": dict(sorted(merged["counters"].items())),
            "workloads_complete": bool(merged["complete"]),
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.monotonic() - t0, 2), "violations": len(merged["violations"]),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    unlisted = [k for k in sorted(merged["known"]) if k not in known]
    for k in unlisted:
        merged["violations"].append({"workload": "known-finding-probe", "index": 0, "message": f"unlisted finding {k}", "case": []})
    for k in sorted(merged["known"]):
        if k in known:
            print(f"KNOWN-FINDING: property={prop} {k}: {known[k]}")
    if merged["violations"]:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        merged["violations"].sort(key=lambda v: (v["workload"], v["index"]))
        for n, v in enumerate(merged["violations"][:5]):
            path = os.path.join(rdir, f"{prop}_{n}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1)
            print(f"# {v['workload']}[{v['index']}]: {v['message'][:600]}")
        print(f"VIOLATION property={prop} replay={os.path.join(rdir, prop + '_0.json')}")
        return 1
    if merged["errors"]:
        print(f"INCONCLUSIVE property={prop} harness error: {merged['errors'][0][:3000]}")
        return 2
    if missing or merged["evaluations"] == 0:
        print(f"INCONCLUSIVE property={prop} monitors never reached: {missing}")
        return 2
    if not merged["complete"] and tier == "quick":
        print(f"# time limit: {merged['evaluations']} cases were run")
    print(f"HELD property={prop} tier={tier} seed={seed} cases={merged['evaluations']} distinct={len(merged['distinct'])} "
          f"assertions={merged['assertions']} wall={evidence['wall_s']}s")
    return 0


if __name__ == "__main__":
    sys.exit(main())
