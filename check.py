#!/opt/venv/bin/python
"""Runs the check of one property:  check.py C09 [--thorough] [--replay FILE]

Exit status: 0 the property held on everything explored (known findings are
listed), 1 a violation (VIOLATION line), 2 the check itself could not run."""
import sys
sys.dont_write_bytecode = True
import argparse
import hashlib
import importlib
import json
import os
import time
import tempfile
import warnings

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
warnings.simplefilter("ignore")

MODULES = {}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true",
                    help="import the library and every check module")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--only", help="only tasks with this in their name")
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--timings", action="store_true")
    args = ap.parse_args()

    # always the working tree's sources: no byte code is read or written
    if "MC_PRIVATE" not in os.environ:
        env = dict(os.environ, MC_PRIVATE="1", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", PYTHONWARNINGS="ignore",
                   PYTHONPYCACHEPREFIX="/nonexistent/verif-no-pycache")
        env.pop("PYTHONPATH", None)
        os.execve(sys.executable, [sys.executable, "-s"] + sys.argv, env)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    pid = args.property
    tier = "thorough" if args.thorough else "quick"
    t0 = time.time()
    try:
        import normalize
        assert os.path.realpath(normalize.__file__).startswith(
            os.path.realpath(REPO)), normalize.__file__
    except Exception as e:
        print("ERROR cannot import the library: %r" % e)
        return 2
    from mc import core
    from mc.registry import CHECKS
    if args.selftest:
        for p in sorted(CHECKS):
            mod = importlib.import_module("mc." + CHECKS[p][0])
            assert callable(getattr(mod, "tasks_" + p)), p
        print("%d checks importable" % len(CHECKS))
        return 0
    module, title, bound_note = CHECKS[pid]
    mod = importlib.import_module("mc." + module)
    replay = None
    if args.replay:
        with open(args.replay) as f:
            rep = json.load(f)
        tier = rep["tier"]
        replay = rep["spec"]
        args.only = rep["task"]
    tasks = getattr(mod, "tasks_" + pid)(tier)
    names = [n for n, _ in tasks]
    assert len(set(names)) == len(names), "duplicate task names"
    if args.only:
        tasks = [t for t in tasks if args.only in t[0]]
    results = core.run_tasks(tasks, tier, replay=replay, jobs=args.jobs)
    wall = time.time() - t0

    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        with open(kf) as f:
            known = [k for k in json.load(f)["findings"]
                     if k["property"] == pid and k["status"] == "known"]
    knownkeys = {k["key"]: k for k in known}
    violations, crashes, capped, hit = [], [], [], {}
    for r in results:
        for v in r["violations"]:
            if v["key"] and v["key"] in knownkeys:
                hit[v["key"]] = hit.get(v["key"], 0) + 1
            else:
                violations.append(v)
        if r["crash"]:
            crashes.append("%s: %s" % (r["name"], r["crash"]))
        if r["capped"]:
            capped.append("%s: %s" % (r["name"], r["capped"]))
    if args.timings:
        for r in results:
            print("  %-40s %6.2fs states=%d transitions=%d traces=%d" % (
                r["name"], r["wall"], r["states"], r["transitions"],
                r["traces"]))
            for k, n in sorted(r["outcomes"].items()):
                print("      %-50s %d" % (k, n))
    for k in known:
        if k["key"] in hit:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    tot = {k: sum(r[k] for r in results)
           for k in ("states", "transitions", "traces")}
    outcomes = {}
    for r in results:
        for k, n in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + n
    samples = []
    for r in results:
        for s in r["samples"][-2:]:
            samples.append("%s %s" % (r["name"], s))
    samples = samples[:12]
    if not args.only and not replay and "MC_NOEVIDENCE" not in os.environ:
        ev = dict(
            property=pid, tier=tier, level="model_checking",
            seed=int(os.environ.get("VERIF_SEED", "1") or 1),
            wall_s=round(wall, 3),
            coverage=dict(
                states=tot["states"], transitions=tot["transitions"],
                traces_validated_against_impl=tot["traces"],
                samples=samples,
                exhaustive=not capped and not crashes,
                bounds={r["name"]: r["bounds"] for r in results},
                distinct_outcomes=outcomes,
                tasks=len(results),
            ),
            assumptions=[bound_note],
            violations=len(violations),
        )
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        path = os.path.join(VERIF, "evidence", pid + ".json")
        with open(path + ".tmp", "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        os.replace(path + ".tmp", path)
    if violations:
        rdir = os.path.join(VERIF, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        shown = sorted(violations, key=lambda v: len(v["spec"]))[:5]
        for v in shown:
            h = hashlib.sha1(
                (v["task"] + v["spec"]).encode("utf-8", "backslashreplace")
            ).hexdigest()[:10]
            path = os.path.join(rdir, "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, task=v["task"],
                               spec=v["spec"], what=v["what"],
                               traceback=v["traceback"]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  task %s case %s" % (v["task"], v["spec"][:600]))
            print("  %s" % v["what"][:1500])
        return 1
    if crashes:
        for c in crashes:
            print("ERROR " + c)
        return 2
    print("%s %s: held on everything explored: states=%d transitions=%d "
          "traces=%d outcomes=%d wall=%.1fs%s" % (
              pid, tier, tot["states"], tot["transitions"], tot["traces"],
              len(outcomes), wall,
              " CAPPED: " + "; ".join(capped) if capped else ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
