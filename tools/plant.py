#!/usr/bin/python3
"""Confirms planted changes and writes /verif/seeded/<id>/.

  plant.py SPEC.py [ids...]    SPEC.py defines BUGS: a list of dictionaries
      id, property, edits=[(file, old, new)], demo, needs, breaks
  plant.py --check [ids...]    runs the check of each planted change's property
      (and with --all every other check) on a scratch copy with the change
"""
import argparse, json, os, shutil, subprocess, sys, tempfile
PY = "/opt/venv/bin/python"
SEEDED = "/verif/seeded"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO = '#!/bin/bash\nPYTHONPATH="$PWD" exec %s -B -W ignore "$(dirname "$0")/demo.py"\n' % PY


def copy_repo():
    d = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    return d, d + "/repo"


def stable_ok(repo):
    xml, out = repo + "/../j.xml", repo + "/../o.json"
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               TZ="UTC", PYTHONPATH=repo)
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--timeout=300", "--continue-on-collection-errors", "-o",
                    "junit_family=xunit2", "--junitxml=" + xml], cwd=repo,
                   env=env, stdout=subprocess.DEVNULL,
                   stderr=subprocess.DEVNULL, timeout=120)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", out,
                    "junit:" + xml], stdout=subprocess.DEVNULL)
    o = json.load(open(out))
    passed = set(o.get("passed") or [k for k, v in o.items() if v == "passed"])
    return sorted(STABLE - passed)


def demo(repo, d):
    try:
        return subprocess.run(["bash", d + "/demo.sh"], cwd=repo, timeout=300,
                              stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    except subprocess.TimeoutExpired:
        return None


def plant(spec, only):
    ns = {}
    exec(open(spec).read(), ns)
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        tmp, repo = copy_repo()
        try:
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%s: %d occurrences" % (f, s.count(old))
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "EDIT", bad)
                continue
            patch = subprocess.check_output(["git", "-C", repo, "diff"])
            d = tmp + "/demo"
            os.makedirs(d)
            open(d + "/demo.py", "w").write(b["demo"])
            open(d + "/demo.sh", "w").write(DEMO)
            ok = demo("/repo", d)
            if ok.returncode != 0:
                print(b["id"], "DEMO FAILS UNCHANGED",
                      ok.stdout.decode()[-600:])
                continue
            ko = demo(repo, d)
            if ko is not None and ko.returncode == 0:
                print(b["id"], "DEMO PASSES WITH CHANGE")
                continue
            base = subprocess.check_output(
                ["git", "-C", repo, "grep", "-h", "", "d0216b0", "--",
                 "normalize"]).decode().split("\n")
            if not any(x[1:].strip() and x[1:] in base for x in
                       patch.decode().split("\n") if
                       x.startswith("-") and not x.startswith("---")):
                print(b["id"], "CHANGES NO LINE OF THE ORIGINAL")
                continue
            miss = stable_ok(repo)
            if miss:
                print(b["id"], "TESTS FAIL", miss[:3])
                continue
            out = os.path.join(SEEDED, b["id"])
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            open(out + "/patch.diff", "wb").write(patch)
            shutil.copy(d + "/demo.py", out)
            shutil.copy(d + "/demo.sh", out)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"],
                           what_it_breaks=b["breaks"]),
                      open(out + "/meta.json", "w"), indent=1)
            tail = ko.stdout.decode().strip().split("\n")[-1] if ko else "timeout"
            print(b["id"], "ok:", tail[:160])
        finally:
            shutil.rmtree(tmp)


CAUGHT = os.path.join(os.path.dirname(os.path.abspath(__file__)),
                      "design", "caught.json")


def record(bid, pid, caught):
    """for the table in DESIGN.md"""
    d = json.load(open(CAUGHT)) if os.path.exists(CAUGHT) else {}
    if caught:
        d[bid] = " ".join(sorted(set(
            [p for p in d.get(bid, "").split() if p != "none"] + [pid])))
    else:
        d.setdefault(bid, "none")
    json.dump({k: v for k, v in sorted(d.items())}, open(CAUGHT, "w"),
              indent=0, sort_keys=True)


def check(only, all_):
    for bid in sorted(os.listdir(SEEDED)):
        if only and bid not in only:
            continue
        d = os.path.join(SEEDED, bid)
        meta = json.load(open(d + "/meta.json"))
        tmp, repo = copy_repo()
        try:
            r = subprocess.run(["git", "-C", repo, "apply", d + "/patch.diff"])
            if r.returncode:
                print(bid, "DOES NOT APPLY")
                continue
            pids = [meta["property"]]
            if all_:
                pids = all_
            for pid in pids:
                out = subprocess.run(
                    ["./check.py", pid], cwd="/verif", timeout=900,
                    env=dict(os.environ, VERIF_REPO=repo, MC_FIRST="1",
                             MC_NOEVIDENCE="1"),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
                t = out.stdout.decode("utf-8", "replace")
                if out.returncode in (0, 1):
                    record(bid, pid, "VIOLATION property=%s" % pid in t)
                if pid == meta["property"] or out.returncode:
                    lines = [l for l in t.split("\n") if l.strip()]
                    print("%-28s %s exit=%d %s" % (
                        bid, pid, out.returncode,
                        " | ".join(lines[1:3])[:260] if out.returncode
                        else "MISSED"), flush=True)
        finally:
            shutil.rmtree(tmp)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("args", nargs="*")
    ap.add_argument("--check", action="store_true")
    ap.add_argument("--all", nargs="*")
    a = ap.parse_args()
    if a.check:
        check(a.args, a.all)
    else:
        plant(a.args[0], a.args[1:])
