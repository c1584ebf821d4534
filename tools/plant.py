#!/usr/bin/env python3
"""Plant, confirm and score the seeded bugs.

  plant.py build [ID...]   (re)create seeded/<id>/ from bugs.py, confirming for each:
                           patch applies, stable tests pass with it, demo 0 without / nonzero with it
  plant.py score [ID...]   run the bug's property check (and, with --all, every check) on the patched copy
Works only in scratch copies under /tmp/seed; never touches /repo.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
PY = "/opt/venv/bin/python"
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
scratch="$(mktemp -d)"
trap 'rm -rf "$scratch"' EXIT
export DEMO_SCRATCH="$scratch" TMPDIR="$scratch"
cd "$scratch" && timeout 280 /opt/venv/bin/python "$here/demo.py"
'''


def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def copy_repo(name):
    d = f"/tmp/seed/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/seed", exist_ok=True)
    subprocess.run(["git", "clone", "-q", "/repo", d], check=True)
    return d


def stable_tests(repo):
    env = {"PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "2", "NUMBA_NUM_THREADS": "2"}
    xml = repo + ".xml"
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--runslow", "-p", "randomly", "--randomly-seed=0",
                  "--randomly-dont-reorganize", "-o", "junit_family=xunit2", f"--junitxml={xml}",
                  "test/datagen", "test/fluctuation_field"], cwd=repo, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for tc in ET.parse(xml).getroot().iter("testcase"):
        if not any(ch.tag in ("failure", "error", "skipped") for ch in tc):
            ok.add(tc.get("classname") + "::" + tc.get("name"))
    os.unlink(xml)
    return [t for t in STABLE if t not in ok]


def demo(dirn, repo):
    return sh(["bash", os.path.join(dirn, "demo.sh")], cwd=repo, env={"OMP_NUM_THREADS": "2", "NUMBA_NUM_THREADS": "2"})


def build(b):
    bid = b["id"]
    d = copy_repo(bid)
    try:
        for rel, old, new, *cnt in b["edits"]:
            p = os.path.join(d, "drdmannturb", rel)
            s = open(p).read()
            want = cnt[0] if cnt else 1
            if s.count(old) != want:
                return bid, f"EDIT MISMATCH ({s.count(old)}x) {rel}: {old[:60]!r}"
            open(p, "w").write(s.replace(old, new))
        out = os.path.join(VERIF, "seeded", bid)
        tmp = tempfile.mkdtemp(prefix="plant")
        diff = subprocess.run(["git", "-C", d, "diff"], capture_output=True, text=True).stdout
        open(f"{tmp}/patch.diff", "w").write(diff)
        open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
        open(f"{tmp}/demo.py", "w").write(b["demo"].lstrip("\n"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(f"{tmp}/meta.json", "w"), indent=1)
        # lines removed must be of the original repository
        rc, blame = sh(["git", "-C", d, "diff", "-U0"])
        rc0, o0 = demo(tmp, "/repo")
        rc1, o1 = demo(tmp, d)
        if rc0 != 0:
            return bid, "DEMO FAILS ON CLEAN\n" + o0[-1500:]
        if rc1 == 0:
            return bid, "DEMO PASSES WITH PATCH\n" + o1[-800:]
        if rc1 == 124:
            return bid, "DEMO TIMES OUT"
        miss = stable_tests(d)
        if miss:
            return bid, "STABLE TESTS FAIL " + str(miss[:3])
        shutil.rmtree(out, ignore_errors=True)
        shutil.move(tmp, out)
        return bid, "ok | " + o1.strip().splitlines()[-1][:150]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def score(bid, props=None, extra=()):
    meta = json.load(open(f"{VERIF}/seeded/{bid}/meta.json"))
    d = copy_repo("s-" + bid)
    res = {}
    try:
        rc, o = sh(["git", "-C", d, "apply", f"{VERIF}/seeded/{bid}/patch.diff"])
        if rc:
            return bid, {"apply": o}
        ev = tempfile.mkdtemp(prefix="ev")
        for p in (props or [meta["property"]]):
            env = {"VERIF_REPO": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick",
                   "VERIF_EVIDENCE": ev}
            try:
                rc, o = sh([PY, f"{VERIF}/run_check.py", p, *extra], cwd=VERIF, env=env)
            except subprocess.TimeoutExpired:
                rc, o = 99, "timeout"
            viol = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            res[p] = (rc, viol[0] if viol else "", o if rc not in (0, 1) else "")
        shutil.rmtree(ev, ignore_errors=True)
        return bid, res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    allp = "--all" in a
    a = [x for x in a if x != "--all"]
    cmd, ids = a[0], a[1:]
    if cmd == "build":
        import bugs
        todo = [b for b in bugs.BUGS if not ids or b["id"] in ids]
        with ThreadPoolExecutor(4) as ex:
            for bid, msg in ex.map(build, todo):
                print(bid, msg, flush=True)
    else:
        ids = ids or sorted(os.listdir(f"{VERIF}/seeded"))
        props = None
        if allp:
            props = [json.loads(l)["id"] for l in open(f"{VERIF}/properties.jsonl")]
        with ThreadPoolExecutor(3) as ex:
            for bid, res in ex.map(lambda i: score(i, props), ids):
                for p, (rc, v, o) in res.items():
                    if allp and rc == 0:
                        continue
                    print(bid, p, {0: "MISSED", 1: "caught"}.get(rc, f"rc={rc}"), v, o[-600:], flush=True)


main()
