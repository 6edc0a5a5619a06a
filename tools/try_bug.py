#!/usr/bin/env python3
"""Plant bugs: builds seeded/<id>/ from the specs in tools/bugs/*.py, confirms each in a scratch copy of /repo and
reports which checks see it.
  try_bug.py [--no-tests] [--checks C01,C05] [-j N] id...|--all|--prop C01"""
import argparse
import concurrent.futures as cf
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = """#!/bin/bash
# cwd is the repository; exit 0 when the behaviour is right
HERE=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -B "$HERE/demo.py"
"""


def specs():
    out = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "tools/bugs/*.py"))):
        m = runpy.run_path(f)
        for b in m["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out


def sh(cmd, cwd, timeout=900, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                           start_new_session=True)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, "timeout " + (e.stdout or b"").decode(errors="replace")


def build(b, work):
    d = os.path.join(VERIF, "seeded", b["id"])
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "demo.py"), "w").write(b["demo"].lstrip("\n"))
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
              open(os.path.join(d, "meta.json"), "w"), indent=1)
    for f, old, new in b["edits"]:
        p = os.path.join(work, f)
        s = open(p, newline="").read()
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w", newline="").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=work, stdout=subprocess.PIPE, check=True).stdout
    assert diff
    open(os.path.join(d, "patch.diff"), "wb").write(diff)
    # removed lines must be lines of the original repository
    subprocess.run(["git", "checkout", "-q", "--", "."], cwd=work, check=True)
    return d


SLOW = ("test_correlated_field", "test_distribution", "test_moments")


def run_tests(b, work, env):
    """The stable tests in the copy (the slow numeric ones only when the bug touches what they import)."""
    stable = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    touched = " ".join(f for f, _, _ in b["edits"])
    if not any(k in touched for k in ("moments", "correlated_field", "distribution", "plot/")):
        stable = [t for t in stable if not t.startswith(SLOW)]
    ids = []
    for t in stable:
        mod, name = t.split("::")
        cls = ""
        if "." in mod:
            mod, cls = mod.split(".")
            cls += "::"
        ids.append("test/%s.py::%s%s" % (mod, cls, name))
    e = dict(env, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="agg", OMP_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", OPENBLAS_CORETYPE="Haswell")
    rc, out = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=700", "-p", "no:xdist", "-rA",
                  "--randomly-seed=1234", "--randomly-dont-reorganize", "-m", "not pbs and not metacentrum"] + ids, work,
                 1800, e)
    passed = {l.split(" ", 1)[1].strip() for l in out.splitlines() if l.startswith("PASSED ")}
    return sorted(set(ids) - passed)


def attempt(b, tests, checks):
    work = "/tmp/seed_" + b["id"]
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", work], check=True)
    res = {}
    try:
        d = build(b, work)
        env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "VERIF_REPO")}
        rc, out = sh([os.path.join(d, "demo.sh")], work, 300, env)
        res["demo_clean"] = rc
        if rc:
            res["demo_clean_out"] = out[-1500:]
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=work, check=True)
        rc, out = sh([os.path.join(d, "demo.sh")], work, 300, env)
        res["demo_bug"] = rc
        if not rc:
            return res
        res["demo_msg"] = out.strip().splitlines()[-1][:200] if out.strip() else ""
        if tests:
            res["tests_missing"] = run_tests(b, work, env)
        for c in checks or [b["prop"]]:
            rc, out = sh([os.path.join(VERIF, "check.py"), c], VERIF, 900,
                         dict(env, VERIF_REPO=work, VERIF_SEED="1", VERIF_TIER="quick",
                              VERIF_EVIDENCE="/tmp/ev_" + b["id"]))
            lines = [l for l in out.splitlines() if l.startswith(("VIOLATION", "OK"))]
            res["check_" + c] = (rc, lines[:2])
    finally:
        for p in (work, work + ".rep"):
            shutil.rmtree(p, ignore_errors=True)
        for p in (work + ".sh", work + ".json"):
            if os.path.exists(p):
                os.remove(p)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("ids", nargs="*")
    ap.add_argument("--all", action="store_true")
    ap.add_argument("--prop")
    ap.add_argument("--no-tests", action="store_true")
    ap.add_argument("--checks")
    ap.add_argument("-j", type=int, default=3)
    a = ap.parse_args()
    sp = specs()
    ids = [i for i in sp if a.all or i in a.ids or (a.prop and sp[i]["prop"] == a.prop)]
    assert not set(a.ids) - set(sp), set(a.ids) - set(sp)
    with cf.ThreadPoolExecutor(a.j) as ex:
        futs = {ex.submit(attempt, sp[i], not a.no_tests, a.checks and a.checks.split(",")): i for i in ids}
        for f in cf.as_completed(futs):
            try:
                r = f.result()
            except Exception as e:
                r = dict(error=repr(e))
            print(json.dumps({"id": futs[f], **r}), flush=True)


main()
