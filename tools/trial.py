#!/usr/bin/env python3
"""Quick trial of edits: which checks see them (no demonstration, no test run).
  trial.py FILE [-j N] [--only name,...]   FILE: python with T = [(name, "C01,C05", [(file, old, new), ...]), ...]"""
import argparse
import concurrent.futures as cf
import os
import runpy
import shutil
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(t):
    name, checks, edits = t
    work = "/tmp/trial_" + name
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", os.environ.get("TRIAL_SRC", "/repo"), work], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(work, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            if s.count(old) != 1:
                return "%-32s BAD EDIT %d %r" % (name, s.count(old), old[:60])
            open(p, "w", newline="").write(s.replace(old, new))
        out = []
        for c in checks.split(","):
            env = dict(os.environ, VERIF_REPO=work, VERIF_SEED="1", VERIF_TIER="quick", VERIF_FAST="1",
                       VERIF_EVIDENCE="/tmp/ev_trial_" + name)
            p = subprocess.run([os.path.join(VERIF, "check.py"), c], cwd=VERIF, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=900)
            out.append("%s=%d" % (c, p.returncode))
        return "%-32s %s %s" % (name, "caught" if any(o.endswith("=1") for o in out) else "MISSED", " ".join(out))
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree("/tmp/ev_trial_" + name, ignore_errors=True)


ap = argparse.ArgumentParser()
ap.add_argument("file")
ap.add_argument("-j", type=int, default=4)
ap.add_argument("--only")
a = ap.parse_args()
ts = [t for t in runpy.run_path(a.file)["T"] if not a.only or t[0] in a.only.split(",")]
with cf.ThreadPoolExecutor(a.j) as ex:
    for r in ex.map(one, ts):
        print(r, flush=True)
