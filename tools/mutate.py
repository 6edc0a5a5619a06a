#!/usr/bin/env python3
"""Mutation sampling: small syntactic changes of mlmc/, one at a time in a scratch copy, and which checks see them.
  mutate.py --file mlmc/sampler.py --n 30 --seed 1 [-j 4] [--out log]
Survivors are examined by hand: equivalent, dead code, out of any property, or a gap of the checks."""
import argparse
import ast
import concurrent.futures as cf
import json
import os
import random
import shutil
import subprocess
import tempfile

SRC = os.environ.get("TRIAL_SRC", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "sample_storage.py": "C01 C16 C03 C30 C18 C10 C05",
    "sample_storage_hdf.py": "C01 C02 C10 C05 C18 C30 C16",
    "tool/hdf5.py": "C01 C02 C10 C05 C18 C30 C16",
    "sampler.py": "C03 C04 C05 C30 C12 C10",
    "sampling_pool.py": "C03 C06 C07 C08 C09 C10 C30 C04",
    "sampling_pool_pbs.py": "C11 C12 C32 C10 C08 C07 C09",
    "tool/pbs_job.py": "C11 C12 C32 C10 C08 C07 C09",
    "level_simulation.py": "C07 C03 C08 C11", "sim/simulation.py": "C07 C03 C08", "sim/synth_simulation.py": "C07 C08 C09 C03",
    "estimator.py": "C16 C17 C19 C21 C23 C24 C31 C18 C30 C04",
    "moments.py": "C20 C17 C21 C22",
    "quantity/quantity.py": "C13 C14 C15 C17 C18 C19 C16",
    "quantity/quantity_estimate.py": "C16 C17 C19 C31 C15",
    "quantity/quantity_types.py": "C13 C14 C17 C15",
    "random/correlated_field.py": "C25 C26 C28", "tool/flow_mc.py": "C28", "tool/gmsh_io.py": "C27 C28",
    "tool/simple_distribution.py": "C21 C22 C29 C31", "tool/distribution.py": "C22 C29", "plot/plots.py": "C33",
}
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is",
        ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "*", ast.Pow: "*"}


def mutants(src):
    t = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()
    pos = lambda n, end=False: starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)
    seg = lambda n: raw[pos(n):pos(n, True)].decode()
    out = []

    def add(n, text, kind):
        out.append((pos(n), pos(n, True), text, kind, n.lineno))
    skip = set()
    for fn in ast.walk(t):
        if isinstance(fn, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            for s in fn.body:
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                    for k in ast.walk(s):
                        skip.add(id(k))
    for n in ast.walk(t):
        if isinstance(n, (ast.Assert, ast.Raise)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            for k in ast.walk(n):
                skip.add(id(k))
        if isinstance(n, ast.FunctionDef):
            for k in [a for a in ast.walk(n.args)] + [d for q in n.decorator_list for d in ast.walk(q)] + ([r for r in ast.walk(n.returns)] if n.returns else []):
                if not isinstance(k, ast.Constant):
                    skip.add(id(k))
    for n in ast.walk(t):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, "({} {} {})".format(seg(n.left), SWAP[type(n.ops[0])], seg(n.comparators[0])), "compare")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, "({} {} {})".format(seg(n.left), BIN[type(n.op)], seg(n.right)), "binop")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + seg(v) + ")" for v in n.values) + ")", "bool")
            add(n, "(" + seg(n.values[0]) + ")", "bool-first")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, "(" + seg(n.operand) + ")", "unary")
        elif isinstance(n, ast.Constant) and n.value is True:
            add(n, "False", "const")
        elif isinstance(n, ast.Constant) and n.value is False:
            add(n, "True", "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            add(n, str(n.value + 1), "const+1")
            if n.value > 1:
                add(n, str(n.value - 1), "const-1")
        elif isinstance(n, ast.Constant) and isinstance(n.value, float):
            add(n, repr(n.value * 1.5 + 0.1 * (n.value == 0)), "const*1.5")
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                add(n.lower, "", "slice") if n.upper is not None or True else None
            if n.upper is not None:
                add(n.upper, "", "slice")
        elif isinstance(n, (ast.If, ast.While)):
            if not isinstance(n, ast.While):
                add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        elif isinstance(n, ast.IfExp):
            add(n, "(" + seg(n.body) + ")", "ifexp")
            add(n, "(" + seg(n.orelse) + ")", "ifexp")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, "pass", "del-call")
        elif isinstance(n, ast.AugAssign):
            add(n, "pass", "del-aug")
            add(n, seg(n.target) + " = " + seg(n.value), "aug-to-assign")
        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            add(n, "pass", "del-assign")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "del-jump")
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.Call) and n.args and isinstance(n.func, (ast.Name, ast.Attribute)) and seg(n.func).split(".")[-1] in \
                ("array", "copy", "squeeze", "atleast_1d", "sorted", "abs", "sqrt", "log", "exp", "max", "min", "round", "ceil", "list", "set", "str", "int"):
            add(n, "(" + seg(n.args[0]) + ")", "unwrap")
    return raw, out


def run(args):
    f, i, (a, b, text, kind, line), raw, checks, scale = args
    d = tempfile.mkdtemp(prefix="mut_", dir="/tmp")
    try:
        subprocess.run("git -C {2} archive HEAD mlmc | tar x -C {0}; cp -a {1} {0}/verif_tmp".format(d, "/tmp/mutverif", SRC), shell=True, check=True)
        new = raw[:a] + text.encode() + raw[b:]
        open(os.path.join(d, f), "wb").write(new)
        try:
            compile(new, f, "exec")
        except SyntaxError:
            return None
        res = {}
        caught = None
        for c in checks:
            env = dict(os.environ, VERIF_REPO=d, VERIF_FAST="1", VERIF_JOBS="2", VERIF_SCALE=str(scale), VERIF_BUDGET="150", TMPDIR=d)
            try:
                p = subprocess.run(["./check.py", c], cwd=os.path.join(d, "verif_tmp"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600, start_new_session=True)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 124
            res[c] = rc
            if rc:
                caught = c
                break
        ctx = raw[:a].rfind(b"\n") + 1
        before = raw[ctx:raw.find(b"\n", b)].decode().strip()
        return dict(file=f, line=line, kind=kind, before=before[:160], old=raw[a:b].decode()[:90], new=text[:90], caught=caught, rc=res.get(caught))
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--file")
    ap.add_argument("--n", type=int, default=20)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("-j", type=int, default=4)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--lines", help="file with covered lines, JSON {file: [lines]}")
    ap.add_argument("--out", default="/tmp/mut.log")
    o = ap.parse_args()
    shutil.rmtree("/tmp/mutverif", ignore_errors=True)
    os.makedirs("/tmp/mutverif")
    subprocess.run("cd {}; cp -a check.py vlib vendor MANIFEST.json properties.jsonl known_findings.txt /tmp/mutverif/".format(VERIF), shell=True, check=True)
    cov = json.load(open(o.lines)) if o.lines else None
    jobs = []
    for f in ([o.file] if o.file else ["mlmc/" + k for k in CHECKS]):
        src = open(os.path.join(SRC, f), newline="").read()
        raw, ms = mutants(src)
        if cov is not None:
            ms = [m for m in ms if m[4] in set(cov.get(f, []))]
        random.Random(o.seed).shuffle(ms)
        n = o.n if o.file else max(4, round(o.n * len(ms) / 1000))
        jobs += [(f, i, m, raw, CHECKS[f[len("mlmc/"):]].split(), o.scale) for i, m in enumerate(ms[:n])]
        print(f, len(ms), "mutants,", min(n, len(ms)), "taken", flush=True)
    random.Random(o.seed).shuffle(jobs)
    with cf.ThreadPoolExecutor(o.j) as ex, open(o.out, "a") as out:
        for r in ex.map(run, jobs):
            if r:
                out.write(json.dumps(r) + "\n")
                out.flush()


main()
