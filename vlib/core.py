"""Engine shared by all checks: runs the parts of a property under Hypothesis, shrinks failures,
writes replay files and evidence.

A property module (vlib/props/<id>.py) exposes

    RULE  = "how cases are made, and what makes one non-trivial"
    PARTS = [Part(name, strategy, run, quick=N, thorough=M), ...]

`strategy` generates a JSON-able case.  `run(case)` builds everything from the case, drives the real code in
/repo, compares with the oracle, raises on a violation and otherwise returns a list of labels (strings); a case
is non-trivial iff "nt" is among them.  The same `run` is used for searching, shrinking and replaying.
"""
import contextlib
import hashlib
import io
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
FAST = bool(os.environ.get("VERIF_FAST"))       # tools only: stop everything at the first failure, no shrinking


class Violation(Exception):
    """The property does not hold for this case."""


class HarnessError(Exception):
    """The harness itself could not do its work (never a verdict on the code)."""


class Hang(BaseException):
    """A case exceeded the (very generous) CPU or wall limit."""


class Part:
    def __init__(self, name, strategy, run, quick, thorough=None, hang_cpu=120, hang_wall=240, shards=1):
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 10
        self.hang_cpu = hang_cpu
        self.hang_wall = hang_wall
        self.shards = shards


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg.format(*args) if args else msg)


def same(a, b):
    """Bitwise equal floats arrays (NaN == NaN) with equal shape."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    return bool(np.array_equal(a, b, equal_nan=True)) if a.dtype.kind in "fc" and b.dtype.kind in "fc" \
        else bool(np.array_equal(a, b))


def close(a, b, rtol=1e-9, atol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


# ---------------------------------------------------------------------------------------------- scratch areas

_scratch_root = None


def scratch_root():
    global _scratch_root
    if _scratch_root is None or _scratch_root[0] != os.getpid():
        _scratch_root = (os.getpid(), tempfile.mkdtemp(prefix="vmlmc_"))
    return _scratch_root[1]


_real_rmtree = shutil.rmtree


def _guarded_rmtree(path, *args, **kwargs):
    """The code under test may only delete inside the scratch area of its own check."""
    real = os.path.realpath(path)
    root = os.path.realpath(scratch_root())
    tmp = os.path.realpath(tempfile.gettempdir())
    if not (real.startswith(root + os.sep) or os.path.basename(real).startswith("pymp-") and os.path.dirname(real) == tmp):
        raise Violation("attempt to delete the directory {} outside of its work area".format(real))
    return _real_rmtree(path, *args, **kwargs)


@contextlib.contextmanager
def scratch():
    """A private directory; the working directory and PATH are restored whatever the code under test does."""
    d = tempfile.mkdtemp(dir=scratch_root())
    shutil.rmtree = _guarded_rmtree
    path = os.environ.get("PATH")
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(VERIF)
        if path is not None:
            os.environ["PATH"] = path
        shutil.rmtree = _real_rmtree
        _real_rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------------------------------------- running a case

HARNESS_ERRORS = (MemoryError, HarnessError, KeyboardInterrupt)


@contextlib.contextmanager
def quiet():
    out = io.StringIO()
    with contextlib.redirect_stdout(out), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with np.errstate(all="ignore"):
            yield out


def case_key(case):
    return json.dumps(case, sort_keys=True)


def _seed_everything(case):
    h = int.from_bytes(hashlib.sha256(case_key(case).encode()).digest()[:4], "little")
    np.random.seed(h)
    random.seed(h)


def run_case(part, case):
    """Run one case under the hang limits; returns labels, raises Violation/Hang/HarnessError."""
    _seed_everything(case)

    def on_hang(signum, frame):
        raise Hang("case did not finish (signal {})".format(signum))

    old_p = signal.signal(signal.SIGPROF, on_hang)
    old_a = signal.signal(signal.SIGALRM, on_hang)
    signal.setitimer(signal.ITIMER_PROF, part.hang_cpu)
    signal.setitimer(signal.ITIMER_REAL, part.hang_wall)
    try:
        with quiet():
            labels = part.run(case)
        return list(labels or [])
    except Violation:
        raise
    except HARNESS_ERRORS:
        raise
    except OSError as e:
        import errno
        if e.errno in (errno.ENOSPC, errno.ENOMEM, errno.EMFILE, errno.EAGAIN):
            raise HarnessError(repr(e))
        raise Violation("unexpected exception on a valid input:\n" + traceback.format_exc())
    except Exception:
        raise Violation("unexpected exception on a valid input:\n" + traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGPROF, old_p)
        signal.signal(signal.SIGALRM, old_a)
        try:
            os.getcwd()
        except OSError:
            os.chdir(VERIF)


def _jsonable(o):
    if isinstance(o, np.generic):
        return o.item()
    if isinstance(o, np.ndarray):
        return o.tolist()
    raise TypeError(type(o))


def search(part, seed, n_examples, budget_s):
    """Hypothesis search of one part. Returns a result dict (JSON-able)."""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    for name, val in (("MAX_SHRINKING_SECONDS", 60),):
        if hasattr(eng, name):
            setattr(eng, name, val)

    res = dict(part=part.name, evaluations=0, nontrivial=0, labels={}, samples=[], violation=None,
               error=None, budget_hit=False, wall=0.0)
    seen = set()
    best = {}
    t0 = time.time()

    class _Stop(BaseException):
        pass

    def body(case):
        if time.time() - t0 > budget_s and not best:
            res["budget_hit"] = True
            raise _Stop()
        res["evaluations"] += 1
        try:
            labels = run_case(part, case)
        except Violation as e:
            key = case_key(case)
            if not best or len(key) <= len(case_key(best["case"])):
                best["case"] = json.loads(key)
                best["msg"] = str(e)
            raise
        except Hang as e:
            best["case"] = json.loads(case_key(case))
            best["msg"] = "the operation never returned: " + str(e) + "\n" + traceback.format_exc()
            best["hang"] = True
            raise _Stop()
        if "nt" in labels:
            k = hashlib.sha1(case_key(case).encode()).digest()
            if k not in seen:
                seen.add(k)
                res["nontrivial"] += 1
                if len(res["samples"]) < 2:
                    js = case_key(case)
                    res["samples"].append(json.loads(js) if len(js) < 3000 else js[:3000] + "...")
        for l in labels:
            res["labels"][l] = res["labels"].get(l, 0) + 1

    test = settings(max_examples=n_examples, deadline=None, database=None, derandomize=False,
                    report_multiple_bugs=False, print_blob=False,
                    suppress_health_check=list(HealthCheck),
                    phases=(Phase.explicit, Phase.generate, Phase.target) + (() if FAST else (Phase.shrink,)))(
        given(part.strategy)(lambda case: body(case)))
    test = hypothesis.seed(seed)(test)
    try:
        with open(os.devnull, "w") as devnull, contextlib.redirect_stderr(devnull):
            test()
    except _Stop:
        pass
    except HARNESS_ERRORS as e:
        res["error"] = "harness: " + traceback.format_exc()
    except BaseException as e:          # Violation, Flaky..., or a Hypothesis error
        if not best:
            res["error"] = traceback.format_exc()
    if best:
        res["violation"] = best
    res["wall"] = time.time() - t0
    return res


def _worker(prop, part_name, seed, n, budget, path):
    code = 0
    try:
        os.setsid()
        mod = load(prop)
        part = [p for p in mod.PARTS if p.name == part_name][0]
        r = search(part, seed, n, budget)
    except BaseException:
        r = dict(part=part_name, evaluations=0, nontrivial=0, labels={}, samples=[], violation=None,
                 error=traceback.format_exc(), budget_hit=False, wall=0)
    with open(path + ".tmp", "w") as f:
        json.dump(r, f, default=_jsonable)
    os.replace(path + ".tmp", path)
    root = _scratch_root
    if root is not None and root[0] == os.getpid():
        shutil.rmtree(root[1], ignore_errors=True)
    # threads / pools the code under test may have left behind must not keep us alive
    os._exit(code)


def load(prop):
    import importlib
    return importlib.import_module("vlib.props." + prop.lower())


def run_check(prop, tier, seed):
    t0 = time.time()
    mod = load(prop)
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "240" if tier == "quick" else "3000"))
    only = os.environ.get("VERIF_PARTS")
    jobs = []
    outdir = tempfile.mkdtemp(prefix="vmlmc_out_")
    try:
        for part in mod.PARTS:
            if only and part.name not in only.split(","):
                continue
            total = part.quick if tier == "quick" else part.thorough
            shards = part.shards
            for sh in range(shards):
                s = int.from_bytes(hashlib.sha256("{}/{}/{}/{}".format(seed, prop, part.name, sh).encode()
                                                  ).digest()[:6], "little")
                n = max(1, int(total * scale / shards))
                jobs.append((part.name, s, n, os.path.join(outdir, "{}.{}.json".format(part.name, sh))))
        ctx = multiprocessing.get_context("fork")
        pending = list(jobs)
        running = []
        hard = budget + 420
        while pending or running:
            while pending and len(running) < int(os.environ.get("VERIF_JOBS", "8")):
                name, s, n, path = pending.pop(0)
                p = ctx.Process(target=_worker, args=(prop, name, s, n, budget, path))
                p.start()
                running.append((p, time.time(), path))
            still = []
            for p, started, path in running:
                if not p.is_alive():
                    p.join()
                elif time.time() - started > hard:
                    with contextlib.suppress(Exception):
                        os.killpg(p.pid, signal.SIGKILL)
                    p.kill()
                    p.join()
                else:
                    still.append((p, started, path))
                    continue
                with contextlib.suppress(Exception):     # stray grandchildren (worker pools)
                    os.killpg(p.pid, signal.SIGKILL)
            running = still
            if FAST and any(os.path.exists(j[3]) and '"violation": null' not in open(j[3]).read() for j in jobs):
                pending = []
                for p, _, _ in running:
                    with contextlib.suppress(Exception):
                        os.killpg(p.pid, signal.SIGKILL)
            time.sleep(0.02)
        results = []
        for name, s, n, path in jobs:
            if os.path.exists(path):
                with open(path) as f:
                    results.append(json.load(f))
            else:
                results.append(dict(part=name, evaluations=0, nontrivial=0, labels={}, samples=[], violation=None,
                                    error="worker died without a result", budget_hit=False, wall=0))
    finally:
        shutil.rmtree(outdir, ignore_errors=True)
    return mod, results, time.time() - t0


def report(prop, tier, seed, mod, results, wall):
    violations = [r for r in results if r["violation"]]
    errors = [r for r in results if r["error"]]
    parts = {}
    for r in results:
        p = parts.setdefault(r["part"], dict(evaluations=0, nontrivial=0, labels={}, wall_s=0.0, budget_hit=False))
        p["evaluations"] += r["evaluations"]
        p["nontrivial"] += r["nontrivial"]
        p["wall_s"] = round(p["wall_s"] + r["wall"], 2)
        p["budget_hit"] |= r["budget_hit"]
        for k, v in r["labels"].items():
            p["labels"][k] = p["labels"].get(k, 0) + v
    samples = []
    for r in results:
        for s in r["samples"][:1]:
            samples.append({"part": r["part"], "case": s})
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"),
              coverage=dict(evaluations=sum(r["evaluations"] for r in results),
                            distinct_nontrivial=sum(r["nontrivial"] for r in results),
                            rule=mod.RULE, samples=samples, parts=parts),
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
              wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, default=_jsonable)
    os.replace(path + ".tmp", path)

    code = 0
    for r in violations:
        v = r["violation"]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        h = hashlib.sha1(case_key(v["case"]).encode()).hexdigest()[:10]
        rp = os.path.join(VERIF, "replays", "{}-{}-{}.json".format(prop, r["part"], h))
        with open(rp, "w") as f:
            json.dump(dict(property=prop, part=r["part"], case=v["case"], message=v["msg"]), f, indent=1)
        print("part {}: {}".format(r["part"], v["msg"]))
        print("case: " + case_key(v["case"])[:2000])
        print("VIOLATION property={} replay={}".format(prop, rp))
        code = 1
    if code == 0 and errors:
        for r in errors:
            print("ERROR part {}: {}".format(r["part"], r["error"]))
        code = 2
    if code == 0:
        seen = {l for p in parts.values() for l in p["labels"]}
        for label, line in known_findings(prop):
            if label in seen:
                print(line)
        print("OK property={} evaluations={} nontrivial={} wall={:.1f}s".format(
            prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], wall))
    return code


def known_findings(prop):
    """'finding: property=<id> label=<label> ...' lines of the committed known-findings file. The part that shows the
    finding returns the label when exactly that history fails in exactly that way (anything else there is a violation);"""
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("finding: property={} ".format(prop)):
                label = line.split("label=")[1].split()[0]
                out.append((label, "KNOWN-FINDING: " + line[len("finding: "):].strip()))
    return out


def known_labels(prop):
    return {label for label, _ in known_findings(prop)}


def replay(path):
    with open(path) as f:
        d = json.load(f)
    mod = load(d["property"])
    part = [p for p in mod.PARTS if p.name == d["part"]][0]
    try:
        labels = run_case(part, d["case"])
    except (Violation, Hang) as e:
        print(str(e))
        print("VIOLATION property={} replay={}".format(d["property"], path))
        return 1
    finally:
        root = _scratch_root
        if root is not None:
            shutil.rmtree(root[1], ignore_errors=True)
    print("replay passes; labels: {}".format(labels))
    return 0
