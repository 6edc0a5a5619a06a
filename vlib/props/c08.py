"""A failing simulation only fails its own sample."""
import time
from vlib.common import *
from vlib.sims import close_pool, expected_pair
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool, SamplingPool

RULE = ("A case assigns an outcome (success, one of several exception types and messages, a result of wrong length, an "
        "unpicklable result, a missing common file of a level) to samples on 1-3 levels and runs them through a real pool, "
        "directly and through a sampler with a storage. Every sample must be reported once with the outcome assigned to it, "
        "failures naming the error. Non-trivial: at least one failing and one successful sample.")
ASSUMPTIONS = ["simulations raise subclasses of Exception; interpreter exit and worker processes killed from outside are not generated",
               "unpicklable results are generated for the process pool only (elsewhere nothing has to be pickled)"]


class OddError(Exception):
    def __init__(self, a, b):
        super().__init__(a, b)
        self.a, self.b = a, b

    def __reduce__(self):
        raise TypeError("cannot be pickled")


class BadStr(Exception):
    def __str__(self):
        raise RuntimeError("no text")


MESSAGES = ["boom", "", "first\nsecond", "\u010de\u0161tina \u2603 \U0001f600", "x" * 2000, "100% {braces} %s"]
KINDS = ["ok", "ok", "ok", "value", "zero", "key", "assert", "odd", "badstr", "nan_fail", "short", "long", "coarse_short", "fine_short", "uneven", "uneven2", "empty",
         "none", "attr", "stop"]


class KindSim(Simulation):
    """config: kinds by seed (dict seed -> [kind, message index])"""

    def __init__(self, kinds, missing_levels, tmp, m):
        self.kinds, self.missing, self.tmp, self.m = kinds, missing_levels, tmp, m
        self.n = 0

    def level_instance(self, f, c):
        level = self.n
        self.n += 1
        files = None
        ws = level in self.missing
        if ws:
            files = [os.path.join(self.tmp, "does_not_exist.dat")]
        return LevelSimulation(config_dict=dict(fine=f[0], coarse=c[0], kinds=self.kinds, m=self.m), common_files=files,
                               need_sample_workspace=ws)

    def result_format(self):
        return vector_format(self.m)

    @staticmethod
    def calculate(config, seed):
        kind, i = config["kinds"][int(seed)]
        m = config["m"]
        msg = MESSAGES[i % len(MESSAGES)]
        f, c = expected_pair(seed, config["fine"], config["coarse"], m)
        if kind == "value":
            raise ValueError(msg)
        if kind == "zero":
            return 1 / 0
        if kind == "key":
            return {}[msg]
        if kind == "assert":
            assert False, msg
        if kind == "odd":
            raise OddError(msg, lambda: 0)
        if kind == "badstr":
            raise BadStr()
        if kind == "attr":
            return None.something
        if kind == "stop":
            raise StopIteration(msg)
        if kind == "nan_fail":
            raise Exception("result is nan")
        if kind == "short":
            return f[:-1], c[:-1]
        if kind == "long":
            return np.append(f, 1.0), np.append(c, 1.0)
        if kind == "coarse_short":
            return f, c[:-1]
        if kind == "fine_short":
            return f[:-1], c
        if kind == "uneven":
            return np.append(f, 1.0), c[:-1]
        if kind == "uneven2":
            return f[:-1], np.append(c, 1.0)
        if kind == "empty":
            return np.array([]), np.array([])
        if kind == "none":
            return None
        if kind == "unpicklable":
            return np.array([lambda: 0] * m, dtype=object), np.array([lambda: 0] * m, dtype=object)
        return f, c


NAMED = dict(value="ValueError", zero="ZeroDivisionError", key="KeyError", odd="OddError", badstr="BadStr", nan_fail="result is nan",
             attr="AttributeError", stop="StopIteration", missing="does_not_exist.dat")
NAMED["assert"] = "AssertionError"


@st.composite
def cases(draw, pool):
    L = draw(st.integers(1, 3))
    kinds = KINDS + (["unpicklable", "unpicklable"] if pool == "process" else [])
    samples = [[[draw(st.sampled_from(kinds)), draw(st.integers(0, len(MESSAGES) - 1))] for _ in range(draw(st.integers(0, 6)))] for _ in range(L)]
    missing = draw(st.lists(st.integers(0, L - 1), max_size=1)) if pool != "thread" else []
    return dict(L=L, pool=pool, samples=samples, missing=missing, storage=draw(st.sampled_from(["mem", "hdf"])), m=draw(st.integers(1, 3)),
                again=draw(st.booleans()))


def run(case):
    L, m = case["L"], case["m"]
    with scratch() as d:
        work = os.path.join(d, "work")
        os.makedirs(work)
        kinds = {}
        for l in range(L):
            for i, (k, msg) in enumerate(case["samples"][l]):
                kinds[int(SamplingPool.compute_seed(sample_tag(l, i)))] = [k, msg]
        extra = 2
        for l in range(L):                 # samples scheduled after the failures
            for i in range(extra):
                kinds[int(SamplingPool.compute_seed(sample_tag(l, len(case["samples"][l]) + i)))] = ["ok", 0]
        sim = KindSim(kinds, case["missing"], d, m)
        pool = dict(one=lambda: OneProcessPool(work_dir=work), thread=lambda: ThreadPool(3, work_dir=work),
                    process=lambda: ProcessPool(2, work_dir=work))[case["pool"]]()
        try:
            storage = make_storage(case["storage"], d)
            messages = {}

            class Spy:
                """Sees what the pool hands to the sampler."""

                def __getattr__(self, name):
                    return getattr(pool, name)

                def get_finished(self):
                    r = pool.get_finished()
                    for l, lst in r[1].items():
                        for sid, msg in lst:
                            require(sid not in messages, "{} reported as failed twice", sid)
                            messages[sid] = (l, msg)
                    return r
            sampler = Sampler(sample_storage=storage, sampling_pool=Spy(), sim_factory=sim, level_parameters=[[2.0 ** -l] for l in range(L)])
            counts = [len(s) for s in case["samples"]]
            phases = [counts] + ([[c + extra for c in counts]] if case["again"] else [])
            for target in phases:
                sampler.set_level_target_n_samples(target)
                sampler.schedule_samples(timeout=1e-9)
                t0 = time.time()
                while True:
                    n = sampler.ask_sampling_pool_for_samples(timeout=1e-9)
                    if n == 0:
                        break
                    require(time.time() - t0 < 40, "{} samples never reported by the pool", n)
                    time.sleep(0.002)
                os.chdir(d)
            total = phases[-1]
            pairs = storage.sample_pairs()
            n_ok = n_bad = 0
            for l in range(L):
                exp = {}
                bad_ids = []
                for i in range(total[l]):
                    sid = sample_tag(l, i)
                    seed = int(SamplingPool.compute_seed(sid))
                    kind, mi = kinds[seed]
                    if l in case["missing"]:
                        kind = "missing"
                    if kind == "ok":
                        f, c = expected_pair(seed, 2.0 ** -l, 0 if l == 0 else 2.0 ** (1 - l), m)
                        exp[tuple(f) + (() if l == 0 else tuple(c))] = sid
                    else:
                        bad_ids.append(sid)
                        require(sid in messages, "failing sample {} ({}) was not reported as failed", sid, kind)
                        lev, msg = messages[sid]
                        require(lev == l, "failing sample {} reported on level {}", sid, lev)
                        require(isinstance(msg, str) and msg, "empty error message of {}", sid)
                        if kind in NAMED:
                            require(NAMED[kind] in msg, "message of {} ({}) does not name the error: {}", sid, kind, msg[-300:])
                        if kind in ("value", "assert"):
                            require(MESSAGES[mi % len(MESSAGES)] in msg, "message of {} lost its text: {}", sid, msg[-300:])
                got = set()
                arr = np.asarray(pairs[l])
                if arr.size:
                    for j in range(arr.shape[1]):
                        key = tuple(arr[:, j, 0]) + (() if l == 0 else tuple(arr[:, j, 1]))
                        require(key in exp, "level {}: stored a result no successful sample returned: {}", l, key)
                        require(key not in got, "level {}: result of {} stored twice", l, exp[key])
                        got.add(key)
                require(len(got) == len(exp), "level {}: {} successful samples stored, {} expected", l, len(got), len(exp))
                require(storage.n_finished()[l] == total[l], "level {}: finished {} of {}", l, storage.n_finished()[l], total[l])
                if case["storage"] == "hdf":
                    require(sorted(storage.failed_samples()[str(l)]) == sorted(bad_ids), "level {}: failed ids {} expected {}", l,
                            storage.failed_samples()[str(l)], bad_ids)
                n_ok += len(exp)
                n_bad += len(bad_ids)
            require(len(messages) == n_bad, "reported failures of samples that did not fail: {}", sorted(messages))
        finally:
            close_pool(pool)
    labels = [case["pool"]]
    if case["missing"]:
        labels.append("missing file")
    if any(k == "unpicklable" for k, _ in kinds.values()):
        labels.append("unpicklable")
    if n_ok and n_bad:
        labels.append("nt")
    return labels


PARTS = [
    Part("one_process", cases("one"), run, quick=150, thorough=3000, shards=2),
    Part("thread", cases("thread"), run, quick=60, thorough=1000, shards=2),
    Part("process", cases("process"), run, quick=90, thorough=1200, shards=3),
]
