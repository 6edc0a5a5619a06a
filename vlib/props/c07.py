"""Determinism, seeds, level chain, coupling of the synthetic simulation."""
import subprocess
import sys
import time
import scipy.stats as stats
from vlib.common import *
from vlib.sims import close_pool, PureSim, ManualPool, expected_pair, outcome
from vlib.props import c11
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool, SamplingPool
from mlmc.sim.synth_simulation import SynthSimulation, SynthSimulationWorkspace

RULE = ("pools: the same ids run in two different pools (one-process, thread, process) in different generated orders and "
        "batches, results compared id by id with the pure function of seed and level parameters; levels: a sampler is built "
        "over generated level parameter lists and the parameters received by every level are compared with the chain; "
        "synth: the synthetic simulations are called for generated steps, seeds and distributions in generated order and "
        "compared with the formula on an independently drawn variate; thread_synth: the same through a thread pool, the threads sharing one distribution; seeds: ids to seeds, in this process and in one with "
        "another hash seed; pbs: job histories as in C11, results compared with the pure function of the id. Non-trivial: more than one level (levels), more than two samples (others).")
ASSUMPTIONS = ["simulations are pure functions of configuration and seed, as the property demands of them"]

# ------------------------------------------------------------------------------------------------ pools


def sample_ids(levels_counts):
    return [(l, sample_tag(l, i)) for l, n in enumerate(levels_counts) for i in range(n)]


@st.composite
def pool_cases(draw, kinds):
    L = draw(st.integers(1, 3))
    counts = draw(st.lists(st.integers(0, 5), min_size=L, max_size=L))
    n = sum(counts)
    return dict(L=L, counts=counts, m=draw(st.integers(1, 3)),
                steps=draw(st.lists(st.sampled_from([1.0, 0.5, 0.3, 0.1, 0.01]), min_size=L, max_size=L)),
                orders=[draw(st.permutations(range(n))) for _ in kinds], batch=draw(st.integers(1, 6)), pools=list(kinds),
                rng=draw(st.integers(0, 1000)))


def level_sims(sim, steps):
    out = []
    for l, s in enumerate(steps):
        ls = sim.level_instance([s], [0] if l == 0 else [steps[l - 1]])
        ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, l
        out.append(ls)
    return out


def drain(pool, n, limit=60):
    import time
    got = {}
    t0 = time.time()
    while True:
        ok, bad, running, _ = pool.get_finished()
        for l, lst in ok.items():
            for sid, r in lst:
                require(sid not in got, "{} handed out twice", sid)
                got[sid] = (l, r)
        for l, lst in bad.items():
            for sid, e in lst:
                raise Violation("sample {} failed: {}".format(sid, e))
        if len(got) == n:
            return got
        require(time.time() - t0 < limit, "pool never handed out {} of {} samples", n - len(got), n)
        time.sleep(0.001)


def run_pools(case):
    ids = sample_ids(case["counts"])
    for kind, order in zip(case["pools"], case["orders"]):
        np.random.seed(case["rng"])
        pool = dict(one=lambda: OneProcessPool(), thread=lambda: ThreadPool(4), process=lambda: ProcessPool(2))[kind]()
        try:
            sims = level_sims(PureSim(case["m"]), case["steps"])
            got, batch = {}, []
            seq = [ids[k] for k in order]
            for a in range(0, len(seq), case["batch"]):
                part = seq[a:a + case["batch"]]
                for l, sid in part:
                    pool.schedule_sample(sid, sims[l])
                np.random.random(3)
                got.update(drain(pool, len(part)))
        finally:
            close_pool(pool)
        for l, sid in ids:
            f, c = expected_pair(SamplingPool.compute_seed(sid), case["steps"][l], 0 if l == 0 else case["steps"][l - 1], case["m"])
            lev, (gf, gc) = got[sid]
            require(lev == l, "{} reported on level {}", sid, lev)
            require(same(gf, f) and same(gc, c), "{} pool: sample {} gives {}, its id and level give {}", kind, sid, (gf, gc), (f, c))
    return (["nt"] if len(ids) > 2 else [])


# ------------------------------------------------------------------------------------------------ levels

@st.composite
def level_cases(draw):
    L = draw(st.integers(1, 6))
    k = draw(st.integers(1, 3))
    return dict(params=draw(st.lists(st.lists(st.integers(1, 50).map(lambda i: i / 50.0), min_size=k, max_size=k), min_size=L, max_size=L)),
                n=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10 ** 6)), storage=draw(st.sampled_from(["mem", "mem", "hdf"])))


def run_levels(case):
    params = case["params"]
    L = len(params)
    with scratch() as d:
        sim = PureSim(2)
        storage = make_storage(case["storage"], d)
        pool = ManualPool()
        sampler = Sampler(sample_storage=storage, sampling_pool=pool, sim_factory=sim, level_parameters=[list(p) for p in params],
                          seed=case["seed"])
        require(sampler.n_levels == L, "n_levels {}", sampler.n_levels)
        exp = [(list(params[l]), [0] if l == 0 else list(params[l - 1])) for l in range(L)]
        got = [([float(x) for x in f], [float(x) for x in c]) for f, c in sim.instances]
        require(len(got) == L, "{} level simulations created for {} levels", len(got), L)
        for l in range(L):
            require(got[l] == (exp[l][0], [float(x) for x in exp[l][1]]), "level {} got (fine, coarse) parameters {}, expected {}", l, got[l], exp[l])
        sampler.set_level_target_n_samples([case["n"]] * L)
        sampler.schedule_samples()
        sampler.ask_sampling_pool_for_samples()
        pairs = storage.sample_pairs()
        sched = storage.load_scheduled_samples()
        for l in range(L):
            for j, sid in enumerate(sched[l]):
                f, c = expected_pair(SamplingPool.compute_seed(str(sid)), params[l][0], 0 if l == 0 else params[l - 1][0], 2)
                require(same(pairs[l][:, j, 0], f), "level {} sample {}: wrong fine result", l, sid)
                if l:
                    require(same(pairs[l][:, j, 1], c), "level {} sample {}: wrong coarse result", l, sid)
    return ["nt"] if L > 1 else []


# ------------------------------------------------------------------------------------------------ synthetic simulation

DISTRS = dict(norm=lambda a: stats.norm(loc=a, scale=1 + a), lognorm=lambda a: stats.lognorm(s=0.5 + a), uniform=lambda a: stats.uniform(a, 2),
              expon=lambda a: stats.expon(scale=1 + a))

synth_cases = st.fixed_dictionaries(dict(
    steps=st.lists(st.integers(1, 200).map(lambda i: i / 200.0), min_size=2, max_size=5, unique=True).map(lambda l: sorted(l, reverse=True)),
    calls=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 2 ** 32 - 1)).map(list), min_size=2, max_size=8),
    distr=st.sampled_from(sorted(DISTRS)), a=st.integers(0, 4).map(lambda i: i / 2.0), rng=st.integers(0, 1000)))


def synth_expected(x, step, coarse_step, shape_n, n_quant, n_times, n_locs):
    def vec(h, zero):
        r = np.zeros(shape_n) if zero else x + h * np.sqrt(1e-4 + np.abs(x))
        locs = [r + (i if coarse_step != 0 else 0) for i in range(n_locs)]
        return np.array([[locs for _ in range(n_times)] for _ in range(n_quant)], dtype=float).ravel()
    return vec(step, False), vec(coarse_step, coarse_step == 0)


def run_synth(case):
    sim = SynthSimulation(dict(distr=DISTRS[case["distr"]](case["a"]), complexity=2))
    steps = case["steps"]
    ref = DISTRS[case["distr"]](case["a"])
    sims = level_sims(sim, steps)
    np.random.seed(case["rng"])
    fmt = sim.result_format()
    n = int(np.prod(fmt[0].shape))
    results = {}
    for rep in range(2):
        for lev, seed in (case["calls"] if rep == 0 else case["calls"][::-1]):
            l = lev % len(steps)
            f, c = sims[l]._calculate(sims[l].config_dict, seed)
            x = ref.rvs(size=n, random_state=np.random.RandomState(seed))
            ef, ec = synth_expected(x, steps[l], 0 if l == 0 else steps[l - 1], n, len(fmt), len(fmt[0].times), len(fmt[0].locations))
            require(close(f, ef) and close(c, ec), "level {} seed {}: got {} expected {}", l, seed, (f.tolist(), c.tolist()), (ef.tolist(), ec.tolist()))
            if (l, seed) in results:
                require(same(results[(l, seed)][0], f) and same(results[(l, seed)][1], c), "rerun of seed {} on level {} differs", seed, l)
            results[(l, seed)] = (f, c)
            # coupling with the next level: its coarse run is this level's fine run
            if l >= 1 and l + 1 < len(steps):
                f2, c2 = sims[l + 1]._calculate(sims[l + 1].config_dict, seed)
                require(same(c2, f), "coarse result of level {} differs from the fine one of level {} for seed {}", l + 1, l, seed)
    return ["nt"] if len(case["calls"]) > 2 else []


class Yielding:
    """A distribution that lets other threads run whenever its generator is replaced or drawn from."""
    def __init__(self, d):
        self._d = d

    def _set(self, rs):
        self._d.random_state = rs
        time.sleep(0.002)

    random_state = property(lambda self: self._d.random_state, _set)

    def rvs(self, size=1, random_state=None):
        time.sleep(0.001)
        return self._d.rvs(size=size, random_state=random_state)


thread_cases = st.fixed_dictionaries(dict(
    steps=st.lists(st.integers(1, 200).map(lambda i: i / 200.0), min_size=1, max_size=3, unique=True).map(lambda l: sorted(l, reverse=True)),
    counts=st.lists(st.integers(1, 6), min_size=3, max_size=3), distr=st.sampled_from(sorted(DISTRS)), a=st.integers(0, 4).map(lambda i: i / 2.0), slow=st.booleans(),
    threads=st.integers(2, 4)))


def run_thread_synth(case):
    ref = DISTRS[case["distr"]](case["a"])
    d = DISTRS[case["distr"]](case["a"])
    sim = SynthSimulation(dict(distr=Yielding(d) if case["slow"] else d, complexity=2))
    steps = case["steps"]
    sims = level_sims(sim, steps)
    fmt = sim.result_format()
    n = int(np.prod(fmt[0].shape))
    ids = sample_ids(case["counts"][:len(steps)])
    pool = ThreadPool(case["threads"])
    try:
        for l, sid in ids:
            pool.schedule_sample(sid, sims[l])
        got = drain(pool, len(ids))
    finally:
        close_pool(pool)
    for sid, (l, (f, c)) in got.items():
        x = ref.rvs(size=n, random_state=np.random.RandomState(SamplingPool.compute_seed(sid)))
        ef, ec = synth_expected(x, steps[l], 0 if l == 0 else steps[l - 1], n, len(fmt), len(fmt[0].times), len(fmt[0].locations))
        require(close(f, ef) and close(c, ec), "thread pool: sample {} differs from its formula", sid)
    return ["nt"] if len(ids) > 2 else []


ws_cases = st.fixed_dictionaries(dict(
    steps=st.lists(st.integers(1, 200).map(lambda i: i / 200.0), min_size=2, max_size=3, unique=True).map(lambda l: sorted(l, reverse=True)),
    samples=st.lists(st.tuples(st.integers(0, 2), st.integers(0, 40)).map(list), min_size=1, max_size=4, unique_by=tuple)))


def run_ws(case):
    steps = case["steps"]
    with scratch() as d:
        os.makedirs(os.path.join(d, "cfg"))
        cfg = os.path.join(d, "cfg", "synth_sim_config.yaml")
        with open(cfg, "w") as f:
            f.write("distr: norm\nnan_fraction: 0\n")
        sim = SynthSimulationWorkspace(dict(config_yaml=cfg))
        sims = level_sims(sim, steps)
        pool = OneProcessPool(work_dir=d)
        fmt = sim.result_format()
        n = int(np.prod(fmt[0].shape))
        for l, i in case["samples"]:
            l %= len(steps)
            pool.schedule_sample(sample_tag(l, i), sims[l])
        os.chdir(d)
        got = drain(pool, len({(l % len(steps), i) for l, i in case["samples"]})) if \
            len({(l % len(steps), i) for l, i in case["samples"]}) == len(case["samples"]) else {}
        for sid, (l, (f, c)) in got.items():
            seed = SamplingPool.compute_seed(sid)
            x = stats.norm(loc=1, scale=2).rvs(size=n, random_state=np.random.RandomState(seed))
            ef, ec = synth_expected(x, steps[l], 0 if l == 0 else steps[l - 1], n, len(fmt), len(fmt[0].times), len(fmt[0].locations))
            require(close(f, ef) and close(c, ec), "workspace simulation: sample {} differs from its formula", sid)
    return ["nt"] if len(got) > 2 else []


# ------------------------------------------------------------------------------------------------ seeds

CHILD = """
import sys, json
sys.path.insert(0, sys.argv[1])
from mlmc.sampling_pool import SamplingPool
ids = json.loads(sys.stdin.read())
print("SEEDS" + json.dumps([int(SamplingPool.compute_seed(i)) for i in ids]))
"""


def run_seeds(case):
    ids = ["L{:02d}_S{:07d}".format(l, i) for l in range(case["L"]) for i in range(case["start"], case["start"] + case["n"])] + case["other"]
    ids = list(dict.fromkeys(ids))
    np.random.seed(1)
    a = [int(SamplingPool.compute_seed(i)) for i in ids]
    np.random.seed(2)
    b = [int(SamplingPool.compute_seed(i)) for i in reversed(ids)][::-1]
    require(a == b, "seed of an id is not fixed")
    require(all(0 <= s < 2 ** 32 for s in a), "seed outside the range of the generator")
    require(len(set(a)) >= len(ids) - 2, "{} ids share seeds", len(ids) - len(set(a)))
    if case["child"]:
        env = dict(os.environ, PYTHONHASHSEED=str(case["child"]))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", CHILD, REPO], input=json.dumps(ids), capture_output=True, text=True, env=env, timeout=100)
        if p.returncode != 0:
            raise HarnessError("child failed: " + p.stderr[-2000:])
        c = json.loads([l for l in p.stdout.splitlines() if l.startswith("SEEDS")][0][5:])
        require(a == c, "seed of an id differs in another process")
    return ["nt"] if len(ids) > 2 else []


def run_many_seeds(case):
    """A long run: 32 bits give 0.4 shared seeds for 60000 ids on average."""
    ids = [sample_tag(l, case["start"] + i) for l in range(6) for i in range(10000)]
    seeds = {int(SamplingPool.compute_seed(i)) for i in ids}
    require(len(seeds) >= len(ids) - 10, "{} of {} ids share seeds", len(ids) - len(seeds), len(ids))
    return ["nt"]


seed_cases = st.fixed_dictionaries(dict(L=st.integers(1, 6), start=st.integers(0, 9000000), n=st.integers(1, 150), child=st.integers(0, 8).map(
    lambda i: 0 if i < 6 else i * 37), other=st.lists(st.text(alphabet="abcL0123_S", min_size=1, max_size=14), max_size=20)))

PARTS = [
    Part("pools", pool_cases(["one", "thread"]), run_pools, quick=120, thorough=2000),
    Part("process_pool", pool_cases(["process", "one"]), run_pools, quick=40, thorough=600, shards=2),
    Part("pbs", c11.cases(), c11.run, quick=60, thorough=1000, shards=2),
    Part("levels", level_cases(), run_levels, quick=200, thorough=4000),
    Part("synth", synth_cases, run_synth, quick=150, thorough=4000),
    Part("thread_synth", thread_cases, run_thread_synth, quick=40, thorough=600, shards=2),
    Part("workspace_synth", ws_cases, run_ws, quick=30, thorough=600),
    Part("many_seeds", st.fixed_dictionaries(dict(start=st.integers(0, 9000000))), run_many_seeds, quick=2, thorough=40),
    Part("seeds", seed_cases, run_seeds, quick=25, thorough=200),
]
