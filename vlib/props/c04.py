"""process_adding_samples: monotone, bounded, progressing, terminating."""
import math
from vlib.common import *
from vlib.sims import PureSim, ManualPool, outcome
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool

RULE = ("A case is a sampler with 1-4 levels and generated initial numbers, a sequence of estimates (floats or ints, "
        "below and above the current numbers), fractions in (0, 1] and failure patterns; every call is compared with the "
        "bounds the property states, and finally one estimate is repeated until the call returns true (at most a "
        "computed number of steps). Non-trivial: at least one level below its estimate at some call.")


@st.composite
def cases(draw):
    L = draw(st.integers(1, 4))
    est = st.lists(st.one_of(st.integers(0, 30).map(float), st.integers(0, 300).map(lambda k: k / 10.0)), min_size=L, max_size=L)
    return dict(L=L, init=draw(st.lists(st.integers(1, 12), min_size=L, max_size=L)),
                calls=[[e, c] for e, c in draw(st.lists(st.tuples(est, st.sampled_from([0.1, 0.1, 0.05, 0.2, 0.5, 1.0])), max_size=5))],
                last=[draw(est), draw(st.sampled_from([0.1, 0.3, 1.0]))],
                fail=draw(st.one_of(st.just([]), st.just(["raise"]), st.lists(st.sampled_from(["ok", "raise"]), min_size=1, max_size=4))),
                pool=draw(st.sampled_from(["manual", "one"])),
                plan=draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 1)).map(list), max_size=4)),
                storage=draw(st.sampled_from(["mem", "mem", "hdf"])), initial_poll=draw(st.booleans()))


def one_call(sampler, storage, est, coeff, L):
    before = np.array([float(x) for x in sampler.l_scheduled_samples()])
    est = np.array(est, dtype=float)
    ret = sampler.process_adding_samples(est.copy(), 0, coeff)
    after = np.array([float(x) for x in sampler.l_scheduled_samples()])
    sched = storage.load_scheduled_samples()
    require([len(sched.get(l, [])) for l in range(L)] == after.astype(int).tolist(), "scheduled in storage differ from the sampler's count")
    for l in range(L):
        b, a, e = before[l], after[l], est[l]
        require(a >= b, "level {}: number of scheduled samples fell from {} to {}", l, b, a)
        require(a <= max(b, math.ceil(e)), "level {}: scheduled {} above both the previous {} and the estimate {}", l, a, b, e)
        if b < e:
            gap = e - b
            require(a >= b + coeff * gap - 1e-6, "level {}: from {} only {} for estimate {} and fraction {}", l, b, a, e, coeff)
            if gap < coeff * e - 1e-9:
                require(a >= e, "level {}: gap {} below the fraction of {} but {} scheduled", l, gap, e, a)
            require(a > b, "level {}: no progress from {} towards {}", l, b, e)
        else:
            require(a == b, "level {}: scheduled {} although {} >= estimate {}", l, a, b, e)
    require(bool(ret) == bool(np.all(after >= est)), "returned {} with scheduled {} and estimates {}", ret, after.tolist(), est.tolist())
    return bool(ret), bool(np.any(before < est))


def run(case):
    L = case["L"]
    with scratch() as d:
        storage = make_storage(case["storage"], d)
        pool = OneProcessPool() if case["pool"] == "one" else ManualPool(case["plan"], max_polls=200000)
        sampler = Sampler(sample_storage=storage, sampling_pool=pool, sim_factory=PureSim(1, case["fail"]),
                          level_parameters=[[2.0 ** -l] for l in range(L)])
        if L > 2:
            sampler.set_initial_n_samples(list(case["init"]))
        else:
            sampler.set_level_target_n_samples(list(case["init"]))
        sampler.schedule_samples()
        if case["initial_poll"]:
            sampler.ask_sampling_pool_for_samples()
        nt = False
        for est, c in case["calls"]:
            nt |= one_call(sampler, storage, est, c, L)[1]
        est, c = case["last"]
        done, steps = False, 0
        while not done:
            steps += 1
            require(steps <= 200, "adding samples did not end in {} steps for the estimate {}", steps, est)
            done, n = one_call(sampler, storage, est, c, L)
            nt |= n
        require(all(float(a) >= e for a, e in zip(sampler.l_scheduled_samples(), est)), "estimate not reached")
        require(sampler.ask_sampling_pool_for_samples() == 0, "samples left running")
        require([int(x) for x in sampler.n_finished_samples] == [int(x) for x in sampler.l_scheduled_samples()],
                "not all scheduled samples finished")
    labels = ["steps>1"] if steps > 1 else []
    if case["fail"] == ["raise"]:
        labels.append("all fail")
    if nt:
        labels.append("nt")
    return labels


@st.composite
def large(draw):
    """Many samples, small fractions."""
    L = draw(st.integers(1, 3))
    est = st.lists(st.one_of(st.integers(100, 1500).map(float), st.integers(1000, 9000).map(lambda k: k / 10.0), st.integers(0, 20).map(float)), min_size=L, max_size=L)
    coeff = st.sampled_from([0.1, 0.02, 0.005, 0.001, 0.3])
    return dict(L=L, init=draw(st.lists(st.one_of(st.integers(1, 12), st.integers(100, 600)), min_size=L, max_size=L)),
                calls=[[e, c] for e, c in draw(st.lists(st.tuples(est, coeff), min_size=1, max_size=8))],
                last=[draw(est), draw(st.sampled_from([0.2, 0.5, 1.0]))], fail=[], pool="one", plan=[], storage="mem", initial_poll=draw(st.booleans()))


@st.composite
def nearly(draw):
    """Levels a few samples below their estimates, small fractions."""
    c = draw(large())
    c["calls"] = [[[float(max(0, i - draw(st.integers(-4, 1)))) for i in c["init"]], draw(st.sampled_from([0.001, 0.002, 0.0005, 0.01]))] for _ in range(draw(st.integers(1, 3)))]
    c["last"] = [[float(i) for i in c["init"]], 1.0]
    return c


PARTS = [Part("adding", cases(), run, quick=600, thorough=10000, shards=4, hang_cpu=60),
         Part("many_samples", st.one_of(large(), nearly()), run, quick=120, thorough=1500, hang_cpu=60)]
