"""Conservation of samples in Sampler + pool + storage."""
from vlib.common import *
from vlib.sims import close_pool, PureSim, ManualPool, expected_pair, outcome
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool, ThreadPool, ProcessPool, SamplingPool

RULE = ("A case is a sequence of set-target / schedule / poll calls on a sampler with 1-4 levels, a pool (controlled pool "
        "with generated release order and batches, one-process, thread or process pool), a storage and a failure pattern; "
        "after every call and after the final wait the storage is compared with the set of ids and results the targets "
        "demand. Non-trivial: at least two levels or two schedulings, and at least one successful sample.")

KINDS = ["ok", "raise"]


@st.composite
def cases(draw, pools):
    L = draw(st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(5, 12)))
    lv = st.integers(0, L - 1)
    op = st.one_of(
        st.tuples(st.just("target"), st.lists(st.integers(0, 8), min_size=L, max_size=L)).map(list),
        st.tuples(st.just("level_target"), st.lists(st.integers(0, 8), min_size=L, max_size=L)).map(list),
        st.tuples(st.just("range"), st.integers(1, 12), st.integers(1, 12)).map(list),
        st.just(["schedule"]), st.just(["schedule_t"]), st.just(["poll"]), st.just(["poll_t"]), st.just(["schedule_t"]))
    first = st.one_of(
        st.tuples(st.just("target"), st.lists(st.integers(0, 8), min_size=L, max_size=L)).map(list),
        st.tuples(st.just("level_target"), st.lists(st.integers(1, 8), min_size=L, max_size=L)).map(list),
        st.tuples(st.just("range"), st.integers(1, 12), st.integers(1, 12)).map(list))
    pool = draw(st.sampled_from(pools))
    fail = draw(st.one_of(st.just([]), st.lists(st.sampled_from(KINDS), min_size=1, max_size=5)))
    plan = draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1)).map(list), max_size=5))
    return dict(L=L, pool=pool, storage=draw(st.sampled_from(["mem", "hdf"])), m=draw(st.integers(1, 3)), fail=fail,
                ops=[draw(first), ["schedule_t"]] + draw(st.lists(op, min_size=0, max_size=8 if L < 5 else 2)), plan=plan,
                steps=draw(st.lists(st.sampled_from([1.0, 0.5, 0.3, 0.1, 0.01, 0.7, 0.6, 0.25, 0.2, 0.07, 0.05, 0.02]), min_size=L, max_size=L, unique=True)
                           if L > 1 else st.just([0.5])))


def check_all(storage, L, n_sched, steps, m, fail, final):
    sched = storage.load_scheduled_samples()
    all_ids = []
    exp_fin, exp_col = [], []
    for l in range(L):
        ids = [str(s) for s in sched.get(l, [])]
        require(len(ids) == n_sched[l], "level {} has {} scheduled ids, targets demand {}", l, len(ids), n_sched[l])
        require(all("L{:02d}_".format(l) in i for i in ids), "an id of level {} does not name its level: {}", l, ids)
        all_ids += ids
    require(len(set(all_ids)) == len(all_ids), "sample ids repeat: {}", all_ids)
    # the successful results, by value
    pairs = storage.sample_pairs()
    nf = np.asarray(storage.n_finished(), dtype=float)
    total = 0
    for l in range(L):
        ids = [str(s) for s in sched.get(l, [])]
        seeds = [SamplingPool.compute_seed(i) for i in ids]
        coarse = 0 if l == 0 else steps[l - 1]
        exp = {}
        for i, s in zip(ids, seeds):
            if outcome(fail, s) == "ok":
                f, c = expected_pair(s, steps[l], coarse, m)
                key = tuple(f) if l == 0 else tuple(f) + tuple(c)
                exp[key] = exp.get(key, 0) + 1
        got = {}
        if np.asarray(pairs[l]).size:
            arr = np.asarray(pairs[l])
            require(arr.shape[0] == m and arr.shape[2] == (1 if l == 0 else 2), "sample_pairs shape {}", arr.shape)
            for j in range(arr.shape[1]):
                key = tuple(arr[:, j, 0]) if l == 0 else tuple(arr[:, j, 0]) + tuple(arr[:, j, 1])
                got[key] = got.get(key, 0) + 1
        for k in got:
            require(k in exp and got[k] <= exp[k], "level {} stores a result no sample of it returned, or stores one twice: {}", l, k)
        if final:
            require(got == exp, "level {}: {} results stored, {} expected", l, sum(got.values()), sum(exp.values()))
            require(nf[l] == n_sched[l], "level {}: n_finished {} of {} scheduled", l, nf[l], n_sched[l])
        require(nf[l] <= n_sched[l], "more finished than scheduled on level {}: {} > {}", l, nf[l], n_sched[l])
        require(storage.get_n_collected()[l] == sum(got.values()), "n_collected")
        total += sum(got.values())
        if hasattr(storage, "failed_samples"):
            bad = sorted(storage.failed_samples()[str(l)])
            exp_bad = sorted(i for i, s in zip(ids, seeds) if outcome(fail, s) != "ok")
            require(len(bad) == len(set(bad)) and set(bad) <= set(exp_bad), "failed ids {} expected among {}", bad, exp_bad)
            if final:
                require(bad == exp_bad, "failed ids {} expected {}", bad, exp_bad)
                require(list(storage.unfinished_ids()) == [], "unfinished ids are left: {}", storage.unfinished_ids())
    return total


def make_pool(case):
    if case["pool"] == "manual":
        return ManualPool(case["plan"], max_polls=20000)
    if case["pool"] == "one":
        return OneProcessPool()
    if case["pool"] == "thread":
        return ThreadPool(3)
    return ProcessPool(2)


def run(case):
    L, m, fail, steps = case["L"], case["m"], case["fail"], case["steps"]
    with scratch() as d:
        storage = make_storage(case["storage"], d)
        pool = make_pool(case)
        try:
            sampler = Sampler(sample_storage=storage, sampling_pool=pool, sim_factory=PureSim(m, fail),
                              level_parameters=[[s] for s in steps])
            target = [0] * L
            given = []
            n_sched = [0] * L
            n_schedulings = 0
            for op in case["ops"]:
                if op[0] == "target":
                    if L > 2:
                        t = list(op[1])
                        given.append((np.array(t), t))
                        sampler.set_initial_n_samples(given[-1][0])
                    else:
                        t = [max(1, x) for x in op[1]]
                        sampler.set_initial_n_samples(t)
                    target = list(t)
                elif op[0] == "level_target":
                    sampler.set_level_target_n_samples(op[1])
                    target = [max(a, b) for a, b in zip(target, op[1])]
                    require(all(list(a) == b for a, b in given), "numbers given by the user were changed: {}", given)
                elif op[0] == "range":
                    sampler.set_initial_n_samples([op[1], op[2]])
                    target = [int(x) for x in np.round(np.exp2(np.linspace(np.log2(op[1]), np.log2(op[2]), L)))]
                elif op[0] in ("schedule", "schedule_t"):
                    if op[0] == "schedule":
                        sampler.schedule_samples()
                    else:
                        sampler.schedule_samples(timeout=1e-9)
                    n_sched = [max(a, b) for a, b in zip(n_sched, target)]
                    n_schedulings += 1
                elif op[0] == "poll":
                    r = sampler.ask_sampling_pool_for_samples()
                    require(r == 0, "waiting without timeout returned with {} running", r)
                elif op[0] == "poll_t":
                    sampler.ask_sampling_pool_for_samples(timeout=1e-9)
                require([int(x) for x in sampler.l_scheduled_samples()] == n_sched,
                        "sampler counts {} scheduled, targets demand {}", list(sampler.l_scheduled_samples()), n_sched)
                check_all(storage, L, n_sched, steps, m, fail, final=False)
            r = sampler.ask_sampling_pool_for_samples()
            require(r == 0, "waiting without timeout returned with {} running", r)
            total = check_all(storage, L, n_sched, steps, m, fail, final=True)
            require(np.array_equal(np.asarray(sampler.n_finished_samples, dtype=float), np.array(n_sched, dtype=float)),
                    "n_finished_samples {}", sampler.n_finished_samples)
        finally:
            close_pool(pool)
    labels = [case["pool"], case["storage"]]
    if any(k == "raise" for k in fail):
        labels.append("failures")
    if total and (L > 1 or n_schedulings > 1):
        labels.append("nt")
    return labels


PARTS = [
    Part("controlled", cases(["manual"]), run, quick=400, thorough=8000, shards=3),
    Part("one_process", cases(["one"]), run, quick=150, thorough=3000, shards=2),
    Part("thread", cases(["thread"]), run, quick=60, thorough=1000, shards=1),
    Part("process", cases(["process"]), run, quick=16, thorough=300, shards=2),
]
