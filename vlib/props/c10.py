"""Cost per sample."""
import time
from vlib.common import *
from vlib.sims import SimError
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from vlib.pbs import FakePBS, make_pool
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool, SamplingPool

RULE = ("sampler: generated durations are given to samples by a controlled clock; samples are scheduled in generated groups with "
        "polls in between, through the one-process pool into both storages, and the stored cost is compared with total over "
        "number after every poll; storage: generated [time, number] records on generated levels, with reopening of the HDF5 "
        "file; pbs: samples of generated durations, some failing, are put to jobs and generated numbers of jobs run between "
        "polls of the PBS pool, with restarts on the kept directory, which measures whole jobs (time and number of all its samples). Non-trivial: several jobs in one "
        "poll; a level with samples reported by at least two polls (records).")
ASSUMPTIONS = ["durations are positive; the clocks time.time, time.perf_counter and time.monotonic are replaced by one controlled clock"]


class Clock:
    def __init__(self):
        self.t = 1000.0

    def __call__(self):
        self.t += 1e-10
        return self.t


CLOCK = Clock()


class TimedSim(Simulation):
    def __init__(self, table):
        self.table = table

    def level_instance(self, f, c):
        return LevelSimulation(config_dict=dict(table=self.table))

    def result_format(self):
        return vector_format(2)

    @staticmethod
    def calculate(config, seed):
        dur, kind = config["table"][int(seed)]
        CLOCK.t += dur
        if kind == "raise":
            raise SimError("fails")
        if kind == "short":
            return np.zeros(1), np.zeros(1)
        return np.ones(2), np.zeros(2)


@st.composite
def sampler_cases(draw):
    L = draw(st.integers(1, 3))
    durations = st.one_of(st.integers(1, 400).map(lambda k: k / 16.0), st.integers(1, 400).map(lambda k: k / 16.0), st.sampled_from([1e-6, 3e-5, 1e-4]))
    sample = st.tuples(durations, st.sampled_from(["ok", "ok", "ok", "raise", "short"])).map(list)
    return dict(L=L, samples=[draw(st.lists(sample, max_size=8)) for _ in range(L)],
                groups=draw(st.lists(st.tuples(st.lists(st.integers(0, 4), min_size=L, max_size=L), st.integers(0, 3)).map(list), min_size=1, max_size=5)),
                storage=draw(st.sampled_from(["mem", "hdf"])))


def run_sampler(case):
    L = case["L"]
    table = {}
    for l in range(L):
        for i, s in enumerate(case["samples"][l]):
            table[int(SamplingPool.compute_seed(sample_tag(l, i)))] = s
    saved = time.time, time.perf_counter, time.monotonic
    polls = 0
    with scratch() as d:
        storage = make_storage(case["storage"], d)
        time.time = time.perf_counter = time.monotonic = CLOCK
        try:
            sampler = Sampler(sample_storage=storage, sampling_pool=OneProcessPool(), sim_factory=TimedSim(table),
                              level_parameters=[[2.0 ** -l] for l in range(L)])
            n = [0] * L
            reported = [0] * L
            for add, n_polls in case["groups"]:
                n = [min(len(case["samples"][l]), n[l] + add[l]) for l in range(L)]
                sampler.set_level_target_n_samples(n)
                sampler.schedule_samples()
                for _ in range(n_polls):
                    sampler.ask_sampling_pool_for_samples()
                    polls += 1
                if n_polls:
                    reported = [r + (a > 0) for r, a in zip(reported, add)]
                    check(storage, case, n)
            sampler.ask_sampling_pool_for_samples()
            check(storage, case, n)
            if case["storage"] == "hdf":
                check(make_storage("hdf", d), case, n)
        finally:
            time.time, time.perf_counter, time.monotonic = saved
    return ["nt"] if polls >= 2 and any(r >= 2 for r in reported) else []


def check(storage, case, n):
    got = [float(x) for x in storage.get_n_ops()]
    exp = []
    for l in range(case["L"]):
        durs = [s[0] for s in case["samples"][l][:n[l]] if s[1] == "ok"]
        exp.append(sum(durs) / len(durs) if durs else 0.0)
    require(len(got) == len(exp) and np.allclose(got, exp, rtol=1e-6, atol=1e-9), "cost per sample {} expected {}", got, exp)


records = st.integers(1, 4).flatmap(lambda L: st.fixed_dictionaries(dict(
    L=st.just(L), ops=st.lists(st.one_of(
        st.tuples(st.just("add"), st.lists(st.tuples(st.integers(0, L - 1), st.one_of(st.integers(1, 1000).map(lambda k: k / 32.0), st.sampled_from([1e-9, 3e-7, 2e-5])),
                                                     st.one_of(st.integers(0, 6), st.sampled_from([50, 999, 1000, 20000, 3000000]))).map(list),
                                           min_size=1, max_size=L, unique_by=lambda t: t[0])).map(list),
        st.just(["reopen"])), min_size=1, max_size=8))))


def run_records(case):
    L = case["L"]
    with scratch() as d:
        stores = dict(mem=make_storage("mem", d), hdf=make_storage("hdf", d))
        for s in stores.values():
            s.save_global_data(level_parameters=[[2.0 ** -l] for l in range(L)], result_format=vector_format(1))
        tot = [[0.0, 0, 0] for _ in range(L)]
        for op in case["ops"]:
            if op[0] == "reopen":
                stores["hdf"] = make_storage("hdf", d)
            else:
                for s in stores.values():
                    s.save_n_ops([(l, [t, n]) for l, t, n in op[1]])
                for l, t, n in op[1]:
                    if n > 0:
                        tot[l][0] += t
                        tot[l][1] += n
                        tot[l][2] += 1
            exp = [t / n if n else 0.0 for t, n, _ in tot]
            for kind, s in stores.items():
                got = [float(x) for x in s.get_n_ops()]
                require(len(got) == L and np.allclose(got, exp, rtol=1e-12, atol=0), "{} storage: cost {} expected {}", kind, got, exp)
    return ["nt"] if any(t[2] > 1 for t in tot) else []


@st.composite
def pbs_cases(draw):
    L = draw(st.integers(1, 3))
    sample = st.tuples(st.integers(0, L - 1), st.integers(1, 400).map(lambda k: k / 16.0), st.sampled_from(["ok", "ok", "ok", "raise"])).map(list)
    return dict(L=L, samples=draw(st.lists(sample, min_size=1, max_size=14)), task=draw(st.sampled_from([0.05, 0.3, 0.6, 1.5])),
                polls=draw(st.lists(st.tuples(st.integers(1, 5), st.booleans()).map(list), min_size=1, max_size=4)), storage=draw(st.sampled_from(["mem", "hdf"])))


def run_pbs(case):
    """Samples are put to jobs; before each poll a generated number of the oldest submitted jobs is run."""
    L = case["L"]
    table, count, ids = {}, [0] * L, []
    for l, dur, kind in case["samples"]:
        sid = sample_tag(l, count[l])
        count[l] += 1
        ids.append((sid, l, dur))
        table[int(SamplingPool.compute_seed(sid))] = (dur, kind)
    saved = time.time, time.perf_counter, time.monotonic
    with scratch() as d:
        os.makedirs(os.path.join(d, "work"))
        storage = make_storage(case["storage"], d)
        storage.save_global_data(level_parameters=[[2.0 ** -l] for l in range(L)], result_format=vector_format(2))
        pbs = FakePBS(d)
        pool = make_pool(os.path.join(d, "work"), debug=True)
        sim = TimedSim(table)
        time.time = time.perf_counter = time.monotonic = CLOCK
        try:
            for sid, l, _ in ids:
                ls = sim.level_instance([1], [1])
                ls._calculate, ls._result_format, ls._level_id, ls.task_size = sim.calculate, sim.result_format, l, case["task"]
                pool.schedule_sample(sid, ls)
            pool.execute()
            os.chdir(d)
            jobs, got_ids, several = pbs.jobs(), set(), False
            level, dur = {s: l for s, l, _ in ids}, {s: t for s, _, t in ids}
            for n, restart in case["polls"] + [[len(jobs), False]]:
                now, jobs = jobs[:n], jobs[n:]
                for pid, script in now:
                    require(pbs.run_job(script), "job did not finish")
                    pbs.set_state(pid, "F")
                if restart:           # interrupted before the poll; a new pool on the kept directory
                    pool = make_pool(os.path.join(d, "work"), debug=True)
                    pool.have_permanent_samples([s for s, _, _ in ids if s not in got_ids])
                ok, bad, _, times = pool.get_finished()
                os.chdir(d)
                storage.save_samples(ok, bad)
                storage.save_n_ops(times)
                several |= len(now) > 1
                got_ids |= {s for part in (ok, bad) for lst in part.values() for s, _ in lst}
                exp = []
                for l in range(L):
                    ts = [dur[s] for s in got_ids if level[s] == l]
                    exp.append(sum(ts) / len(ts) if ts else 0.0)
                got = [float(x) for x in storage.get_n_ops()]
                require(len(got) == L and np.allclose(got, exp, rtol=1e-6, atol=1e-9), "PBS: cost per sample {} expected {}", got, exp)
        finally:
            time.time, time.perf_counter, time.monotonic = saved
    return ["nt"] if several and len(case["samples"]) > 2 else []


PARTS = [
    Part("pbs", pbs_cases(), run_pbs, quick=80, thorough=1500, shards=3),
    Part("sampler", sampler_cases(), run_sampler, quick=300, thorough=5000, shards=2),
    Part("records", records, run_records, quick=150, thorough=3000, shards=2),
]
