"""PBS pool with a fake batch system."""
from vlib.common import *
from vlib.sims import PureSim, expected_pair, outcome, SimError
from vlib.pbs import FakePBS, Killed, make_pool
from mlmc.sampling_pool import SamplingPool

RULE = ("A case is a sequence of schedule / poll / run job / kill job at a sample / kill job at a byte of a result file / delete job / start job / make qsub or qstat fail "
        "(at most ten times in a row) steps against the real PBS pool and job code with stub qsub and qstat commands. Each poll is "
        "compared with the set of jobs the batch system reported finished. Non-trivial: at least two jobs were reported, or a job "
        "ended before all its samples were done.")
ASSUMPTIONS = ["jobs run in the harness' process through the command of their generated script"]

KILL = set()
STARTED = []


class PbsSim(PureSim):
    @staticmethod
    def calculate(config, seed):
        STARTED.append(int(seed))
        if int(seed) in KILL:
            raise Killed()
        return PureSim.calculate(config, seed)


def level_sim(sim, level):
    ls = sim.level_instance([2.0 ** -level], [0 if level == 0 else 2.0 ** (1 - level)])
    ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, level
    return ls


@st.composite
def cases(draw, outages=False):
    L = draw(st.integers(1, 3))
    op = st.one_of(
        st.tuples(st.just("sched"), st.integers(0, L - 1), st.integers(1, 5)).map(list),
        st.tuples(st.just("sched"), st.integers(0, L - 1), st.integers(1, 5)).map(list),
        st.just(["poll"]), st.just(["poll"]),
        st.tuples(st.just("run"), st.integers(0, 5)).map(list), st.tuples(st.just("run"), st.integers(0, 5)).map(list),
        st.tuples(st.just("kill"), st.integers(0, 5), st.integers(0, 5)).map(list),
        st.tuples(st.just("delete"), st.integers(0, 5)).map(list),
        st.tuples(st.just("tear"), st.integers(0, 5), st.one_of(st.integers(0, 1500), st.integers(300, 700))).map(list),
        st.tuples(st.just("start"), st.integers(0, 5)).map(list),
        st.tuples(st.just("qsub_fail"), st.integers(1, 3)).map(list),
        st.tuples(st.just("qstat_fail"), st.integers(1, 3)).map(list))
    if outages:
        outage = st.tuples(st.just("outage"), st.sampled_from(["qsub", "qstat"]), st.integers(3, 10)).map(list)
        what = draw(st.sampled_from(["qsub", "qstat"]))
        mine = st.tuples(st.just("outage"), st.just(what), st.integers(6, 10)).map(list)
        op = st.one_of(op, outage, mine, mine, mine)
    return dict(L=L, m=draw(st.integers(1, 2)), who=draw(st.sampled_from([["MLMC_test", "user"], ["FLOW_F", "franta7"], ["F", "F"], ["Q_R_F1x", "user"]])), task=draw(st.sampled_from([0.05, 0.3, 0.4, 0.6, 1.5])),
                fail=draw(st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "raise"]), min_size=1, max_size=4))),
                first_id=draw(st.sampled_from([1, 9, 98, 12345])), id_step=draw(st.sampled_from([1, 1, 10])),
                ops=[["sched", 0, draw(st.integers(1, 6))]] + draw(st.lists(op, min_size=5 if outages else 2, max_size=12)), debug=draw(st.booleans()))


class Sim:
    """Model of who is where."""

    def __init__(self, case, d):
        self.case, self.d = case, d
        KILL.clear()
        self.pbs = FakePBS(d, case["first_id"], case["id_step"], *case.get("who", []))
        self.sim = PbsSim(case["m"], case["fail"], task_size=case["task"])
        self.sims = [level_sim(self.sim, l) for l in range(case["L"])]
        self.level = {}            # id -> level
        self.order = []            # ids in order of scheduling
        self.done = {}             # pbs id -> set of ids really executed
        self.state = {}            # pbs id -> Q R F
        self.reported = {}         # id -> "ok"/"fail"
        self.n_jobs_reported = 0
        self.killed = False
        self.torn = set()          # the job died when the result of the sample was written
        self.count = [0] * case["L"]

    def schedule(self, pool, l, n):
        for _ in range(n):
            sid = sample_tag(l, self.count[l])
            self.count[l] += 1
            self.level[sid] = l
            self.order.append(sid)
            pool.schedule_sample(sid, self.sims[l])

    def job_samples(self, script):
        """Samples of a job, from the file its job reads."""
        import ruamel.yaml as yaml
        with open(os.path.join(os.path.dirname(script), os.path.basename(script).replace("_job.sh", "_scheduled.yaml"))) as f:
            return [s[1] for s in yaml.load(f, yaml.Loader)]

    def open_jobs(self):
        jobs = self.pbs.jobs()
        for i, _ in jobs:
            self.state.setdefault(i, "Q")
            self.done.setdefault(i, set())
        return [(i, p) for i, p in jobs if self.state[i] != "F"]

    def end_job(self, which, mode, k=0):
        jobs = self.open_jobs()
        if not jobs:
            return
        i, script = jobs[which % len(jobs)]
        samples = self.job_samples(script)
        if mode == "start":
            self.state[i] = "R"
            self.pbs.set_state(i, "R")
            return
        if mode == "kill":
            # a job runs its samples level by level
            KILL.add(int(SamplingPool.compute_seed(samples[k % len(samples)])))
        if mode != "delete":
            del STARTED[:]
            finished = self.pbs.run_job(script, k if mode == "tear" else None)
            if mode == "run":
                require(finished, "job did not finish")
            order = sorted(samples, key=lambda s: self.level[s])
            if not finished and mode == "tear":
                # all samples before the last one started were saved, saving of the last one is uncertain
                self.killed = True
                started = [s for s in order if int(SamplingPool.compute_seed(s)) in STARTED]
                require(started == order[:len(started)], "job runs its samples out of order of their levels: {}", started)
                self.torn |= set(started[-1:])
                order = started
            elif not finished:
                self.killed = True
                order = order[:order.index(samples[k % len(samples)])]
            self.done[i] = set(order)
        else:
            self.killed = True
        KILL.clear()
        self.state[i] = "F"
        self.pbs.set_state(i, "F")

    def submitted(self):
        out = {}
        for i, script in self.pbs.jobs():
            for s in self.job_samples(script):
                require(s not in out, "sample {} is in two submitted jobs", s)
                require(s in self.level, "job of an unknown sample {}", s)
                out[s] = i
        return out

    def take(self, polled, qstat_ok):
        ok, bad, n_running, _ = polled
        self.open_jobs()
        where = self.submitted()
        new = {}
        for group, kind in ((ok, "ok"), (bad, "fail")):
            for level, lst in group.items():
                for sid, val in lst:
                    require(sid in self.level, "unknown sample {}", sid)
                    require(sid not in self.reported and sid not in new, "sample {} reported twice", sid)
                    require(self.level[sid] == level, "sample {} reported on level {}", sid, level)
                    new[sid] = (kind, val)
        for sid, (kind, val) in new.items():
            l = self.level[sid]
            require(sid in where and self.state[where[sid]] == "F", "sample {} reported although its job has not finished", sid)
            seed = SamplingPool.compute_seed(sid)
            if sid in self.torn and kind == "fail":
                pass
            elif sid in self.done[where[sid]] and outcome(self.case["fail"], seed) == "ok":
                require(kind == "ok", "successful sample {} reported as failed: {}", sid, val)
                f, c = expected_pair(seed, 2.0 ** -l, 0 if l == 0 else 2.0 ** (1 - l), self.case["m"])
                require(same(val[0], f) and same(val[1], c), "sample {} reported with {} instead of {}", sid, val, (f, c))
            else:
                require(kind == "fail", "sample {} reported as successful", sid)
                if sid in self.done[where[sid]]:
                    require("fails" in val and str(int(seed)) in val, "error of the simulation of {} was lost: {}", sid, val)
            self.reported[sid] = kind
        self.n_jobs_reported += len({where[s] for s in new})
        if qstat_ok:
            missing = [s for s, i in where.items() if self.state[i] == "F" and s not in self.reported]
            require(not missing, "samples of finished jobs were not reported: {}", missing)
        left = [s for s in self.order if s not in self.reported]
        require(n_running == len(left), "pool reports {} running samples, {} are not reported yet", n_running, len(left))
        return n_running


def run(case):
    with scratch() as d:
        os.makedirs(os.path.join(d, "work"))
        S = Sim(case, d)
        pool = make_pool(os.path.join(d, "work"), debug=case["debug"])
        qsub_row, qstat_row = 0, 0

        def poll():
            nonlocal qstat_row
            had_ids = bool([i for i in S.state if True])
            before = S.pbs.failing("qstat")
            polled = pool.get_finished()
            os.chdir(d)
            qstat_ok = S.pbs.failing("qstat") == before and before == 0
            return S.take(polled, qstat_ok)

        for op in case["ops"]:
            if op[0] == "sched":
                S.schedule(pool, op[1], op[2])
            elif op[0] == "poll":
                poll()
            elif op[0] in ("run", "delete", "start"):
                S.end_job(op[1], op[0])
            elif op[0] in ("kill", "tear"):
                S.end_job(op[1], op[0], op[2])
            elif op[0] in ("qsub_fail", "qstat_fail"):
                what = op[0][:-5]
                S.pbs.fail(what, op[1])
            elif op[0] == "outage":
                # a command fails several times in a row and works again
                S.pbs.fail(op[1], op[2])
                S.schedule(pool, 0, 1)
                for _ in range(12):
                    poll()
                    if not S.pbs.failing(op[1]):
                        break
                poll()
        S.pbs.fail("qsub", 0)
        S.pbs.fail("qstat", 0)
        poll()                               # submits the rest
        while S.open_jobs():
            S.end_job(0, "run")
        n = poll()
        require(n == 0 and len(S.reported) == len(S.order), "after all jobs finished {} samples are running, {} of {} reported", n,
                len(S.reported), len(S.order))
        ok, bad, n, _ = pool.get_finished()
        os.chdir(d)
        require(not ok and not bad and n == 0, "samples reported again after everything was")
    labels = []
    if S.killed:
        labels.append("job ended early")
    if any(o[0].endswith("_fail") for o in case["ops"]):
        labels.append("command failures")
    if S.n_jobs_reported > 1 or S.killed:
        labels.append("nt")
    return labels


PARTS = [Part("jobs", cases(), run, quick=440, thorough=6000, shards=8),
         Part("outages", cases(True), run, quick=48, thorough=600, shards=8)]
