"""PBS pool restarted on the kept working directory."""
import builtins
import sys
from vlib.common import *
from vlib.core import known_labels
from vlib.sims import PureSim, expected_pair, outcome
from vlib.pbs import FakePBS, make_pool
from vlib.props import c11
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool
from mlmc.sample_storage_hdf import SampleStorageHDF

RULE = ("Part jobs: C11's steps plus interruptions: the pool object is dropped (optionally right after a poll of which only a part was "
        "stored) and a new one is created on the kept directory and told the unfinished ids. Part runs: a Sampler with HDF5 storage and "
        "PBS pool is interrupted and restarted, failed samples are renewed in later jobs. Part kills: the same in forked processes that die "
        "before or right after any opening of a file for writing, renaming, removing or command of the pool. Part submitted: the known finding. "
        "Non-trivial: the process was killed inside, or at an interruption there was an uncollected sample of a job that had ended or "
        "was still alive.")
ASSUMPTIONS = ["parts jobs, runs: the process is interrupted between calls of the pool, or between a poll and the storing of (part of) its results",
               "part kills: the process does not die inside a call of the HDF5 library",
               "a pool meant to be restarted keeps its directory (debug mode)"]


@st.composite
def cases(draw):
    c = draw(c11.cases())
    L = c["L"]
    c["debug"] = True
    crash = st.one_of(st.tuples(st.just("pollcrash"), st.lists(st.booleans(), min_size=1, max_size=4)).map(list),
                      st.just(["crash"]))
    op = st.one_of(
        st.tuples(st.just("sched"), st.integers(0, L - 1), st.integers(1, 5)).map(list),
        st.just(["poll"]), crash, crash,
        st.tuples(st.just("run"), st.integers(0, 5)).map(list), st.tuples(st.just("run"), st.integers(0, 5)).map(list),
        st.tuples(st.just("kill"), st.integers(0, 5), st.integers(0, 5)).map(list),
        st.tuples(st.just("delete"), st.integers(0, 5)).map(list),
        st.tuples(st.just("start"), st.integers(0, 5)).map(list),
        st.tuples(st.just("qsub_fail"), st.integers(1, 3)).map(list),
        st.tuples(st.just("qstat_fail"), st.integers(1, 3)).map(list),
        )
    c["ops"] = [["sched", 0, draw(st.integers(2, 6))]] + draw(st.lists(op, min_size=3, max_size=12))
    return c


class RSim(c11.Sim):
    def __init__(self, case, d):
        super().__init__(case, d)
        self.lost = set()             # scheduled, but never in a submitted job when the process was interrupted
        self.seen = {}                # script -> samples at submission
        self.files = {}
        self.interesting = False

    def job_samples(self, script):
        s = super().job_samples(script)
        require(self.seen.setdefault(script, s) == s, "samples of the earlier job {} were replaced", script)
        return s

    def snapshot(self, script):
        base = os.path.basename(script).split("_")[0]
        out = {}
        for n in sorted(os.listdir(os.path.dirname(script))):
            if n.startswith(base + "_") and not n[len(base) + 1:].isdigit():
                with open(os.path.join(os.path.dirname(script), n), "rb") as f:
                    out[n] = f.read()
        return out

    def end_job(self, which, mode, k=0):
        before = {i for i, _ in self.open_jobs()}
        super().end_job(which, mode, k)
        for i, p in self.pbs.jobs():
            if i in before and self.state[i] == "F":
                self.files[p] = self.snapshot(p)

    def check_files(self):
        scripts = [p for _, p in self.pbs.jobs()]
        require(len(set(scripts)) == len(scripts), "a job script was submitted twice: {}", scripts)
        for p, content in self.files.items():
            require(self.snapshot(p) == content, "files of the earlier job {} changed", p)

    def unfinished(self):
        return [s for s in self.order if s not in self.reported]

    def restart(self):
        where = self.submitted()
        un = self.unfinished()
        if any(s in where for s in un):
            self.interesting = True
        for s in un:
            if s not in where:
                self.lost.add(s)
        pool = make_pool(os.path.join(self.d, "work"), debug=True)
        pool.have_permanent_samples(un + [s for s in sorted(self.lost) if s not in self.reported and s not in un])
        return pool

    def poll(self, pool):
        before = self.pbs.failing("qstat")
        ok, bad, n_running, times = pool.get_finished()
        os.chdir(self.d)
        # samples never submitted can only be reported as failed, once
        for level in list(bad):
            keep = []
            for sid, msg in bad[level]:
                if sid in self.lost:
                    require(sid not in self.reported, "sample {} reported twice", sid)
                    self.reported[sid] = "fail"
                else:
                    keep.append((sid, msg))
            bad[level] = keep
        gone = [s for s in self.lost if s not in self.reported]
        self.order = [s for s in self.order if s not in gone]
        n = self.take((ok, bad, n_running, times), before == 0 and self.pbs.failing("qstat") == 0)
        self.check_files()
        return n


def run(case):
    with scratch() as d:
        os.makedirs(os.path.join(d, "work"))
        S = RSim(case, d)
        pool = make_pool(os.path.join(d, "work"), debug=True)
        for op in case["ops"]:
            if op[0] == "sched":
                S.schedule(pool, op[1], op[2])
            elif op[0] == "poll":
                S.poll(pool)
            elif op[0] in ("run", "delete", "start"):
                S.end_job(op[1], op[0])
            elif op[0] == "kill":
                S.end_job(op[1], "kill", op[2])
            elif op[0] in ("qsub_fail", "qstat_fail"):
                S.pbs.fail(op[0][:-5], op[1])
            elif op[0] == "crash":
                pool = S.restart()
            elif op[0] == "pollcrash":
                before = set(S.reported)
                S.poll(pool)
                new = [s for s in S.order if s in S.reported and s not in before]
                for k, s in enumerate(new):
                    if not op[1][k % len(op[1])] and s not in S.lost:
                        del S.reported[s]
                pool = S.restart()
        S.pbs.fail("qsub", 0)
        S.pbs.fail("qstat", 0)
        S.poll(pool)
        while S.open_jobs():
            S.end_job(0, "run")
        n = S.poll(pool)
        left = S.unfinished()
        require(n == 0 and not left, "after all jobs finished {} samples are running, not reported: {}", n, left)
        ok, bad, n, _ = pool.get_finished()
        os.chdir(d)
        require(not any(ok.values()) and not any(bad.values()) and n == 0, "samples reported again after everything was")
    labels = ["restart with uncollected samples", "nt"] if S.interesting else []
    if S.killed:
        labels.append("job ended early")
    return labels


# ---------------------------------------------------------------- whole runs

@st.composite
def runs(draw):
    L = draw(st.integers(1, 2))
    op = st.one_of(st.tuples(st.just("run"), st.integers(0, 3)).map(list), st.tuples(st.just("kill"), st.integers(0, 3), st.integers(0, 4)).map(list),
                   st.just(["poll"]), st.just(["crash"]), st.just(["crash"]), st.just(["renew"]),
                   st.tuples(st.just("add"), st.integers(1, 4)).map(list))
    renewal = st.tuples(st.integers(0, 3), st.integers(0, 4), st.integers(0, 3)).map(
        lambda t: [["kill", t[0], t[1]], ["poll"], ["renew"], ["run", t[2]], ["crash"]])
    return dict(L=L, m=1, task=draw(st.sampled_from([0.05, 0.4, 0.6])), first_id=7, id_step=1,
                fail=draw(st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "raise"]), min_size=1, max_size=3))),
                n=draw(st.lists(st.integers(1, 5), min_size=L, max_size=L)), ops=[draw(op)] + draw(st.one_of(st.just([]), renewal)) + draw(st.lists(op, min_size=2, max_size=8)))


class RunsSim(c11.Sim):
    """A renewed sample is in several jobs; the last one gives its result."""

    def submitted(self):
        out = {}
        for i, script in self.pbs.jobs():
            for s in self.job_samples(script):
                require(s in self.level, "job of an unknown sample {}", s)
                out[s] = i
        return out


def run_runs(case):
    with scratch() as d:
        os.makedirs(os.path.join(d, "work"))
        S = RunsSim(case, d)
        path = os.path.join(d, "mlmc.hdf5")
        params = [[2.0 ** -l] for l in range(case["L"])]
        interesting = renewed = False

        def start():
            pool = make_pool(os.path.join(d, "work"), debug=True)
            return Sampler(sample_storage=SampleStorageHDF(file_path=path), sampling_pool=pool, sim_factory=S.sim, level_parameters=params)

        target = list(case["n"])
        smp = start()
        smp.set_level_target_n_samples(target)
        smp.schedule_samples(timeout=1e-9)
        where = {}

        def poll(timeout=1e-9):
            r = smp.ask_sampling_pool_for_samples(timeout=timeout)
            os.chdir(d)
            for l, ids in smp.sample_storage.load_scheduled_samples().items():
                for s in ids:
                    S.level.setdefault(s, int(l))
            return r

        poll()
        for op in case["ops"]:
            if op[0] == "run":
                S.end_job(op[1], "run")
            elif op[0] == "kill":
                S.end_job(op[1], "kill", op[2])
            elif op[0] == "poll":
                poll()
            elif op[0] == "crash":
                interesting = interesting or bool(smp.sample_storage.unfinished_ids())
                smp = start()
                smp.set_level_target_n_samples(target)
                poll()
            elif op[0] == "renew":
                poll()
                renewed = renewed or any(smp.sample_storage.failed_samples().values())
                smp.renew_failed_samples()
                poll()
            elif op[0] == "add":
                target = [t + op[1] for t in target]
                smp.set_level_target_n_samples(target)
                smp.schedule_samples(timeout=1e-9)
                poll()
        poll()
        while S.open_jobs():
            S.end_job(0, "run")
        poll()
        st_ = smp.sample_storage
        where = S.submitted()
        sched = st_.load_scheduled_samples()
        failed = {int(k): v for k, v in st_.failed_samples().items()}
        require(not st_.unfinished_ids(), "unfinished samples are left: {}", st_.unfinished_ids())
        for l in range(case["L"]):
            ids = list(sched[l])
            require(len(ids) == target[l] and len(set(ids)) == len(ids), "level {}: {} samples scheduled, target {}", l, len(ids), target[l])
            good = [s for s in ids if s in S.done[where[s]] and outcome(case["fail"], SamplingPool.compute_seed(s)) == "ok"]
            bad = [s for s in ids if s not in good]
            require(sorted(failed.get(l, [])) == sorted(bad), "level {}: failed {}, expected {}", l, failed.get(l), bad)
            rows = []
            for s in good:
                f, c = expected_pair(SamplingPool.compute_seed(s), 2.0 ** -l, 0 if l == 0 else 2.0 ** (1 - l), 1)
                rows.append((float(f[0]), float(c[0]) if l else 0.0))
            got = []
            if good or st_.get_n_collected()[l]:
                arr = np.asarray(st_.sample_pairs()[l])
                for k in range(arr.shape[1]):
                    got.append((float(arr[0, k, 0]), float(arr[0, k, 1]) if l else 0.0))
            require(sorted(got) == sorted(rows), "level {}: stored {}, expected {}", l, got, rows)
    return (["nt", "restart with uncollected samples"] if interesting else []) + (["renewed samples"] if renewed else [])

# ---------------------------------------------------------------- killed anywhere

@st.composite
def kills(draw):
    L = draw(st.integers(1, 3))
    job = st.one_of(st.tuples(st.just("run"), st.integers(0, 3)).map(list), st.tuples(st.just("run"), st.integers(0, 3)).map(list),
                    st.tuples(st.just("kill"), st.integers(0, 3), st.integers(0, 4)).map(list),
                    st.tuples(st.just("delete"), st.integers(0, 3)).map(list), st.tuples(st.just("start"), st.integers(0, 3)).map(list))
    phase = st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 40), st.integers(1, 120), st.integers(-3, -1)), st.integers(0, 3), st.lists(job, max_size=3)).map(list)
    return dict(L=L, m=1, task=draw(st.sampled_from([0.05, 0.3, 0.4, 0.6, 1.5])), first_id=draw(st.sampled_from([7, 98])), id_step=1,
                fail=draw(st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "raise"]), min_size=1, max_size=3))),
                n=draw(st.lists(st.integers(1, 5), min_size=L, max_size=L)), phases=draw(st.lists(phase, min_size=1, max_size=4)))


def in_child(work, k, body):
    """Run body in a forked process that dies before its k-th operation on a file of the run or command, or, for a negative k, right
    after its -k-th submission of a job. Returns 0 if it lived on, 10
    if it died right after the submission of a job, 9 otherwise."""
    pid = os.fork()
    if pid == 0:
        code = 13
        try:
            left = [k, 10, -k]                # operations to do, operations done since the last qsub, qsubs to do

            def tick():
                left[0] -= 1
                left[1] += 1
                if left[0] == 0 or left[2] == 0 and left[1] == 1:
                    os._exit(10 if left[1] <= 3 else 9)

            def hook(event, args):
                if event in ("os.remove", "os.rename", "os.mkdir", "os.chmod", "shutil.rmtree"):
                    if str(args[0]).startswith(work):
                        tick()
                elif event == "subprocess.Popen":
                    tick()
                    if "qsub" in str(args):
                        left[1] = 0
                        left[2] -= 1

            def opened(file, mode="r", *args, **kwargs):
                counted = str(file).startswith(work) and mode[0] in "wax"
                if counted:
                    tick()
                f = plain(file, mode, *args, **kwargs)
                if counted:                  # opened, perhaps truncated, but nothing written
                    tick()
                return f
            plain = builtins.open
            if k:
                builtins.open = opened
                sys.addaudithook(hook)
            body()
            code = 0
        except BaseException:
            import traceback
            with open(os.path.join(work, "..", "error"), "w") as f:
                f.write(traceback.format_exc())
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    code = os.waitstatus_to_exitcode(status)
    if code not in (0, 9, 10):
        with open(os.path.join(work, "..", "error")) as f:
            raise Violation("process failed:\n{}".format(f.read()))
    return code


def run_kills(case):
    with scratch() as d:
        work = os.path.join(d, "work")
        os.makedirs(work)
        S = RunsSim(case, d)
        path = os.path.join(d, "mlmc.hdf5")
        params = [[2.0 ** -l] for l in range(case["L"])]
        died, unsure, labels = 0, set(), []

        def start(target):
            pool = make_pool(work, debug=True)
            smp = Sampler(sample_storage=SampleStorageHDF(file_path=path), sampling_pool=pool, sim_factory=S.sim, level_parameters=params)
            smp.set_level_target_n_samples(target)
            return smp

        def step(add):
            def body():
                smp = start([n + add for n in case["n"]])
                smp.schedule_samples(timeout=1e-9)
                smp.ask_sampling_pool_for_samples(timeout=1e-9)
            return body

        def levels():
            for _, script in S.pbs.jobs():
                for s in S.job_samples(script):
                    S.level[s] = int(s[1:3])

        add = 0
        for k, more, jobs in case["phases"]:
            code = in_child(work, k, step(add))
            died += code > 0
            levels()
            if code == 10 and S.pbs.jobs():   # known finding, label submission-forgotten
                unsure |= set(S.job_samples(S.pbs.jobs()[-1][1]))
            for op in jobs:
                S.end_job(op[1], op[0], *op[2:])
            add += more
        in_child(work, 0, step(add))
        levels()
        while S.open_jobs():
            S.end_job(0, "run")
        in_child(work, 0, step(add))
        while S.open_jobs():
            S.end_job(0, "run")
        in_child(work, 0, step(add))
        st_ = SampleStorageHDF(file_path=path)
        where = S.submitted()
        target = [n + add for n in case["n"]]
        sched = st_.load_scheduled_samples()
        failed = {int(k): v for k, v in st_.failed_samples().items()}
        un = st_.unfinished_ids()
        require(not [s for s in un if s in where], "samples of finished jobs were not collected: {}", un)
        for l in range(case["L"]):
            ids = list(sched[l])
            require(len(ids) == target[l] and len(set(ids)) == len(ids), "level {}: {} samples scheduled, target {}", l, len(ids), target[l])
            good = [s for s in ids if s in where and s in S.done[where[s]] and outcome(case["fail"], SamplingPool.compute_seed(s)) == "ok"]
            forgotten = [s for s in good if s in unsure and s in failed.get(l, [])]
            if forgotten:
                require("submission-forgotten" in known_labels("C12"), "samples {} are reported as failed, their job was submitted right before the process was killed", forgotten)
                labels.append("submission-forgotten")
                good = [s for s in good if s not in forgotten]
            bad = [s for s in ids if s not in good and s not in un]
            require(sorted(failed.get(l, [])) == sorted(bad), "level {}: failed {}, expected {}", l, failed.get(l), bad)
            rows = []
            for s in good:
                f, c = expected_pair(SamplingPool.compute_seed(s), 2.0 ** -l, 0 if l == 0 else 2.0 ** (1 - l), 1)
                rows.append((float(f[0]), float(c[0]) if l else 0.0))
            got = []
            if good or st_.get_n_collected()[l]:
                arr = np.asarray(st_.sample_pairs()[l])
                for k in range(arr.shape[1]):
                    got.append((float(arr[0, k, 0]), float(arr[0, k, 1]) if l else 0.0))
            require(sorted(got) == sorted(rows), "level {}: stored {}, expected {}", l, got, rows)
    return labels + (["nt", "killed inside"] if died else [])



@st.composite
def submitted(draw):
    """The history of the known finding: killed right after the submission."""
    return dict(L=1, m=1, task=0.05, first_id=7, id_step=1, fail=[], n=[draw(st.integers(1, 8))], phases=[[-1, draw(st.integers(0, 2)), []]])


PARTS = [Part("jobs", cases(), run, quick=600, thorough=6000, shards=8),
         Part("runs", runs(), run_runs, quick=160, thorough=2000, shards=8),
         Part("kills", kills(), run_kills, quick=160, thorough=2000, shards=8),
         Part("submitted", submitted(), run_kills, quick=4, thorough=20, shards=1)]
