"""Sample workspaces."""
import json
import threading
import time
from vlib.common import *
from vlib.core import known_labels
from vlib.sims import close_pool, SimError, expected_pair
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from vlib.pbs import FakePBS, make_pool
from mlmc.sampling_pool import OneProcessPool, ProcessPool, SamplingPool, ThreadPool

RULE = ("A case is a sequence of pool creations (normal or debug) over one working directory holding other user files, each "
        "running generated samples (levels, numbers around the limit of five kept samples, successes and failures, reruns) of a "
        "simulation with 0-3 common files and a workspace; the simulation records its directory and what it found there. "
        "The file tree after each run is compared with the rules. threads: samples of a thread pool one after another, or (known finding) at once. Non-trivial: at least one sample with a common file, and "
        "a failure or a sample number of five or more.")


class WsSim(Simulation):
    """Which samples fail is read from <log>/fail (the PBS pool stores the configuration of a level only once)."""
    def __init__(self, files, log):
        self.files, self.log = files, log

    def level_instance(self, f, c):
        return LevelSimulation(config_dict=dict(fine=f[0], coarse=c[0], log=self.log), common_files=self.files,
                               need_sample_workspace=True)

    def result_format(self):
        return vector_format(1)

    @staticmethod
    def calculate(config, seed):
        found = {}
        for root, dirs, files in os.walk("."):
            for x in files:
                p = os.path.join(root, x)
                with open(p) as f:
                    found[os.path.relpath(p, ".")] = f.read()
            for x in dirs:
                found[os.path.relpath(os.path.join(root, x), ".") + "/"] = ""
        with open(os.path.join(config["log"], "{}.json".format(int(seed))), "w") as f:
            json.dump(dict(cwd=os.path.realpath(os.getcwd()), found=found), f)
        with open("out.txt", "w") as f:
            f.write("result {}".format(int(seed)))
        with open(os.path.join(config["log"], "attempt")) as f:
            attempt = f.read()
        with open("attempt_{}".format(attempt), "w") as f:
            f.write(attempt)
        os.makedirs("sub/deep", exist_ok=True)
        with open(os.path.join(config["log"], "change")) as f:
            if f.read() == "1":
                for name in found:          # a simulation may change its own copies
                    if name.startswith("common_"):
                        with open(name, "a") as g:
                            g.write(" changed")
        with open("sub/deep/x.txt", "w") as f:
            f.write("deep {}".format(int(seed)))
        with open(os.path.join(config["log"], "fail")) as f:
            fail = json.load(f)
        if int(seed) in fail:
            raise SimError("fails")
        return expected_pair(seed, config["fine"], config["coarse"], 1)


def tree(d):
    """Relative path -> content of all files below d, directories end with '/'."""
    out = {}
    for root, dirs, files in os.walk(d):
        for x in files:
            p = os.path.join(root, x)
            with open(p, errors="replace") as f:
                out[os.path.relpath(p, d)] = f.read()
        for x in dirs:
            out[os.path.relpath(os.path.join(root, x), d) + "/"] = None
    return out


FAR = [9, 10, 11, 14, 15, 23, 99, 100, 104, 1001, 10000, 10004, 1000000, 1000002]      # numbers of samples of long runs


@st.composite
def cases(draw, pool):
    def one_run(first):
        L = 3
        samples = draw(st.lists(st.tuples(st.integers(0, 2), st.one_of(st.integers(0, 8), st.sampled_from(FAR)), st.sampled_from(["ok", "ok", "fail"])).map(list),
                                min_size=1, max_size=7, unique_by=lambda t: (t[0], t[1])))
        return dict(samples=samples, debug=draw(st.booleans()) if pool != "pbs" else debug, rerun=draw(st.integers(0, 2)))
    debug = draw(st.booleans())
    n_runs = draw(st.integers(1, 3))
    return dict(pool=pool, n_files=draw(st.integers(0, 3)), change=draw(st.booleans()), runs=[one_run(i == 0) for i in range(n_runs)],
                others=draw(st.lists(st.sampled_from(["notes.txt", "output.txt", "output_old/a.txt", "failed/b.txt", "several_successful/c.txt",
                                                      "L00_S0000000/d.txt", "mlmc.hdf5"]), max_size=4, unique=True)))


def run(case):
    with scratch() as d:
        d = os.path.realpath(d)
        work, log, inp = [os.path.join(d, x) for x in ("work", "log", "inp")]
        for x in (work, log, inp):
            os.makedirs(x)
        user = {}
        for o in case["others"]:
            p = os.path.join(work, o)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write("user data " + o)
            user[o] = "user data " + o
        files, common = [], {}
        for i in range(case["n_files"]):
            sub = os.path.join(inp, "d{}".format(i))
            os.makedirs(sub)
            p = os.path.join(sub, "common_{}.txt".format(i))
            with open(p, "w") as f:
                f.write("common content {}".format(i))
            files.append(p)
            common["common_{}.txt".format(i)] = "common content {}".format(i)
        inp_tree = tree(inp)
        out = os.path.join(work, "output")
        pbs, ran = (FakePBS(d) if case["pool"] == "pbs" else None), set()
        exp_dirs = {}          # relative dir below output -> expected content
        nt, attempt = False, 0
        for r in case["runs"]:
            if not r["debug"]:
                exp_dirs = {}
            pool = dict(one=lambda: OneProcessPool(work_dir=work, debug=r["debug"]), process=lambda: ProcessPool(2, work_dir=work, debug=r["debug"]),
                        pbs=lambda: make_pool(work, debug=r["debug"]))[case["pool"]]()
            try:
                for rep in range(2):
                    # the rerun part runs some samples again in the same pool (as renewing failed samples does)
                    todo = r["samples"] if rep == 0 else [s for s in r["samples"] if s[2] == "fail"][:r["rerun"]]
                    todo = [[l, i, ("ok" if rep == 1 and k % 2 == 0 else o)] for k, (l, i, o) in enumerate(todo)]
                    fail = [int(SamplingPool.compute_seed(sample_tag(l, i))) for l, i, o in todo if o == "fail"]
                    for x in os.listdir(log):
                        os.remove(os.path.join(log, x))
                    with open(os.path.join(log, "fail"), "w") as f:
                        json.dump(fail, f)
                    with open(os.path.join(log, "change"), "w") as f:
                        f.write("1" if case["change"] else "0")
                    attempt += 1
                    with open(os.path.join(log, "attempt"), "w") as f:
                        f.write(str(attempt))
                    os.chdir(d)
                    for l, i, o in todo:
                        sim = WsSim(files if files else None, log)
                        ls = sim.level_instance([2.0 ** -l], [0 if l == 0 else 2.0 ** (1 - l)])
                        ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, l
                        pool.schedule_sample(sample_tag(l, i), ls)
                    require(os.path.realpath(os.getcwd()) == d, "the working directory of the main process changed")
                    os.chdir(d)
                    got, t0 = {}, time.time()
                    if pbs:
                        pool.execute()
                        for pid, script in pbs.jobs():
                            if pid not in ran:
                                ran.add(pid)
                                require(pbs.run_job(script), "job did not finish")
                                pbs.set_state(pid, "F")
                    while len(got) < len(todo):
                        ok, bad, n, _ = pool.get_finished()
                        for part, kind in ((ok, "ok"), (bad, "fail")):
                            for l, lst in part.items():
                                for sid, msg in lst:
                                    got[sid] = kind
                                    if kind == "fail":
                                        require("SimError" in msg, "sample {} failed for another reason: {}", sid, msg)
                        time.sleep(0.002)
                        require(time.time() - t0 < 60, "pool never reported {} samples", len(todo) - len(got))
                    if case["pool"] == "process":
                        # the directory of the last sample may be handled after its result is queued
                        t0 = time.time()
                        while case_pending(out, exp_dirs, todo, r["debug"]) and time.time() - t0 < 20:
                            time.sleep(0.01)
                    for l, i, o in todo:
                        sid = sample_tag(l, i)
                        seed = int(SamplingPool.compute_seed(sid))
                        require(got.get(sid) == o, "sample {} reported as {} instead of {}", sid, got.get(sid), o)
                        with open(os.path.join(log, "{}.json".format(seed))) as f:
                            rec = json.load(f)
                        require(rec["cwd"] == os.path.join(out, sid), "sample {} ran in {}", sid, rec["cwd"])
                        old = exp_dirs.pop(sid, {})       # in debug mode the directory of an earlier run of the sample stays
                        exp_found = {k: v or "" for k, v in old.items()}
                        exp_found.update(common)
                        require(rec["found"] == exp_found, "sample {} found {} in its directory, expected {}", sid, rec["found"], exp_found)
                        content = dict(old)
                        content.update({k: v + (" changed" if case["change"] else "") for k, v in common.items()})
                        content.update({"out.txt": "result {}".format(seed), "attempt_{}".format(attempt): str(attempt), "sub/": None, "sub/deep/": None, "sub/deep/x.txt": "deep {}".format(seed)})
                        if o == "fail":
                            exp_dirs[os.path.join("failed", sid)] = content
                        elif r["debug"]:
                            exp_dirs[sid] = content
                        elif i < 5:
                            exp_dirs[os.path.join("several_successful", sid)] = content
                        nt |= bool(files) and (o == "fail" or i >= 5)
                    expected = {"failed/": None, "several_successful/": None}
                    for rel, content in exp_dirs.items():
                        expected[rel + "/"] = None
                        for k, v in content.items():
                            expected[os.path.join(rel, k)] = v
                    now = tree(out)
                    if pbs:
                        now = {k: v for k, v in now.items() if not k.startswith("jobs/") and not (k.startswith("level_") and k.endswith("_config"))
                               and k != "pbs_process_serialized.txt"}
                    os.chdir(d)
                    require(now == expected, "output directory has (extra {}, missing {}, different {})", sorted(set(now) - set(expected)),
                            sorted(set(expected) - set(now)), sorted(k for k in set(now) & set(expected) if now[k] != expected[k]))
                    t = tree(work)
                    for o, c in user.items():
                        require(t.get(o) == c, "user file {} was touched", o)
                    rest = {k for k in t if not k.startswith("output/") and not k.endswith("/")}
                    require(rest == set(user), "files appeared in the working directory: {}", sorted(rest - set(user)))
                    require(tree(inp) == inp_tree, "common files were touched")
            finally:
                close_pool(pool)
    return ["nt"] if nt else []


def case_pending(out, exp_dirs, todo, debug):
    """True while a finished sample's own directory is still being handled."""
    for l, i, o in todo:
        sid = sample_tag(l, i)
        if (o == "fail" or not debug) and os.path.exists(os.path.join(out, sid)):
            return True
    return False


class CwdSim(Simulation):
    """Records the working directory at its start and, after meeting the other samples, at its end."""
    barrier = None
    seen = {}

    def level_instance(self, f, c):
        return LevelSimulation(config_dict=dict(fine=f[0], coarse=c[0]), common_files=None, need_sample_workspace=True)

    def result_format(self):
        return vector_format(1)

    @staticmethod
    def calculate(config, seed):
        if CwdSim.barrier is not None:
            try:
                CwdSim.barrier.wait(2)
            except threading.BrokenBarrierError:
                pass                    # samples do not overlap
        CwdSim.seen[int(seed)] = os.path.realpath(os.getcwd())
        if CwdSim.barrier is not None:
            try:
                CwdSim.barrier.wait(2)
            except threading.BrokenBarrierError:
                pass
        return expected_pair(seed, config["fine"], config["coarse"], 1)


@st.composite
def thread_cases(draw):
    return dict(threads=draw(st.integers(1, 3)), overlap=draw(st.booleans()), ids=draw(st.lists(st.integers(0, 9), min_size=1, max_size=4, unique=True)))


def run_threads(case):
    """Thread pool: samples one after another each have their directory. For samples that overlap see the known finding."""
    overlap = case["overlap"] and case["threads"] > 1
    ids = case["ids"][:case["threads"]] if overlap else case["ids"]
    labels = []
    with scratch() as d:
        d = os.path.realpath(d)
        CwdSim.seen = {}
        CwdSim.barrier = threading.Barrier(len(ids)) if overlap else None
        sim = CwdSim()
        pool = ThreadPool(case["threads"], work_dir=d)
        try:
            got = []
            for group in ([ids] if overlap else [[i] for i in ids]):
                for i in group:
                    ls = sim.level_instance([1.0], [0])
                    ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, 0
                    pool.schedule_sample(sample_tag(0, i), ls)
                t0, n = time.time(), len(got)
                while len(got) < n + len(group):
                    ok, bad, _, _ = pool.get_finished()
                    require(not any(bad.values()), "samples failed: {}", bad)
                    got += [sid for lst in ok.values() for sid, _ in lst]
                    time.sleep(0.002)
                    require(time.time() - t0 < 60, "pool never reported all of {}", group)
                t0 = time.time()
                while any(os.path.exists(os.path.join(d, "output", sample_tag(0, i))) for i in group) and time.time() - t0 < 20:
                    time.sleep(0.002)
        finally:
            os.chdir(d)
            close_pool(pool)
        dirs = {i: os.path.join(d, "output", sample_tag(0, i)) for i in ids}
        for i in ids:
            cwd = CwdSim.seen[int(SamplingPool.compute_seed(sample_tag(0, i)))]
            if overlap and cwd != dirs[i] and cwd in dirs.values():
                require("threads-share-directory" in known_labels("C09"), "sample {} ran in the directory of another sample of the thread pool, {}", i, cwd)
                labels.append("threads-share-directory")
            else:
                require(cwd == dirs[i], "sample {} ran in {}", i, cwd)
            require(os.path.isdir(os.path.join(d, "output", "several_successful", sample_tag(0, i))) == (i < 5), "copy of sample {} is {}kept", i, "" if i >= 5 else "not ")
            require(not os.path.exists(dirs[i]), "directory of sample {} stays", i)
    return labels + (["nt"] if len(ids) > 1 else [])


PARTS = [
    Part("threads", thread_cases(), run_threads, quick=24, thorough=300, shards=2),
    Part("one_process", cases("one"), run, quick=150, thorough=3000, shards=3),
    Part("pbs", cases("pbs"), run, quick=60, thorough=1000, shards=3),
    Part("process", cases("process"), run, quick=40, thorough=600, shards=2),
]
