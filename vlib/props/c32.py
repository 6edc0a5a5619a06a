"""Division of samples into PBS jobs, and the submitted scripts."""
import re
import shlex
import subprocess
import sys
from vlib.common import *
from vlib.sims import PureSim, expected_pair, outcome
from vlib.pbs import FakePBS
from vlib.props.c11 import level_sim
from mlmc.sampling_pool import SamplingPool
from mlmc.sampling_pool_pbs import SamplingPoolPBS

RULE = ("packing: samples of levels with generated task sizes (also summing up to the limit exactly, or so small that the limit on the number of samples is met) are scheduled with polls in between, and the jobs submitted after each "
        "call are compared with a model of the limits; scripts: generated settings, the submitted script is parsed and run by bash with a recording python; real: the scripts are run by bash with the real python, "
        "as the batch system would, and polled. Non-trivial: at least three jobs (packing), select flags or several environment lines (scripts), two levels (real).")
ASSUMPTIONS = ["paths without spaces, settings without braces"]
SETTINGS = dict(optional_pbs_requests=[], env_setting=["cd $MLMC_WORKDIR"], n_nodes=1, n_cores=1, mem="1Gb", walltime="1:00:00", queue="charon_2h", pbs_name="flow123d", python="python3")


class Sims:
    def __init__(self, sizes, m=1, fail=()):
        self.sims = []
        for l, t in enumerate(sizes):
            sim = PureSim(m, fail, task_size=t)
            self.sims.append(level_sim(sim, l))
        self.count = [0] * len(sizes)

    def next(self, l):
        sid = sample_tag(l, self.count[l])
        self.count[l] += 1
        return sid


def job_samples(script):
    import ruamel.yaml as yaml
    with open(script.replace("_job.sh", "_scheduled.yaml")) as f:
        return [[s[0], s[1]] for s in yaml.load(f, yaml.Loader)]


@st.composite
def packing_cases(draw):
    L = draw(st.integers(1, 3))
    sizes = st.sampled_from([0.5, 0.25, 0.125, 0.375, 0.0625, 1.0, 1.5, 4.0, 0.625])
    op = st.one_of(st.tuples(st.integers(0, L - 1), st.integers(1, 12)).map(list), st.tuples(st.integers(0, L - 1), st.integers(1, 12)).map(list), st.just("poll"), st.tuples(st.just("fail"), st.integers(1, 4)).map(list))
    return dict(sizes=draw(st.lists(sizes, min_size=L, max_size=L)), ops=draw(st.lists(op, min_size=1, max_size=10)))


@st.composite
def many_cases(draw):
    op = st.one_of(st.tuples(st.integers(0, 1), st.sampled_from([990, 1000, 1001, 1002, 300, 10, 1])).map(list), st.just("poll"))
    return dict(sizes=[0.0, 2.0 ** -16], ops=draw(st.lists(op, min_size=1, max_size=4)))


def run_packing(case):
    jobs, cur, weight = [], [], 0.0
    with scratch() as d:
        pbs = FakePBS(d)
        pool = SamplingPoolPBS(work_dir=os.path.join(d, "work"))
        pool.pbs_common_setting(**SETTINGS)
        sims = Sims(case["sizes"])

        def check(what):
            got = [job_samples(p) for _, p in pbs.jobs()]
            require(got == jobs, "after {}: jobs {} expected {}", what, [len(j) for j in got], [len(j) for j in jobs])
        for op in case["ops"]:
            if op[0] == "fail":          # the next calls of qsub fail, the samples wait for the next attempt
                pbs.fail("qsub", op[1])
                continue
            if op == "poll":
                if cur and not pbs.failing("qsub"):
                    jobs.append(cur)
                    cur, weight = [], 0.0
                ok, bad, running, _ = pool.get_finished()
                exp = sum(map(len, jobs)) + len(cur)
                require(running == exp and not ok and not bad, "{} samples running, expected {}", running, exp)
            else:
                l, n = op
                for _ in range(n):
                    sid = sims.next(l)
                    works = not pbs.failing("qsub")
                    pool.schedule_sample(sid, sims.sims[l])
                    cur.append([l, sid])
                    weight += case["sizes"][l]
                    if (weight > 1 or len(cur) > 1000) and works:
                        jobs.append(cur)
                        cur, weight = [], 0.0
                    if n <= 12:
                        check("scheduling {}".format(sid))
            check(op)
        paths = [p for _, p in pbs.jobs()]
        require(len(set(paths)) == len(paths), "job scripts {} are not different", paths)
    return ["nt"] if len(jobs) >= 3 or (len(jobs) >= 2 and case["sizes"][0] == 0) else []


@st.composite
def script_cases(draw):
    word = st.text("abcXYZ019_", min_size=1, max_size=8)
    env = st.one_of(word.map(lambda w: "export V_{}={}".format(w, w)), st.just("cd $MLMC_WORKDIR"), st.just("module load python/3.6"), word.map(lambda w: "echo {} >> $MLMC_WORKDIR/log".format(w)))
    c = dict(n_nodes=draw(st.integers(1, 4)), n_cores=draw(st.integers(1, 16)), mem=draw(st.sampled_from(["1Gb", "512mb", "24gb"])), walltime=draw(st.sampled_from(["1:00:00", "48:00:00", "00:20:00"])),
             queue=draw(word), pbs_name=draw(word), optional_pbs_requests=draw(st.lists(st.sampled_from(["#PBS -m ae", "#PBS -M a@b.cz", "#PBS -r n"]), max_size=2, unique=True)),
             env_setting=draw(st.lists(env, max_size=4)))
    flags = draw(st.one_of(st.none(), st.lists(st.sampled_from(["cgroups=cpuacct", "vnode=~luna", "scratch_local=1gb", "cl_tarkil=False"]), max_size=3, unique=True)))
    if flags is not None:
        c["select_flags"] = flags
    if draw(st.booleans()):
        c["std_out_err"] = draw(st.sampled_from(["oe", "n", "eo"]))
    return dict(settings=c, own_python=draw(st.booleans()), n=draw(st.integers(1, 5)), size=draw(st.sampled_from([0.4, 2.0])), debug=draw(st.booleans()))


RECORDER = """#!/bin/bash
echo "$PWD" > "{d}/rec_cwd"
echo "$MLMC_WORKDIR" > "{d}/rec_work"
env > "{d}/rec_env"
printf '%s\\n' "$@" > "{d}/rec_args"
echo to-stdout
echo to-stderr >&2
"""


def run_script(case):
    s = case["settings"]
    with scratch() as d:
        pbs = FakePBS(d)
        work = os.path.join(d, "work")
        rec = os.path.join(d, "mypython" if case["own_python"] else "python3")
        with open(rec, "w") as f:
            f.write(RECORDER.replace("{d}", d))
        os.chmod(rec, 0o755)
        pool = SamplingPoolPBS(work_dir=work, debug=case["debug"])
        given = json.loads(json.dumps(s))
        kw = dict(given)
        if case["own_python"]:
            kw["python"] = rec
        pool.pbs_common_setting(**kw)
        require(given == s, "settings were changed to {}", given)
        sims = Sims([case["size"]])
        for _ in range(case["n"]):
            pool.schedule_sample(sims.next(0), sims.sims[0])
        pool.get_finished()
        jobs = pbs.jobs()
        require(jobs, "nothing was submitted")
        names = set()
        for i, path in jobs:
            require(os.access(path, os.X_OK), "script {} cannot be executed", path)
            lines = [l for l in open(path).read().split("\n") if l.strip()]
            require(lines[0] == "#!/bin/bash", "first line {}", lines[0])
            head = [l for l in lines if l.startswith("#PBS")]
            first = next((k for k, l in enumerate(lines) if not l.startswith("#")), len(lines))
            require(all(not l.startswith("#PBS") for l in lines[first:]), "a request after the first command is ignored by PBS:\n{}", "\n".join(lines))
            opts = {}
            for h in head:
                _, k, v = h.split(None, 2)
                opts.setdefault(k, []).append(v)
            sel = "select={}:ncpus={}:mem={}".format(s["n_nodes"], s["n_cores"], s["mem"]) + "".join(":" + f for f in s.get("select_flags") or [])
            require(sorted(opts.get("-l", [])) == sorted([sel, "walltime=" + s["walltime"]]), "resources {} expected {} and walltime {}", opts.get("-l"), sel, s["walltime"])
            for k, v in (("-q", s["queue"]), ("-N", s["pbs_name"]), ("-j", s.get("std_out_err", "oe")), ("-S", "/bin/bash")):
                require(opts.get(k) == [v], "option {} is {} expected {}", k, opts.get(k), v)
            for r in s["optional_pbs_requests"]:
                require(r in head, "request {} is missing", r)
            outs = opts.get("-o", []) + opts.get("-e", [])
            require(len(outs) == 2 and len(set(outs)) == 2 and all(o.startswith(work) and os.path.isdir(os.path.dirname(o)) for o in outs), "outputs {}", outs)
            require(not names & set(outs), "jobs share an output file {}", outs)
            names |= set(outs)
            env = dict(os.environ, PATH=d + os.pathsep + os.environ["PATH"])
            p = subprocess.run(["/bin/bash", path], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
            args = open(os.path.join(d, "rec_args")).read().split("\n")[:-1]
            require(args[:2] == ["-m", "mlmc.tool.pbs_job"] and len(args) == 4, "the job runs {}", args)
            require(open(os.path.join(d, "rec_work")).read().strip() in (work, ""), "work directory of the job")
            require(args[2].startswith(work) and os.path.isdir(args[2]), "output directory {} of the pool in {}", args[2], work)
            seen = dict(l.split("=", 1) for l in open(os.path.join(d, "rec_env")).read().split("\n") if "=" in l)
            for e in s["env_setting"]:
                m = re.match(r"export (\w+)=(\w+)", e)
                if m:
                    require(seen.get(m.group(1)) == m.group(2), "environment {} of the job misses {}", sorted(seen), e)
            if "cd $MLMC_WORKDIR" in s["env_setting"]:
                require(os.path.realpath(open(os.path.join(d, "rec_cwd")).read().strip()) == os.path.realpath(work), "the job runs in {}", open(os.path.join(d, "rec_cwd")).read())
            body = lines[first:]
            pos = [k for k, l in enumerate(body) if l in s["env_setting"]]
            require([body[k] for k in pos] == s["env_setting"], "environment lines {} expected {}", [body[k] for k in pos], s["env_setting"])
            require(b"to-stdout" not in p.stdout and b"to-stderr" not in p.stdout, "output of the job is not in its file")
            text = [open(os.path.join(os.path.dirname(path), f)).read() for f in os.listdir(os.path.dirname(path)) if "STDOUT" in f]
            require(any("to-stdout" in t and "to-stderr" in t for t in text), "output of the job was not kept")
    return ["nt"] if s.get("select_flags") or len(s["env_setting"]) > 1 else []


@st.composite
def real_cases(draw):
    L = draw(st.integers(1, 3))
    return dict(L=L, n=draw(st.lists(st.integers(1, 4), min_size=L, max_size=L)), size=draw(st.sampled_from([0.1, 0.5])), m=draw(st.integers(1, 2)),
                fail=draw(st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "raise"]), min_size=2, max_size=4))), debug=draw(st.booleans()))


def run_real(case):
    with scratch() as d:
        pbs = FakePBS(d)
        verif = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        pool = SamplingPoolPBS(work_dir=os.path.join(d, "work"), debug=case["debug"])
        pool.pbs_common_setting(**dict(SETTINGS, python=sys.executable + " -B", env_setting=["cd $MLMC_WORKDIR", "export PYTHONPATH={}:{}".format(REPO, verif)]))
        sims = Sims([case["size"]] * case["L"], case["m"], case["fail"])
        ids = {}
        for l in range(case["L"]):
            for _ in range(case["n"][l]):
                sid = sims.next(l)
                ids[sid] = l
                pool.schedule_sample(sid, sims.sims[l])
        require(pool.get_finished()[2] == len(ids), "not all samples run")
        for i, path in pbs.jobs():
            p = subprocess.run(["/bin/bash", path], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
            pbs.set_state(i, "F")
        ok, bad, running, _ = pool.get_finished()
        require(running == 0, "{} samples running after all jobs ended", running)
        got = {}
        for l, rows in ok.items():
            for sid, (f, c) in rows:
                require(sid not in got and ids.get(sid) == l, "sample {} reported on level {}", sid, l)
                got[sid] = (np.asarray(f), np.asarray(c))
        for l, rows in bad.items():
            for sid, msg in rows:
                require(sid not in got and ids.get(sid) == l, "sample {} reported on level {}", sid, l)
                got[sid] = msg
        require(set(got) == set(ids), "reported {} of {}", sorted(got), sorted(ids))
        for sid, l in ids.items():
            seed = SamplingPool.compute_seed(sid)
            if outcome(case["fail"], seed) == "raise":
                require(isinstance(got[sid], str) and "sample with seed" in got[sid], "failed sample {} is {}", sid, got[sid])
            else:
                f, c = expected_pair(seed, 2.0 ** -l, 0 if l == 0 else 2.0 ** (1 - l), case["m"])
                require(not isinstance(got[sid], str) and same(got[sid][0], f) and same(got[sid][1], c), "sample {} is {} expected {}", sid, got[sid], (f, c))
    return ["nt"] if case["L"] > 1 else []


PARTS = [Part("packing", packing_cases(), run_packing, quick=60, thorough=1500, shards=4),
         Part("many_samples", many_cases(), run_packing, quick=6, thorough=60, shards=3),
         Part("scripts", script_cases(), run_script, quick=80, thorough=1500, shards=4),
         Part("real", real_cases(), run_real, quick=8, thorough=120, shards=4)]
