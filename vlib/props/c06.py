"""Completions interleaved with polling, under a controlled scheduler.

The pool is the real ThreadPool.  Samples wait at a gate inside the simulation; the harness opens gates, so it decides
when a sample completes.  A trace function on the bytecodes of /repo/mlmc decides where the other thread is preempted:

  mode "poll":     the main thread is stopped at the k-th bytecode of get_finished(), completions are delivered in full
                   by the pool's own result thread, then polling goes on;
  mode "complete": the pool's result thread is stopped at the k-th bytecode of processing a completion, the main thread
                   polls in full, then the completion goes on.
"""
import multiprocessing.pool as mpp
import sys
import threading
import time
from vlib.common import *
from vlib.sims import close_pool, SimError, expected_pair
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.sampling_pool import ThreadPool, SamplingPool

RULE = ("A case is a sequence of rounds on one ThreadPool; each round submits samples on generated levels (some failing), "
        "completes some beforehand, and completes others exactly at a generated bytecode of the polling code (or polls at a "
        "generated bytecode of the completion code). After draining, every sample must have been handed out exactly once. "
        "Non-trivial: the preemption point was reached in at least one round.")
ASSUMPTIONS = ["preemption is placed on bytecode boundaries of the code in /repo/mlmc; inside the standard library's "
               "queue and multiprocessing the threads run freely"]

GATES = {}
DELIVERED = threading.Semaphore(0)
_orig_set = mpp.ApplyResult._set


def _set(self, i, obj):
    try:
        return _orig_set(self, i, obj)
    finally:
        DELIVERED.release()


mpp.ApplyResult._set = _set

PREFIX = os.path.join(REPO, "mlmc") + os.sep
ARM = dict(thread=None, left=None, action=None, fired=False, seen=0)


def _local(frame, event, arg):
    if event == "opcode" and ARM["left"] is not None and ARM["thread"](threading.current_thread()):
        ARM["seen"] += 1
        if ARM["left"] == 0:
            ARM["left"] = None
            ARM["fired"] = True
            ARM["action"]()
        else:
            ARM["left"] -= 1
    return _local


def tracer(frame, event, arg):
    if frame.f_code.co_filename.startswith(PREFIX):
        frame.f_trace_opcodes = True
        return _local
    return None


class GateSim(Simulation):
    @staticmethod
    def calculate(config, seed):
        gate, kind = GATES[int(seed)]
        if not gate.wait(120):
            raise HarnessError("gate never opened")
        if kind == "raise":
            raise SimError("fails {}".format(int(seed)))
        return expected_pair(seed, config["fine"], config["coarse"], 2)

    def level_instance(self, f, c):
        return LevelSimulation(config_dict=dict(fine=f[0], coarse=c[0]))

    def result_format(self):
        return vector_format(2)


def level_sim(level):
    sim = GateSim()
    ls = sim.level_instance([2.0 ** -level], [0 if level == 0 else 2.0 ** (1 - level)])
    ls._calculate, ls._result_format, ls._level_id = sim.calculate, sim.result_format, level
    return ls


N_THREADS = 6

round_st = st.fixed_dictionaries(dict(
    samples=st.lists(st.tuples(st.integers(0, 2), st.sampled_from(["ok", "ok", "raise"])).map(list), min_size=1, max_size=N_THREADS),
    done=st.integers(0, N_THREADS), at=st.integers(1, 3), k=st.integers(0, 260), mode=st.sampled_from(["poll", "poll", "complete"]),
    drain=st.booleans()))
cases = st.fixed_dictionaries(dict(rounds=st.lists(round_st, min_size=1, max_size=6)))


class Run:
    def __init__(self):
        self.expect, self.got = {}, {}
        self.submitted = 0
        self.n_reached = 0

    def take(self, polled):
        ok, bad, n_running, _ = polled
        for level, lst in ok.items():
            for sid, (f, c) in lst:
                require(sid in self.expect, "unknown id {}", sid)
                require(sid not in self.got, "{} handed out twice", sid)
                el, kind = self.expect[sid]
                require(el == level, "{} handed out on level {} instead of {}", sid, level, el)
                require(kind == "ok", "failing {} handed out as successful", sid)
                ef, ec = expected_pair(SamplingPool.compute_seed(sid), 2.0 ** -el, 0 if el == 0 else 2.0 ** (1 - el), 2)
                require(same(f, ef) and same(c, ec), "{} handed out with a wrong result", sid)
                self.got[sid] = 1
        for level, lst in bad.items():
            for sid, err in lst:
                require(sid in self.expect and sid not in self.got, "{} unknown or handed out twice", sid)
                el, kind = self.expect[sid]
                require(el == level and kind == "raise", "{} wrongly reported as failed on level {}", sid, level)
                require("fails {}".format(int(SamplingPool.compute_seed(sid))) in err, "wrong error of {}: {}", sid, err)
                self.got[sid] = 1
        left = self.submitted - len(self.got)
        require(n_running >= 0, "number of running samples is {}", n_running)
        require((n_running == 0) == (left == 0), "pool reports {} running while {} submitted samples were not handed out", n_running, left)
        return left


def deliver(ids, timeout):
    """Open the gates and wait until the pool's result thread has processed that many results."""
    n = 0
    for sid in ids:
        GATES[int(SamplingPool.compute_seed(sid))][0].set()
    for _ in ids:
        if DELIVERED.acquire(timeout=timeout):
            n += 1
    return n


def run(case):
    GATES.clear()
    while DELIVERED.acquire(blocking=False):
        pass
    ARM.update(left=None, fired=False)
    threading.settrace(tracer)
    try:
        pool = ThreadPool(N_THREADS)
    finally:
        threading.settrace(None)
    main = threading.current_thread()
    R = Run()
    serial = 0
    try:
        for r in case["rounds"]:
            ids = []
            for level, kind in r["samples"]:
                sid = "L{:02d}_S{:07d}".format(level, serial)
                serial += 1
                GATES[int(SamplingPool.compute_seed(sid))] = (threading.Event(), kind)
                R.expect[sid] = (level, kind)
                R.submitted += 1
                pool.schedule_sample(sid, level_sim(level))
                ids.append(sid)
            n_done = min(r["done"], len(ids) - 1)
            first, rest = ids[:n_done], ids[n_done:]
            pending = deliver(first, 60) - len(first)
            require(pending == 0, "the pool did not process {} completed samples", -pending)
            now, later = rest[:r["at"]], rest[r["at"]:]
            owed = 0
            if r["mode"] == "poll":
                state = dict(n=0)

                def action():
                    state["n"] = deliver(now, 0.25)
                ARM.update(thread=lambda t: t is main, left=r["k"], action=action, fired=False)
                sys.settrace(tracer)
                try:
                    polled = pool.get_finished()
                finally:
                    sys.settrace(None)
                fired = ARM["fired"]
                ARM.update(left=None, fired=False)
                if fired:
                    owed = len(now) - state["n"]
                else:
                    owed = 0
                    for s in now:
                        GATES[int(SamplingPool.compute_seed(s))][0].set()
                    owed = len(now)
                R.take(polled)
            else:
                paused, resume = threading.Event(), threading.Event()

                def action():
                    paused.set()
                    resume.wait(0.25)
                one, more = now[:1], now[1:]
                ARM.update(thread=lambda t: t is not main, left=r["k"] % 130, action=action, fired=False)
                for s in one:
                    GATES[int(SamplingPool.compute_seed(s))][0].set()
                t0 = time.time()
                got_one = False
                while time.time() - t0 < 30:
                    if paused.wait(0.0005):
                        break
                    if DELIVERED.acquire(blocking=False):
                        got_one = True
                        break
                fired = paused.is_set()
                polled = pool.get_finished()
                ARM.update(left=None, fired=False)
                resume.set()
                R.take(polled)
                for s in more:
                    GATES[int(SamplingPool.compute_seed(s))][0].set()
                owed = (0 if got_one else 1) + len(more)
            R.n_reached += bool(fired)
            for s in later:
                GATES[int(SamplingPool.compute_seed(s))][0].set()
            owed += len(later)
            for _ in range(owed):
                require(DELIVERED.acquire(timeout=60), "the pool never processed a completed sample")
            if r["drain"]:
                left = R.take(pool.get_finished())
                require(left == 0, "{} completed samples were not handed out: {}", left, sorted(set(R.expect) - set(R.got)))
        left = R.take(pool.get_finished())
        require(left == 0, "{} completed samples were never handed out: {}", left, sorted(set(R.expect) - set(R.got)))
        ok, bad, n_running, _ = pool.get_finished()
        require(not ok and not bad and n_running == 0, "samples handed out after everything was")
    finally:
        for g, _ in GATES.values():
            g.set()
        close_pool(pool)
    return (["nt"] if R.n_reached else []) + ["reached {}".format(min(3, R.n_reached))]


PARTS = [Part("interleavings", cases, run, quick=400, thorough=8000, shards=6, hang_cpu=120, hang_wall=200)]
