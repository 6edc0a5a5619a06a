"""Simulations and pools used by the harness (all state is in the configuration, so they work in any pool)."""
import multiprocessing.pool
import os
import numpy as np
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.quantity.quantity_spec import QuantitySpec
from mlmc.sampling_pool import SamplingPool


class SimError(Exception):
    pass


def outcome(case_fail, seed):
    """Failure kind of a sample, a pure function of its seed; case_fail: list of kinds indexed by seed."""
    if not case_fail:
        return "ok"
    return case_fail[int(seed) % len(case_fail)]


def expected_pair(seed, fine, coarse, m):
    """What the pure simulation returns."""
    base = (int(seed) % 1000003) / 1000003.0
    k = np.arange(m)
    f = base + fine * (1 + k) + k / 7.0
    c = np.zeros(m) if coarse == 0 else base + coarse * (1 + k) + k / 7.0
    return f, c


class PureSim(Simulation):
    """Result depends on seed and level parameters only. config: m, fail (list of outcome kinds by seed)."""

    def __init__(self, m=2, fail=(), common_files=None, workspace=False, task_size=0.1, shift=0.0):
        self.shift = shift
        self.m, self.fail = m, list(fail)
        self.common_files, self.workspace, self.task_size = common_files, workspace, task_size
        self.instances = []

    def level_instance(self, fine_level_params, coarse_level_params):
        self.instances.append((list(np.atleast_1d(fine_level_params)), list(np.atleast_1d(coarse_level_params))))
        cfg = dict(fine=float(np.atleast_1d(fine_level_params)[0]), coarse=float(np.atleast_1d(coarse_level_params)[0]),
                   m=self.m, fail=self.fail, shift=self.shift)
        return LevelSimulation(config_dict=cfg, common_files=self.common_files, need_sample_workspace=self.workspace,
                               task_size=self.task_size)

    def result_format(self):
        return [QuantitySpec(name="q", unit="m", shape=(self.m, 1), times=[1.0], locations=["10"])]

    @staticmethod
    def calculate(config, seed):
        kind = outcome(config["fail"], seed)
        if kind == "raise":
            raise SimError("sample with seed {} fails".format(int(seed)))
        f, c = expected_pair(seed, config["fine"], config["coarse"], config["m"])
        return f + config["shift"], (c + config["shift"] if config["coarse"] != 0 else c)


class ManualPool(SamplingPool):
    """A pool under the harness' control: samples run when scheduled, but are handed out only when released.
    `release` decides how many of the waiting samples each poll hands out and from which end."""

    def __init__(self, plan=(), max_polls=100000):
        super().__init__()
        self.plan = list(plan)            # one [count, order] per poll, cyclic; empty: everything
        self.waiting = []                 # (level, id, result, err)
        self.submitted = []               # (id, level_id) in order
        self.polls = 0
        self.max_polls = max_polls

    def schedule_sample(self, sample_id, level_sim):
        self.submitted.append((sample_id, level_sim._level_id))
        sid, res, err, t = SamplingPool.calculate_sample(sample_id, level_sim)
        self.waiting.append((level_sim._level_id, sid, res, err, t))

    def have_permanent_samples(self, sample_ids):
        self.permanent = list(sample_ids)
        return False

    def get_finished(self):
        from vlib.core import Violation
        self.polls += 1
        if self.polls > self.max_polls:
            raise Violation("the pool was polled {} times without the caller giving up or progressing".format(self.polls))
        if self.plan:
            n, order = self.plan[(self.polls - 1) % len(self.plan)]
            if self.polls > 50 * (1 + len(self.plan)) and n == 0:
                n = 1                     # every sample finishes eventually
        else:
            n, order = len(self.waiting), 0
        n = min(n, len(self.waiting))
        if order == 0:
            out, self.waiting = self.waiting[:n], self.waiting[n:]
        else:
            out, self.waiting = self.waiting[len(self.waiting) - n:][::-1], self.waiting[:len(self.waiting) - n]
        ok, bad = {}, {}
        for level, sid, res, err, t in out:
            if err:
                bad.setdefault(level, []).append((sid, err))
            else:
                ok.setdefault(level, []).append((sid, (res[0], res[1])))
        return ok, bad, len(self.waiting), []


def close_pool(pool):
    """Ends the workers of a process or thread pool, wherever the pool object keeps them."""
    for v in list(vars(pool).values()) if pool is not None else []:
        if isinstance(v, multiprocessing.pool.Pool):
            v.terminate()
