"""Complete runs: sampling, estimating and adding samples up to a target variance."""
import time
from vlib.common import *
from vlib.sims import close_pool, SimError
from vlib.props.c10 import CLOCK
import scipy.special
from mlmc.sim.simulation import Simulation
from mlmc.level_simulation import LevelSimulation
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool, OneProcessPool, ThreadPool, ProcessPool
from mlmc.quantity.quantity import make_root_quantity
from mlmc.estimator import Estimate, estimate_n_samples_for_target_variance
import mlmc.quantity.quantity_estimate as qe
from mlmc.moments import Legendre

RULE = ("A case is a simulation (pure function of seed and level with generated failures, NaN and costs) with a result format, 1-4 levels, a pool, a storage, Legendre moments on a domain with all or most of the values, "
        "and one to three target variances, each reached by the documented loop of estimating and adding; between the targets the storage may be reopened and a new sampler and pool attached. Everything stored and estimated is "
        "compared with the simulation's function evaluated over the ids. Non-trivial: samples were added to the initial ones, on at least two levels.")
ASSUMPTIONS = ["every level has at least three usable samples among the initial ones", "costs are measured by a controlled clock (one-process pool) or are those of the machine"]
COSTS = []


class RunSim(Simulation):
    def __init__(self, specs, fail, cost):
        self.specs, self.fail, self.cost = specs, fail, cost

    def level_instance(self, fine, coarse):
        return LevelSimulation(config_dict=dict(fine=float(np.atleast_1d(fine)[0]), coarse=float(np.atleast_1d(coarse)[0]), M=specs_size(self.specs), fail=self.fail, cost=self.cost))

    def result_format(self):
        return to_specs(self.specs)

    @staticmethod
    def calculate(config, seed):
        if config["cost"] is not None:
            CLOCK.t += config["cost"] / config["fine"]
        kind, f, c = outcome(config, seed)
        if kind == "raise":
            raise SimError("fails")
        return f, c


def outcome(config, seed):
    seed = int(seed)
    u = (seed % 99991) / 99991.0
    kind = config["fail"][(seed // 99991) % len(config["fail"])] if config["fail"] else "ok"
    k = np.arange(config["M"])

    def model(h):
        return np.cos(5 * u + k) + h * np.sin(17 * u + 2 * k)
    f = model(config["fine"])
    c = model(config["coarse"]) if config["coarse"] else np.zeros(config["M"])
    j = seed % config["M"]
    if kind == "nan_fine":
        f[j] = np.nan
    elif kind == "nan_coarse" and config["coarse"]:
        c[j] = np.nan
    return kind, f, c


@st.composite
def cases(draw, pools):
    L = draw(st.integers(1, 4))
    return dict(L=L, specs=draw(spec_list(max_specs=2, max_dim=2, max_times=2, max_locs=2, max_size=8)), pick=draw(st.lists(st.integers(0, 3), min_size=5, max_size=5)),
                fail=draw(st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "ok", "ok", "raise", "nan_fine", "nan_coarse"]), min_size=2, max_size=6))),
                cost=draw(st.sampled_from([1.0, 1e-3, 20.0])), power=draw(st.sampled_from([1, 2])), init=draw(st.lists(st.integers(8, 25), min_size=L, max_size=L)), R=draw(st.integers(2, 5)),
                domain=draw(st.sampled_from([[-3.0, 3.0], [-2.2, 2.5], [-0.9, 0.95]])), phases=draw(st.lists(st.tuples(st.integers(2, 60), st.sampled_from([0.1, 0.3, 1.0]), st.booleans()).map(list), min_size=1, max_size=3)),
                pool=draw(st.sampled_from(pools)), storage=draw(st.sampled_from(["mem", "hdf"])), regression=draw(st.booleans()))


def make_pool(kind):
    return OneProcessPool() if kind == "one" else ThreadPool(3) if kind == "thread" else ProcessPool(2)


def legendre(v, dom, R):
    t = -1 + 2 * (v - dom[0]) / (dom[1] - dom[0])
    out = np.stack([scipy.special.eval_legendre(k, t) for k in range(R)], axis=-1)
    out[(t < -1) | (t > 1) | np.isnan(t)] = np.nan
    return out


def reference(case, params, n_sched):
    """Per level: list of ids, kinds, fine [N, M], coarse [N, M] of successful samples."""
    out = []
    for l in range(case["L"]):
        cfg = dict(fine=params[l], coarse=params[l - 1] if l else 0.0, M=specs_size(case["specs"]), fail=case["fail"])
        rows = {}
        bad = []
        for i in range(int(n_sched[l])):
            sid = sample_tag(l, i)
            kind, f, c = outcome(cfg, SamplingPool.compute_seed(sid))
            if kind == "raise":
                bad.append(sid)
            else:
                rows[sid] = (f, c)
        out.append((rows, bad))
    return out


def position(case):
    """An index path to a scalar and its position in the result vector."""
    specs, pick = case["specs"], case["pick"]
    s = pick[0] % len(specs)
    spec = specs[s]
    t, o = pick[1] % len(spec["times"]), pick[2] % len(spec["locations"])
    i, j = pick[3] % spec["shape"][0], pick[4] % spec["shape"][1]
    size = int(np.prod(spec["shape"]))
    pos = sum(spec_size(x) for x in specs[:s]) + (t * len(spec["locations"]) + o) * size + i * spec["shape"][1] + j
    return (spec["name"], spec["times"][t], spec["locations"][o], (i, j)), pos


def ref_estimate(ref, pos, dom, R):
    means, lvars, ns = [], [], []
    for l, (rows, _) in enumerate(ref):
        f = legendre(np.array([r[0][pos] for r in rows.values()]), dom, R)
        d = f
        if l:
            d = f - legendre(np.array([r[1][pos] for r in rows.values()]), dom, R)
        d = d[~np.isnan(d).any(axis=1)]
        ns.append(len(d))
        if len(d) < 2:
            return None
        means.append(d.mean(axis=0))
        lvars.append(d.var(axis=0, ddof=1))
    means, lvars = np.array(means), np.array(lvars)
    return means.sum(axis=0), (lvars / np.array(ns)[:, None]).sum(axis=0), means, lvars, ns


def ref_cov(ref, pos, dom, R):
    tot = 0
    for l, (rows, _) in enumerate(ref):
        f = legendre(np.array([r[0][pos] for r in rows.values()]), dom, R)
        d = f[:, :, None] * f[:, None, :]
        if l:
            c = legendre(np.array([r[1][pos] for r in rows.values()]), dom, R)
            d = d - c[:, :, None] * c[:, None, :]
        tot = tot + d[~np.isnan(d).any(axis=(1, 2))].mean(axis=0)
    return tot


def run(case):
    L = case["L"]
    params = [2.0 ** (-case["power"] * l) for l in range(L)]
    path, pos = position(case)
    dom, R = case["domain"], case["R"]
    one = case["pool"] == "one"
    if ref_estimate(reference(case, params, case["init"]), pos, dom, R) is None:
        return []
    saved = time.time, time.perf_counter, time.monotonic
    added = False
    with scratch() as d:
        if one:
            time.time = time.perf_counter = time.monotonic = CLOCK
        pool = None
        try:
            storage = make_storage(case["storage"], d)
            pool = make_pool(case["pool"])
            sim = RunSim(case["specs"], case["fail"], case["cost"] if one else None)
            sampler = Sampler(storage, pool, sim, [[p] for p in params])
            if L > 2:
                sampler.set_initial_n_samples(list(case["init"]))
            else:
                sampler.set_level_target_n_samples(list(case["init"]))
            sampler.schedule_samples()
            while sampler.ask_sampling_pool_for_samples() > 0:
                saved[0]() if one else time.sleep(0.002)
            fn = Legendre(R, tuple(dom))
            before = list(case["init"])
            for k, (factor, coeff, reopen) in enumerate(case["phases"]):
                if reopen and k and case["storage"] == "hdf":
                    storage = SampleStorageHDF(os.path.join(d, "s.hdf5"))
                    close_pool(pool)
                    pool = make_pool(case["pool"])
                    sampler = Sampler(storage, pool, RunSim(case["specs"], case["fail"], case["cost"] if one else None), [[p] for p in params])
                name, t, o, (i, j) = path
                q = make_root_quantity(storage, storage.load_result_format())[name][t][tuple(o) if isinstance(o, list) else o][i, j]
                est = Estimate(q, storage, fn)
                target = None
                steps, done = 0, False
                while not done:
                    if case["regression"] and L > 1:
                        variances, n_ops = est.estimate_diff_vars_regression(sampler.l_scheduled_samples())
                    else:
                        variances, _ = est.estimate_diff_vars()
                        n_ops = storage.get_n_ops()
                    if target is None:
                        target = float(np.max(variances)) / factor
                        if target < 1e-7:
                            return []
                    n_est = estimate_n_samples_for_target_variance(target, variances, n_ops, n_levels=L)
                    done = sampler.process_adding_samples(n_est, 0, coeff)
                    steps += 1
                    require(steps < 500, "adding samples to the target {} does not end: estimated {} scheduled {}", target, list(n_est), sampler.l_scheduled_samples())
                while sampler.ask_sampling_pool_for_samples() > 0:
                    saved[0]() if one else time.sleep(0.002)
                n = [int(x) for x in sampler.l_scheduled_samples()]
                require(all(n[l] >= int(np.ceil(n_est[l])) for l in range(L)), "scheduled {} less than estimated {}", n, list(n_est))
                require(all(a >= b for a, b in zip(n, before)), "scheduled {} after {}", n, before)
                added |= sum(a > b for a, b in zip(n, before)) >= 2
                before = n
                # contents
                ref = reference(case, params, n)
                sched = storage.load_scheduled_samples()
                require([list(sched[l]) for l in range(L)] == [[sample_tag(l, i) for i in range(n[l])] for l in range(L)], "scheduled ids are not those of {} samples", n)
                require([int(x) for x in storage.get_n_collected()] == [len(r[0]) for r in ref], "collected {} of {}", storage.get_n_collected(), [len(r[0]) for r in ref])
                require([int(x) for x in storage.n_finished()] == n, "finished {} of {}", storage.n_finished(), n)
                if case["storage"] == "hdf":
                    failed = storage.failed_samples()
                    got = [sorted(x[0] if isinstance(x, (tuple, list)) else x for x in failed.get(str(l), failed.get(l, []))) for l in range(L)]
                    require(got == [sorted(r[1]) for r in ref], "failed {} expected {}", failed, [r[1] for r in ref])
                ops = storage.get_n_ops()
                if one:
                    exp = [case["cost"] / p for p in params]
                    require(np.allclose(ops, exp, rtol=1e-4), "cost per sample {} expected {}", ops, exp)
                # estimates
                r = ref_estimate(ref, pos, dom, R)
                mean, var = est.estimate_moments()
                require(np.allclose(mean, r[0], rtol=1e-9, atol=1e-11) and np.allclose(var, r[1], rtol=1e-8, atol=1e-13), "moments {} and variances {} expected {} and {}", mean, var, r[0], r[1])
                lv, ns = est.estimate_diff_vars()
                require(np.allclose(lv, r[3], rtol=1e-8, atol=1e-12) and [int(x) for x in ns] == r[4], "level variances {} of {} samples expected {} of {}", lv, ns, r[3], r[4])
                qm = qe.estimate_mean(qe.moments(q, fn))
                require(np.allclose(qm.l_means, r[2], rtol=1e-9, atol=1e-11), "level means {} expected {}", qm.l_means, r[2])
                cov, _ = est.estimate_covariance()
                require(np.allclose(cov, ref_cov(ref, pos, dom, R), rtol=1e-9, atol=1e-11), "covariance {} expected {}", cov, ref_cov(ref, pos, dom, R))
        finally:
            time.time, time.perf_counter, time.monotonic = saved
            close_pool(pool)
    return ["nt"] if added else ["ran"]


PARTS = [Part("one_process", cases(["one"]), run, quick=200, thorough=4000, shards=4, hang_cpu=120),
         Part("workers", cases(["thread", "thread", "process"]), run, quick=24, thorough=400, shards=3, hang_cpu=120, hang_wall=200)]
