"""Level parameters, initial numbers of samples, regression of variances, estimated domain."""
from vlib.common import *
from vlib import qref
from mlmc import estimator
from mlmc.estimator import Estimate
from mlmc.moments import Legendre
from mlmc.quantity.quantity import make_root_quantity
from mlmc.sampler import Sampler
from mlmc.sampling_pool import OneProcessPool
from mlmc.sim.simulation import Simulation

RULE = ("setup: step ranges, level counts and numbers of samples against geometric sequences, also as scheduled by a sampler; regression: variance tables of 1-7 levels, on the model, noisy "
        "and scaled, against polynomial regression of logarithms; domain: samples with NaN on 1-4 levels in both storages, against percentiles of every level. Non-trivial: at "
        "least three levels (setup), five levels off the model (regression), or a range that is not that of level 0 (domain).")
ASSUMPTIONS = ["variances above 1e-6, so that the table is not taken as zero", "every level has a sample without NaN", "the quantile is given explicitly"]


class Null(Simulation):
    def __init__(self):
        self.need_workspace = False

    def level_instance(self, fine_level_params, coarse_level_params):
        from mlmc.level_simulation import LevelSimulation
        return LevelSimulation(config_dict={}, task_size=1, calculate=Null.calculate, need_sample_workspace=False)

    @staticmethod
    def calculate(config, seed):
        return np.zeros(1), np.zeros(1)

    def result_format(self):
        return vector_format(1)


@st.composite
def setup_cases(draw):
    b = draw(st.integers(1, 500)) / 1000.0
    return dict(step=[b * draw(st.sampled_from([1.01, 1.5, 2.0, 10.0, 100.0])), b], L=draw(st.integers(1, 8)),
                n=draw(st.one_of(st.none(), st.lists(st.integers(1, 300), min_size=1, max_size=2), st.integers(1, 200), st.just("full"))),
                full=draw(st.lists(st.integers(0, 30), min_size=8, max_size=8)), run=draw(st.booleans()))


def geometric(n0, nL, L):
    if L == 1:
        return np.array([float(n0)])
    return n0 * (nL / n0) ** (np.arange(L) / (L - 1))


def check_numbers(got, n0, nL, L, what):
    got = np.asarray(got)
    require(got.shape == (L,) and got.dtype.kind == "i", "{}: {} is not one whole number per level", what, got)
    ref = geometric(n0, nL, L)
    require((np.abs(got - ref) <= 0.5 + 1e-6 * ref).all(), "{}: {} expected the rounded {}", what, got.tolist(), ref.tolist())
    require(got[0] == n0 and (L == 1 or got[-1] == nL), "{}: ends {} of given {} and {}", what, got.tolist(), n0, nL)


def run_setup(case):
    L = case["L"]
    for f in (lambda: estimator.determine_level_parameters(L, list(case["step"])), lambda: estimator.calc_level_params(list(case["step"]), L)):
        p = f()
        require(len(p) == L and all(len(x) == 1 for x in p), "level parameters {} for {} levels", p, L)
        h = np.array([x[0] for x in p])
        if L == 1:
            require(np.isclose(h[0], case["step"][1]), "one level has the step {} instead of the finest of {}", h[0], case["step"])
        else:
            require(np.allclose(h, geometric(case["step"][0], case["step"][1], L), rtol=1e-9), "steps {} are not geometric from {}", h.tolist(), case["step"])
            require((np.diff(h) < 0).all(), "steps {} do not decrease", h.tolist())
    n = case["n"]
    if n == "full":
        if L < 3:
            return []
        got = np.asarray(estimator.determine_n_samples(L, case["full"][:L]))
        require(same(got, np.array(case["full"][:L])), "given numbers {} became {}", case["full"][:L], got.tolist())
    else:
        ends = [100, 3] if n is None else [n, 3] if isinstance(n, int) else n + [3] if len(n) == 1 else n
        check_numbers(estimator.determine_n_samples(L, n), ends[0], ends[1], L, "determine_n_samples({})".format(n))
    if case["run"]:
        storage = Memory()
        s = Sampler(sample_storage=storage, sampling_pool=OneProcessPool(), sim_factory=Null(), level_parameters=[[h] for h in geometric(1.0, 0.1, L)])
        if n == "full":
            s.set_initial_n_samples(case["full"][:L])
            exp = case["full"][:L]
        else:
            small = n if n is None else min(n, 25) if isinstance(n, int) else [min(k, 25) for k in n]
            ends = [100, 10] if n is None else [small, 10] if isinstance(small, int) else small + [10] if len(small) == 1 else small
            s.set_initial_n_samples(small)
            exp = s.sample_range(ends[0], ends[1])
            check_numbers(exp, ends[0], ends[1], L, "sample_range")
        s.schedule_samples()
        got = [len(x) for _, x in sorted(storage.load_scheduled_samples().items())]
        got += [0] * (L - len(got))
        require(got == list(exp), "scheduled {} samples, initial numbers {}", got, list(exp))
    return ["nt"] if L >= 3 else []


@st.composite
def reg_cases(draw):
    L = draw(st.integers(1, 7))
    M = draw(st.integers(1, 3))
    k = st.integers(-20, 20).map(lambda i: i / 10.0)
    return dict(L=L, h=[1.0, draw(st.sampled_from([0.5, 0.1, 0.01]))], order=draw(st.one_of(st.none(), st.permutations(range(L)))), model=[[draw(k), draw(k), draw(k) / 10.0] for _ in range(M)], unit=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e-12])),
                zero=draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(1, 6), st.integers(0, 2)).map(list), max_size=4))), v0=[draw(st.integers(1, 50)) / 10.0 for _ in range(M)],
                noise=draw(st.one_of(st.none(), st.lists(k, min_size=L * M, max_size=L * M))), scale=draw(st.sampled_from([1.0, 3.0, 100.0])),
                n=draw(st.lists(st.integers(3, 50), min_size=L, max_size=L)), kind=draw(st.sampled_from(["mem", "hdf"])))


def run_reg(case):
    with scratch() as d, np.errstate(all="ignore"):
        L, M = case["L"], len(case["model"])
        h = geometric(case["h"][0], case["h"][1], L)
        if case["order"] is not None:
            h = h[list(case["order"])]
        x = np.log(h)
        raw = np.zeros((L, M + 1))
        for m, (a, b, c) in enumerate(case["model"]):
            raw[:, m + 1] = np.exp(a + b * x / 2 + c * x ** 2)
            raw[0, m + 1] = case["v0"][m]
        if case["noise"] is not None:
            raw[:, 1:] *= np.exp(np.array(case["noise"]).reshape(L, M) / 4)
        raw = np.maximum(raw, 1e-5) * case["unit"]
        raw[:, 0] = 0
        for l, m in case["zero"]:
            if l % L:
                raw[l % L, 1 + m % M] = 0
        storage = make_storage(case["kind"], d)
        fill_storage(storage, vector_format(1), [arr_values(l, 2, 1) for l in range(L)], level_params=[[y] for y in h])
        storage.save_n_ops([(l, [0.5 * (l + 1) * 4, 4]) for l in range(L)])
        q = make_root_quantity(storage, vector_format(1))["q"][1.0]["10"][0, 0]
        est = Estimate(q, storage, moments_fn=Legendre(M + 1, (-3, 3)))
        given = raw.copy()
        got, ops = est.estimate_diff_vars_regression(case["n"], raw_vars=given)
        require(same(given, raw), "the passed variances were changed")
        got = np.asarray(got)
        require(got.shape == raw.shape and same(got[0], raw[0]), "variances of level 0 changed: {} to {}", raw[0].tolist(), got[0].tolist() if got.ndim == 2 else got)
        require((got[:, 0] == 0).all() and (got[:, 1:] >= 0).all() and np.isfinite(got).all(), "regression of {} gives {}", raw.tolist(), got.tolist())
        require(np.allclose(np.ravel(ops), np.ravel(storage.get_n_ops())), "cost {} differs from the stored {}", ops, storage.get_n_ops())
        if L < 3:
            require(same(got, raw), "fewer than three levels: {} changed to {}", raw.tolist(), got.tolist())
        else:
            for m in range(1, M + 1):
                if (raw[1:, m] == 0).any():        # has no logarithm, finite is enough
                    continue
                require((got[:, m] > 0).all(), "regression of {} gives {}", raw[:, m].tolist(), got[:, m].tolist())
                y = np.log(raw[1:, m])
                fit = np.polynomial.polynomial.Polynomial.fit(x[1:], y, min(2, L - 2))(x[1:])
                require(np.allclose(np.log(got[1:, m]), fit, atol=1e-6), "moment {}: regressed {} expected {} from {}", m, got[1:, m].tolist(), np.exp(fit).tolist(), raw[1:, m].tolist())
            k = case["scale"]
            again, _ = est.estimate_diff_vars_regression(case["n"], raw_vars=raw * k)
            require(np.allclose(again, got * k, rtol=1e-6, atol=0), "scaling variances by {} does not scale the regressed ones", k)
    return ["nt"] if L >= 5 and case["noise"] is not None else []


@st.composite
def dom_cases(draw):
    L = draw(st.integers(1, 4))
    return dict(kind=draw(st.sampled_from(["mem", "hdf", "wide"])), n=draw(st.lists(st.integers(1, 12), min_size=L, max_size=L)), shift=draw(st.lists(st.integers(-5, 5), min_size=L, max_size=L)),
                q=draw(st.sampled_from([0.01, 0.05, 0.1, 0.25, 0.5, 1e-6])), seed=draw(st.integers(0, 10 ** 5)),
                nan=draw(st.lists(st.tuples(st.integers(0, 3), st.integers(1, 11)).map(list), max_size=4)), vec=draw(st.booleans()), module=draw(st.booleans()))


def run_dom(case):
    with scratch() as d, np.errstate(all="ignore"):
        m = 400 if case["kind"] == "wide" else 2
        levels = [arr_values(case["seed"] + l, n, m) + case["shift"][l] for l, n in enumerate(case["n"])]
        for l, i in case["nan"]:
            a = levels[l % len(levels)]
            if i < len(a):
                a[i, 0, :] = np.nan
        storage = make_storage("mem" if case["kind"] == "mem" else "hdf", d)
        fill_storage(storage, vector_format(m), levels)
        base = make_root_quantity(storage, vector_format(m))["q"][1.0]["10"]
        q, vals = (base, [a[:, 0, :].ravel() for a in levels]) if case["vec"] else (base[1, 0], [a[:, 0, 1] for a in levels])
        f = estimator.estimate_domain if case["module"] else Estimate.estimate_domain
        lo, hi = f(q, storage, quantile=case["q"])
        r = np.array([np.nanquantile(v, [case["q"], 1 - case["q"]]) for v in vals])
        require(np.isclose(lo, r[:, 0].min(), atol=1e-9) and np.isclose(hi, r[:, 1].max(), atol=1e-9), "domain {} expected {}; level ranges {}", (lo, hi),
                (r[:, 0].min(), r[:, 1].max()), r.tolist())
    return ["nt"] if len(r) > 1 and (r[0, 0] != r[:, 0].min() or r[0, 1] != r[:, 1].max()) else []


PARTS = [Part("setup", setup_cases(), run_setup, quick=400, thorough=8000),
         Part("regression", reg_cases(), run_reg, quick=60, thorough=3000),
         Part("domain", dom_cases(), run_dom, quick=250, thorough=6000)]
