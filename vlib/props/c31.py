"""Density reconstructed from stored samples."""
from vlib.common import *
from vlib.props.c22 import integrate
from mlmc.moments import Legendre, Monomial
from mlmc.estimator import Estimate
from mlmc.quantity.quantity import make_root_quantity

RULE = ("A case is a sample set of a smooth distribution on 1-3 levels (coarse values near the fine ones, some NaN), stored in memory or HDF5 among other quantities, moments (family, size 3-8, logarithmic or not) on a domain holding all or most "
        "of the values, and tolerances. The density built by the estimator is compared with the reference estimate of its moments and, for a single level, with the empirical distribution. Of eight densities at most four may be reported as not found. Non-trivial: the solver reported success with at least three moments.")
ASSUMPTIONS = ["at least 150 samples on level 0, level differences smaller than the values"]


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["normal", "lognormal", "uniform", "gamma", "mix"]))
    L = draw(st.integers(1, 3))
    return dict(kind=kind, loc=draw(st.sampled_from([0.0, 1.0, -5.0, 40.0])), scale=draw(st.sampled_from([1.0, 0.2, 5.0])), seed=draw(st.integers(0, 999)), n=[draw(st.integers(150, 700))] + [draw(st.integers(30, 90)) for _ in range(L - 1)],
                eps=draw(st.sampled_from([0.0, 0.01, 0.05])), R=draw(st.integers(3, 8)), family=draw(st.sampled_from(["leg", "leg", "leg", "mono"])), log=draw(st.booleans()), quantile=draw(st.sampled_from([0.0, 0.01, 0.05])),
                nan=draw(st.integers(0, 3)), storage=draw(st.sampled_from(["mem", "hdf"])), orth=draw(st.sampled_from([None, 1e-4, 1e-2])), tol=draw(st.sampled_from([None, 1e-6, 1e-5])), pos=draw(st.integers(0, 2)))


def samples(case):
    rng = np.random.RandomState(case["seed"])

    def draw(n):
        k = case["kind"]
        if k == "normal":
            x = rng.normal(size=n)
        elif k == "lognormal":
            x = np.exp(0.4 * rng.normal(size=n))
        elif k == "uniform":
            x = rng.uniform(0, 1, n)
        elif k == "gamma":
            x = rng.gamma(3.0, size=n)
        else:
            x = np.where(rng.uniform(size=n) < 0.4, rng.normal(-1, 0.7, n), rng.normal(1, 0.6, n))
        return case["loc"] + case["scale"] * x
    out = []
    for l, n in enumerate(case["n"]):
        f = draw(n)
        c = f + case["eps"] * case["scale"] * rng.normal(size=n) if l else np.zeros(n)
        for i in range(case["nan"]):
            if (i + l) % 2 and l:
                c[7 * i + 1] = np.nan
            else:
                f[5 * i + 2] = np.nan
        out.append((f, c))
    return out


def ref_means(fn, data):
    tot, cov = 0, 0
    for l, (f, c) in enumerate(data):
        m = fn.eval_all(f)
        d = m
        dd = m[:, :, None] * m[:, None, :]
        if l:
            mc = fn.eval_all(c)
            d = m - mc
            dd = dd - mc[:, :, None] * mc[:, None, :]
        ok = ~np.isnan(d).any(axis=1)
        tot = tot + d[ok].mean(axis=0)
        cov = cov + dd[ok].mean(axis=0)
    return tot, cov


def run(case):
    data = samples(case)
    pos = case["pos"]
    specs = vector_format(3)
    levels = []
    for f, c in data:
        arr = np.zeros((len(f), 2, 3))
        arr[:, 0, :], arr[:, 1, :] = 1.5, 0.5
        arr[:, 0, pos], arr[:, 1, pos] = f, c
        levels.append(arr)
    allf = np.concatenate([f[~np.isnan(f)] for f, _ in data] + [c[~np.isnan(c)] for _, c in data[1:]])
    q = case["quantile"]
    a, b = np.percentile(allf, [100 * q, 100 - 100 * q])
    if q == 0:
        w = b - a
        a, b = a - 0.013 * w, b + 0.013 * w
    log = case["log"] and a > 0
    R = case["R"] if case["family"] == "leg" else min(case["R"], 4)
    with scratch() as d, np.errstate(all="ignore"):
        storage = make_storage(case["storage"], d)
        fill_storage(storage, specs, levels)
        qty = make_root_quantity(storage, specs)["q"][1.0]["10"]
        fn = (Legendre if case["family"] == "leg" else Monomial)(R, (a, b), log=log)
        try:
            Estimate(qty, storage, fn).construct_density()
        except NotImplementedError:
            pass
        else:
            require(False, "density of a vector quantity was not refused")
        est = Estimate(qty[pos, 0], storage, fn)
        kw = {}
        if case["orth"] is not None:
            kw["orth_moments_tol"] = case["orth"]
        if case["tol"] is not None:
            kw["tol"] = case["tol"]
        distr, info, result, orth = est.construct_density(**kw)
        mu, cov = ref_means(orth, data)
        R2 = orth.size
        require(2 <= R2 <= R and tuple(orth.domain) == (a, b), "orthogonal moments of size {} on {} from {} on {}", R2, orth.domain, R, (a, b))
        require(np.allclose(cov, np.eye(R2), atol=1e-6 / (case["orth"] or 1e-4) * 1e-2), "covariance of the orthogonal moments {}", cov.tolist())
        if not result.success:
            return ["failed"]
        v, x, w = integrate(distr.density, a, b)
        require(v.shape == x.shape and np.isfinite(v).all() and (v >= 0).all(), "density is negative or not finite")
        total = v @ w
        require(abs(total - 1) <= 1e-6, "density integrates to {}", total)
        got = (v * w) @ orth.eval_all(x)
        require(np.allclose(got, mu, atol=2e-5 + 8 * (case["tol"] or 1e-8)), "moments of the density {} of the samples {}", got.tolist(), mu.tolist())
        if len(data) == 1 and R2 >= 5 and not case["log"]:
            s = np.sort(data[0][0][~np.isnan(data[0][0])])
            s = s[(s >= a) & (s <= b)]
            emp = (np.arange(len(s)) + 0.5) / len(s)
            dist = np.abs(np.asarray(distr.cdf(s)) - emp).max()
            require(dist < 0.2, "distribution function is {} away from the empirical one of {} samples", dist, len(s))
    return ["nt", "L{}".format(len(data))] if R2 >= 3 else []


def run_batch(case):
    """Nearly all densities have to be reconstructed."""
    failed = [c for c in case if run(c) == ["failed"]]
    require(len(failed) <= 4, "{} of {} densities were not reconstructed, the last one from {}", len(failed), len(case), failed[-1:])
    return ["nt"]


PARTS = [Part("batches", st.lists(cases(), min_size=8, max_size=8), run_batch, quick=12, thorough=200),
         Part("samples", cases(), run, quick=150, thorough=4000, shards=4)]
