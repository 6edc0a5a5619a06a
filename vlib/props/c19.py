"""Subsampling and bootstrap."""
from vlib.common import *
from vlib import qref
import mlmc.quantity.quantity as quantity_module
from mlmc.quantity.quantity_estimate import estimate_mean, moments
from mlmc.estimator import Estimate, estimate_n_samples_for_target_variance
from mlmc.moments import Monomial, Legendre

RULE = ("subsample: a result format with samples on 1-3 levels (memory, HDF5, HDF5 with several chunks per level) and a requested number per level; the "
        "subsample, and quantities derived from it, are read twice and estimated. bootstrap: scalar quantity, generated vector and repetitions. "
        "repetitions: samples 0 and 1, whose averages are multiples of 1 / (samples x repetitions). reach: repeated subsamples until every stored sample was seen. Non-trivial: some level has fewer requested than stored samples or several chunks.")
ASSUMPTIONS = ["a sample may be drawn repeatedly (bootstrap)", "samples are not added between creating and reading a subsample"]


def reseed(case):
    # the module's generator is unseeded; seeding it makes failures reproducible, the oracle does not depend on it
    if hasattr(quantity_module, "RNG"):
        quantity_module.RNG = np.random.default_rng(case["seed"])


@st.composite
def cases(draw):
    c = draw(qref.data(max_specs=2, max_levels=3, max_n=8))
    c["k"] = [draw(st.sampled_from([1, 2, 3, 5, 8, 12, "all", "all"])) for _ in c["n"]]
    c["path"] = draw(st.lists(qref.step, max_size=5))
    c["after"] = draw(st.booleans())
    return c


def numbers(case):
    return [n if k == "all" else min(k, n) for n, k in zip(case["n"], case["k"])]


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        reseed(case)
        storage, root, t, vals, _ = qref.build(case, d)
        k = numbers(case)
        if case["after"]:
            q, qt, v = qref.walk(root.subsample(k), t, vals, case["path"])[-1]
        else:
            q0, qt, v = qref.walk(root, t, vals, case["path"])[-1]
            q = q0.subsample(k)
        require(q.size() == qref.type_size(qt), "subsample has size {} instead of {}", q.size(), qref.type_size(qt))
        for l, stored in enumerate(v):
            got = read_level(q, storage, l)
            require(got.shape == (stored.shape[0], k[l], stored.shape[2]), "level {}: subsample of {} has shape {}, data {}", l, k[l], got.shape, stored.shape)
            cols = {stored[:, i].tobytes() for i in range(stored.shape[1])}
            for i in range(k[l]):
                require(np.ascontiguousarray(got[:, i]).tobytes() in cols, "level {}: {} is not one of the stored samples", l, got[:, i].tolist())
            # an expression of the subsample takes all its operands from one draw
            der = read_level(q * 3.0 - q, storage, l)
            for i in range(k[l]):
                require(any(close(der[:, i], 2 * stored[:, j]) for j in range(stored.shape[1])), "level {}: 3 q - q of a subsample mixes different samples", l)
        e = estimate_mean(q)
        require(list(e.n_samples) == list(k), "estimate from the subsample used {} samples, requested {}", list(e.n_samples), k)
        for l, stored in enumerate(v):
            diff = stored[..., 0] if l == 0 else stored[..., 0] - stored[..., 1]
            m = e.l_means[l].ravel()
            require(np.all(m >= diff.min(axis=1) - 1e-9) and np.all(m <= diff.max(axis=1) + 1e-9), "level {}: mean {} outside of the range of samples", l, m.tolist())
            if k[l] == 1:
                require(any(close(m, diff[:, i]) for i in range(diff.shape[1])), "level {}: mean of one sample is none of the samples", l)
        chunks = len(list(storage.chunks()))
    return ["nt"] if any(a < b for a, b in zip(k, case["n"])) or chunks > len(k) else []


@st.composite
def boot_cases(draw):
    kind = draw(st.sampled_from(["mem", "mem", "hdf", "wide"]))
    L = draw(st.integers(1, 3))
    n = draw(st.lists(st.integers(2, 9), min_size=L, max_size=L))
    return dict(kind=kind, n=n, k=draw(st.one_of(st.none(), st.lists(st.integers(2, 9), min_size=L, max_size=L + 1))), reps=draw(st.integers(2, 6)),
                R=draw(st.integers(1, 4)), family=draw(st.sampled_from(["mono", "leg"])), equal=draw(st.integers(0, 3)) == 0, given_fn=draw(st.booleans()),
                seed=draw(st.integers(0, 10 ** 6)))


def setup(case, d):
    m = 400 if case["kind"] == "wide" else 2
    levels = [arr_values(case["seed"] + l, n, m) for l, n in enumerate(case["n"])]
    if case.get("equal"):
        levels = [np.repeat(a[:1], len(a), axis=0) for a in levels]
    storage = make_storage("mem" if case["kind"] == "mem" else "hdf", d)
    fill_storage(storage, vector_format(m), levels)
    q = quantity_module.make_root_quantity(storage, vector_format(m))["q"][1.0]["10"][1, 0]
    fn = (Monomial if case["family"] == "mono" else Legendre)(case["R"], (-2.5, 2.5))
    return storage, levels, q, fn


def bound_check(est, levels, fn, k):
    L, R = len(levels), fn.size
    shapes = dict(mean_bs_mean=(R,), mean_bs_var=(R,), mean_bs_l_means=(L, R), mean_bs_l_vars=(L, R), var_bs_mean=(R,), var_bs_var=(R,), var_bs_l_means=(L, R),
                  var_bs_l_vars=(L, R))
    for name, s in shapes.items():
        a = np.asarray(getattr(est, name))
        require(a.shape == s and np.isfinite(a).all(), "{} = {}, expected finite values of shape {}", name, a.tolist(), s)
        require(name in ("mean_bs_mean", "mean_bs_l_means") or (a >= -1e-12).all(), "{} = {} is negative", name, a.tolist())
    require(close(est.mean_bs_l_means.sum(axis=0), est.mean_bs_mean, atol=1e-9), "mean over repetitions is not the sum of its levels")
    exp = (est.mean_bs_l_vars / np.array(k)[:, None]).sum(axis=0)
    require(close(est.mean_bs_var, exp, rtol=1e-7, atol=1e-10), "variance {} does not correspond to {} samples per level: {}", est.mean_bs_var.tolist(), list(k), exp.tolist())
    for l, a in enumerate(levels):
        f, c = fn.eval_all(a[:, 0, 1]), fn.eval_all(a[:, 1, 1])
        diff = f if l == 0 else f - c
        require((est.mean_bs_l_means[l] >= diff.min(axis=0) - 1e-9).all() and (est.mean_bs_l_means[l] <= diff.max(axis=0) + 1e-9).all(),
                "level {}: bootstrap mean {} outside of the range of the samples", l, est.mean_bs_l_means[l].tolist())
        # the average of unbiased variances of samples within [min, max]
        span = diff.max(axis=0) - diff.min(axis=0)
        require((est.mean_bs_l_vars[l] <= span ** 2 * 0.5 * 1.0001 + 1e-9).all(), "level {}: bootstrap variance {} above its largest possible value", l, est.mean_bs_l_vars[l].tolist())


def run_boot(case):
    with scratch() as d, np.errstate(all="ignore"):
        reseed(case)
        storage, levels, q, fn = setup(case, d)
        k = case["n"] if case["k"] is None else [min(a, b) for a, b in zip(case["k"], case["n"])]
        vec = None if case["k"] is None else k + case["k"][len(k):]
        est = Estimate(q, storage, moments_fn=Legendre(2, (-9., 9.)) if case["given_fn"] else fn)
        kw = dict(moments_fn=fn) if case["given_fn"] else {}
        est.est_bootstrap(n_subsamples=case["reps"], sample_vector=vec, **kw)
        bound_check(est, levels, fn, k)
        if case["equal"]:
            e = estimate_mean(moments(q, fn))
            require(close(est.mean_bs_mean, e.mean, atol=1e-9) and close(est.mean_bs_l_means, e.l_means, atol=1e-9), "bootstrap of equal samples differs from their estimate")
            require(np.allclose(est.var_bs_mean, 0, atol=1e-12), "repetitions over equal samples differ")
    return ["nt"] if k != case["n"] or case["kind"] == "wide" else []


@st.composite
def reach_cases(draw):
    kind = draw(st.sampled_from(["mem", "hdf", "wide"]))
    if draw(st.integers(0, 2)) == 0:
        n = draw(st.lists(st.sampled_from([20, 65, 120, 257, 300]), min_size=1, max_size=2))
        return dict(kind=kind, n=n, k=draw(st.sampled_from([20, 50, 90])), seed=draw(st.integers(0, 10 ** 6)), R=2, family="mono")
    return dict(kind=kind, n=draw(st.lists(st.integers(2, 8), min_size=1, max_size=2)), k=draw(st.integers(1, 3)), seed=draw(st.integers(0, 10 ** 6)), R=2, family="mono")


def run_reach(case):
    with scratch() as d:
        reseed(case)
        storage, levels, q, fn = setup(case, d)
        k = [min(case["k"], n) for n in case["n"]]
        for l, a in enumerate(levels):
            want, seen = set(a[:, 0, 1].tolist()), set()
            for _ in range(500):
                seen |= set(read_level(q.subsample(k), storage, l)[0, :, 0].tolist())
                if seen >= want:
                    break
            require(seen == want, "level {}: 500 subsamples of {} samples only contain {} of {} stored samples", l, k[l], len(seen), len(want))
    return ["nt"]


@st.composite
def target_cases(draw):
    c = draw(boot_cases())
    c["equal"] = False
    c["target"] = 10.0 ** draw(st.integers(-5, -1))
    return c


def run_target(case):
    with scratch() as d, np.errstate(all="ignore"):
        reseed(case)
        storage, levels, q, fn = setup(case, d)
        storage.save_n_ops([(l, [0.25 * (1 + l) * n, n]) for l, n in enumerate(case["n"])])
        est = Estimate(q, storage, moments_fn=fn)
        got = est.bs_target_var_n_estimated(case["target"], None if case["k"] is None else [min(a, b) for a, b in zip(case["k"], case["n"])])
        k = case["n"] if case["k"] is None else [min(a, b) for a, b in zip(case["k"], case["n"])]
        bound_check(est, levels, fn, k)
        v, ops = est.estimate_diff_vars_regression(k, raw_vars=est.mean_bs_l_vars)
        exp = estimate_n_samples_for_target_variance(case["target"], v, ops, n_levels=len(levels))
        require(same(got, exp), "numbers of samples {} do not follow from the bootstrap variances: {}", list(got), list(exp))
    return ["nt"]


@st.composite
def reps_cases(draw):
    return dict(kind=draw(st.sampled_from(["mem", "hdf"])), n=draw(st.lists(st.integers(2, 9), min_size=1, max_size=2)), k=draw(st.integers(1, 3)),
                reps=draw(st.sampled_from([2, 3, 5, 7, 11, 13, 17, 5, 7, 11, 211, 307])), seed=draw(st.integers(0, 10 ** 6)), R=2, family="mono")


def run_reps(case):
    """Samples 0 and 1: averages over k samples and the requested number of repetitions are multiples of 1 / (k reps)."""
    with scratch() as d, np.errstate(all="ignore"):
        reseed(case)
        rng = np.random.default_rng(case["seed"])
        m = 2
        levels = [rng.integers(0, 2, size=(n, 2, m)).astype(float) for n in case["n"]]
        for a in levels:
            a[0, :, 1], a[1, :, 1] = [0.0, 0.0], [1.0, 0.0]
        storage = make_storage(case["kind"], d)
        fill_storage(storage, vector_format(m), levels)
        q = quantity_module.make_root_quantity(storage, vector_format(m))["q"][1.0]["10"][1, 0]
        fn = Monomial(2, (0.0, 1.0))
        k = [min(case["k"], n) for n in case["n"]]
        est = Estimate(q, storage, moments_fn=fn)
        est.est_bootstrap(n_subsamples=case["reps"], sample_vector=k)
        for l, kk in enumerate(k):
            x = float(est.mean_bs_l_means[l][1]) * kk * case["reps"]
            require(abs(x - round(x)) < 1e-6, "level {}: average {} over {} repetitions of {} samples of zeros and ones", l, est.mean_bs_l_means[l][1], case["reps"], kk)
        # so are unbiased variances over the repetitions, and of the samples, with their denominators
        r = case["reps"]

        def whole(value, unit, what):
            x = float(value) * unit
            require(abs(x - round(x)) < 1e-5 * max(1.0, abs(x) * 1e-6), "{} is {}, not a multiple of 1 / {}", what, value, unit)
        for l, kk in enumerate(k):
            whole(est.var_bs_l_means[l][1], kk ** 2 * r * (r - 1), "variance of level means among {} repetitions of {} samples".format(r, kk))
            if kk > 1:
                whole(est.mean_bs_l_vars[l][1], kk * (kk - 1) * r, "mean level variance")
                whole(est.var_bs_l_vars[l][1], (kk * (kk - 1)) ** 2 * r * (r - 1), "variance of level variances among {} repetitions".format(r))
        den = int(np.prod(k))
        whole(est.var_bs_mean[1], den ** 2 * r * (r - 1), "variance of means")
        if min(k) > 1:
            u = int(np.prod([kk ** 2 * (kk - 1) for kk in k]))
            whole(est.var_bs_var[1], u ** 2 * r * (r - 1), "variance of variances")
    return ["nt"]


PARTS = [Part("repetitions", reps_cases(), run_reps, quick=60, thorough=1000),
         Part("subsample", cases(), run, quick=400, thorough=10000),
         Part("bootstrap", boot_cases(), run_boot, quick=150, thorough=4000),
         Part("reach", reach_cases(), run_reach, quick=40, thorough=600),
         Part("target", target_cases(), run_target, quick=6, thorough=100)]
