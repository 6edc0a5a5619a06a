"""Correlated random fields: covariance, factor, samples, histories of points, porosity helpers."""
from vlib.common import *
import gstools
import mlmc.random.correlated_field as cf

RULE = ("covariance: 1-24 points, or up to 130 (random, on a lattice, repeated) in 1-3 dimensions, exponents 1-2, correlation length or tensor, against the closed form, and the factor for generated precisions and "
        "numbers of terms; histories: points set again and again with scalars or arrays of means and deviations, samples compared with those of a fresh field; statistics: covariance and mean of "
        "2000 samples; gstools: against the realisation of gstools itself, point by point; helpers: porosity laws. Non-trivial: at least four distinct points and an eigenvalue dropped or all terms "
        "of a correlation that is neither zero nor one (covariance), points set twice (histories), three points (statistics, gstools), at least three values (helpers).")
ASSUMPTIONS = ["correlation exponent at most 2 (a covariance function) and positive definite tensors of moderate ratio", "statistics are compared within seven standard deviations"]

COORD = st.one_of(st.integers(-20, 20).map(lambda i: i / 4), st.floats(-5, 5, allow_nan=False, width=32))


@st.composite
def points(draw, dim, lo=1, hi=24):
    n = draw(st.integers(lo, hi))
    if n > 6:
        seed = draw(st.integers(0, 10 ** 6))
        rng = np.random.RandomState(seed)
        pts = np.round(rng.rand(n, dim) * draw(st.sampled_from([1.0, 4.0, 40.0])), 3).tolist()
        for i in range(draw(st.integers(0, 2))):
            pts[draw(st.integers(0, n - 1))] = list(pts[0])
        return pts
    return draw(st.lists(st.lists(COORD, min_size=dim, max_size=dim), min_size=n, max_size=n))


@st.composite
def field_params(draw, dim, log=True):
    p = dict(dim=dim, corr_exp=draw(st.sampled_from(["gauss", "exp", 1.0, 1.5, 1.75, 2.0, "1.25"])))
    if draw(st.integers(0, 3)) == 0:
        a = draw(st.lists(st.integers(-4, 4), min_size=dim * dim, max_size=dim * dim))
        A = np.array(a, float).reshape(dim, dim) / 4
        p["aniso"] = (A.T @ A + np.eye(dim) * draw(st.sampled_from([0.05, 0.5, 3.0]))).tolist()
    else:
        p["corr_length"] = draw(st.sampled_from([0.01, 0.1, 0.3, 1.0, 2.5, 10.0, 200.0]))
    if log:
        p["log"] = draw(st.booleans())
    return p


def make(p, **kw):
    args = dict(corr_exp=p["corr_exp"], dim=p["dim"], log=p.get("log", False))
    if "aniso" in p:
        args["aniso_correlation"] = np.array(p["aniso"])
    else:
        args["corr_length"] = p["corr_length"]
    args.update(kw)
    return cf.SpatialCorrelatedField(**args)


def reference_cov(p, pts):
    X = np.array(pts, float)
    K = np.array(p["aniso"]) if "aniso" in p else np.eye(p["dim"]) / p["corr_length"] ** 2
    alpha = {"gauss": 2.0, "exp": 1.0}.get(p["corr_exp"])
    alpha = float(p["corr_exp"]) if alpha is None else alpha
    D = X[:, None, :] - X[None, :, :]
    q = np.einsum("ijk,kl,ijl->ij", D, K, D)
    return np.exp(-np.maximum(q, 0) ** (alpha / 2))


# ------------------------------------------------------------------------------------------ covariance, factor

@st.composite
def cov_cases(draw):
    dim = draw(st.integers(1, 3))
    return dict(p=draw(field_params(dim, log=False)), pts=draw(points(dim)), sigma=draw(st.sampled_from([1.0, 1.0, 0.5, 1e-4, 1e-6, 20.0])),
                precision=draw(st.sampled_from([0.3, 0.1, 0.01, 0.01, 1e-3, 1e-5])), lo=draw(st.sampled_from([1, 1, 2, 5, 10, 30])),
                more=draw(st.sampled_from([0, 1, 3, 8, None, None, None])))


def run_cov(case):
    p, pts = case["p"], case["pts"]
    n = len(pts)
    ref = reference_cov(p, pts)
    f = make(p, sigma=case["sigma"])
    f.set_points(np.array(pts, float))
    C = np.array(f.cov_matrix())
    require(C.shape == (n, n) and np.allclose(C, ref, rtol=1e-9, atol=1e-9), "covariance matrix differs from exp(-(x'Kx)^(a/2)) by {}", np.max(np.abs(C - ref)) if C.shape == ref.shape else C.shape)
    require(np.allclose(C, C.T, atol=1e-9) and np.allclose(np.diag(C), 1.0), "covariance not symmetric with unit diagonal")
    # all terms
    f = make(p, sigma=case["sigma"])
    f.set_points(pts)
    L, ev = f.svd_dcmp(n_terms_range=(n, np.inf))
    L = np.asarray(L)
    require(L.shape == (n, n) and np.allclose(L @ L.T, ref, atol=1e-7), "factor of all terms does not reproduce the covariance")
    # some terms
    lo = case["lo"]
    hi = np.inf if case["more"] is None else lo + case["more"]
    f = make(p, sigma=case["sigma"])
    f.set_points(pts)
    L, ev = f.svd_dcmp(precision=case["precision"], n_terms_range=(lo, hi))
    L, ev = np.asarray(L), np.asarray(ev)
    m = L.shape[1]
    require(L.shape[0] == n and len(ev) == m, "factor {} with {} eigenvalues for {} points", L.shape, len(ev), n)
    require(min(n, lo) <= m <= min(n, hi), "{} terms of allowed {}..{} for {} points", m, lo, hi, n)
    eig = np.linalg.eigvalsh(ref)[::-1]
    err = np.linalg.norm(ref - L @ L.T, 2)
    bound = 1e-7 + 2 * case["precision"] * eig[0]
    if m >= min(n, hi) and m < n:
        bound = max(bound, 1e-7 + 2 * max(eig[m], 0.0))
    require(err <= bound, "{} of {} terms leave the covariance error {} above the precision {} (largest eigenvalue {})", m, n, err, case["precision"], eig[0])
    require(np.allclose(ev[0], eig[0], rtol=0.05), "largest eigenvalue {} of the covariance with {}", ev[0], eig[0])
    distinct = len({tuple(x) for x in pts}) >= 4
    off = ref[~np.eye(n, dtype=bool)]
    labels = ["m<n" if m < n else "m=n", "{}d".format(p["dim"]), "aniso" if "aniso" in p else "iso"]
    if distinct and off.size and ((off > 1e-3) & (off < 0.999)).any():
        labels.append("nt")
    return labels


@st.composite
def big_cases(draw):
    """More points than terms can be guessed at once."""
    dim = draw(st.sampled_from([1, 1, 2]))
    n = draw(st.sampled_from([40, 60, 90, 130]))
    p = dict(dim=dim, corr_exp=draw(st.sampled_from(["gauss", "exp", 1.5])), corr_length=draw(st.sampled_from([0.002, 0.01, 0.05, 0.3])))
    x = np.random.RandomState(draw(st.integers(0, 10 ** 6))).rand(n, dim)
    return dict(p=p, pts=np.round(x, 5).tolist(), sigma=draw(st.sampled_from([1.0, 0.1, 5.0])), precision=draw(st.sampled_from([0.1, 0.01, 1e-3, 1e-6])),
                lo=draw(st.sampled_from([1, 10, 33])), more=draw(st.sampled_from([20, 67, None, None])))


# ------------------------------------------------------------------------------------------ histories

@st.composite
def hist_cases(draw):
    dim = draw(st.integers(1, 3))
    steps = []
    for _ in range(draw(st.integers(1, 4))):
        pts = draw(points(dim, 1, 15))
        n = len(pts)
        val = st.integers(-12, 12).map(lambda i: i / 4)
        pos = st.integers(0, 12).map(lambda i: i / 4)
        # scalars always restored so that arrays of the previous points do not remain
        mu = draw(st.one_of(val, st.lists(val, min_size=n, max_size=n)))
        sigma = draw(st.one_of(pos, st.lists(pos, min_size=n, max_size=n)))
        steps.append(dict(pts=pts, mu=mu, sigma=sigma, seeds=draw(st.lists(st.integers(0, 2 ** 31), min_size=1, max_size=3, unique=True)),
                          keep=draw(st.booleans()), cov=draw(st.booleans()), full=draw(st.booleans()), aslist=draw(st.booleans())))
    return dict(p=draw(field_params(dim)), steps=steps, init=draw(st.booleans()))


def run_hist(case):
    p = case["p"]
    first = case["steps"][0]
    if case["init"]:
        f = make(p, mu=first["mu"], sigma=first["sigma"])
    else:
        f = make(p)
    mu, sigma = (first["mu"], first["sigma"]) if case["init"] else (0.0, 1.0)
    for i, s in enumerate(case["steps"]):
        n = len(s["pts"])
        pts = s["pts"] if s["aslist"] else np.array(s["pts"], float)
        scalar = not isinstance(mu, list) and not isinstance(sigma, list)
        if i == 0 and case["init"] or s["keep"] and scalar:
            f.set_points(pts)
        else:
            mu, sigma = s["mu"], s["sigma"]
            f.set_points(pts, mu=mu if s["aslist"] else np.array(mu), sigma=sigma if s["aslist"] else np.array(sigma))
        if s["cov"]:
            C = f.cov_matrix()
            require(np.allclose(C, reference_cov(p, s["pts"]), atol=1e-9), "covariance matrix is not that of points set last")
        if s["full"]:
            f.svd_dcmp(n_terms_range=(n, np.inf))
        np.random.seed(s["seeds"][0])
        got = [np.array(f.sample())]
        for seed in s["seeds"][1:]:
            np.random.seed(seed)
            got.append(np.array(f.sample()))
        # the number of terms may depend on the deviation unless all of them are used
        g = make(dict(p, log=False), mu=0.0, sigma=1.0 if s["full"] else sigma)
        g.set_points(np.array(s["pts"], float))
        if s["full"]:
            g.svd_dcmp(n_terms_range=(n, np.inf))
        np.random.seed(s["seeds"][0])
        base = [np.array(g.sample())]
        for seed in s["seeds"][1:]:
            np.random.seed(seed)
            base.append(np.array(g.sample()))
        for a, b in zip(got, base):
            require(a.shape == (n,), "sample of shape {} for {} points", a.shape, n)
            ref = np.array(mu, float) + (np.array(sigma, float) * b if s["full"] else b)
            ref = np.exp(ref) if p["log"] else ref
            require(np.allclose(a, ref, rtol=1e-6, atol=1e-6), "sample {} for the points set {} times, mean {}, deviation {}; a fresh field gives {}", a.tolist(), i + 1, mu, sigma, ref.tolist())
        if len(base) > 1 and np.max(sigma) > 0:
            require(not np.array_equal(base[0], base[1]), "samples of different seeds are equal")
    return ["nt"] if len(case["steps"]) > 1 else []


# ------------------------------------------------------------------------------------------ statistics

@st.composite
def stat_cases(draw):
    dim = draw(st.integers(1, 3))
    return dict(p=draw(field_params(dim)), pts=draw(points(dim, 2, 6)), mu=draw(st.integers(-4, 4)) / 2, sigma=draw(st.sampled_from([0.25, 1.0, 3.0])),
                how=draw(st.sampled_from(["default", "full", "field"])), again=draw(st.booleans()), seed=draw(st.integers(0, 2 ** 31)))


def run_stat(case):
    p, pts = case["p"], case["pts"]
    n = len(pts)
    f = make(p, mu=case["mu"], sigma=case["sigma"])
    np.random.seed(case["seed"])
    if case["again"]:
        f.set_points(np.array(pts, float)[::-1] * 3 + 1)
        f.sample()
    if case["how"] == "field":
        fs = cf.Fields([cf.Field("x", f)])
        fs.set_points(np.array(pts, float), np.zeros(n, int), {})
        draw = lambda: fs.sample()["x"]
    else:
        f.set_points(pts)
        if case["how"] == "full":
            f.svd_dcmp(n_terms_range=(n, np.inf))
        draw = f.sample
    N = 2000
    S = np.array([draw() for _ in range(N)])
    if p["log"]:
        require((S > 0).all(), "logarithmic field is not positive")
        S = np.log(S)
    Z = (S - case["mu"]) / case["sigma"]
    C = reference_cov(p, pts)
    drop = 0.02 * n if case["how"] == "default" else 0.0
    require((np.abs(Z.mean(axis=0)) <= 7 / np.sqrt(N)).all(), "mean of samples differs from the given mean by {} deviations", Z.mean(axis=0).tolist())
    got = Z.T @ Z / N
    tol = 7 * np.sqrt((1 + C ** 2) / N) + drop + 1e-6
    require((np.abs(got - C) <= tol).all(), "covariance of {} samples {} differs from {}", N, got.tolist(), C.tolist())
    return ["nt", case["how"]] if n >= 3 else [case["how"]]


# ------------------------------------------------------------------------------------------ gstools

@st.composite
def gs_cases(draw):
    dim = draw(st.integers(1, 3))
    return dict(dim=dim, model=draw(st.sampled_from(["Gaussian", "Exponential", "Spherical", "Matern"])), length=draw(st.sampled_from([0.1, 0.5, 2.0])), var=draw(st.sampled_from([1.0, 1.0, 4.0])),
                modes=draw(st.sampled_from([20, 100])), log=draw(st.booleans()), sigma=draw(st.sampled_from([1, 0.5, 3.0])),
                mu=draw(st.sampled_from([None, None, 1.5, -2.0])),
                steps=draw(st.lists(st.tuples(points(dim, 1, 10), st.one_of(st.none(), st.integers(0, 2 ** 31 - 1))), min_size=1, max_size=4)), first=draw(st.integers(0, 10 ** 6)))


def run_gs(case):
    model = getattr(gstools, case["model"])(dim=case["dim"], len_scale=case["length"], var=case["var"])
    f = cf.GSToolsSpatialCorrelatedField(model, mode_no=case["modes"], log=case["log"], sigma=case["sigma"])
    seed = case["first"]
    f.change_srf(seed)
    biggest = 0
    for pts, new in case["steps"]:
        if new is not None:
            seed = new
            f.change_srf(seed)
        X = np.array(pts, float)
        if case["mu"] is None:
            f.set_points(pts)
        else:
            f.set_points(pts, mu=case["mu"])
        ref = gstools.SRF(model, seed=seed, mode_no=case["modes"])(tuple(X.T))
        ref = case["sigma"] * np.asarray(ref).reshape(-1) + (case["mu"] or 0.0)
        ref = np.exp(ref) if case["log"] else ref
        for k in range(2):
            got = np.asarray(f.sample())
            require(got.shape == (len(pts),), "sample of shape {} for {} points", got.shape, len(pts))
            require(np.allclose(got, ref, rtol=1e-7, atol=1e-9), "sample {} differs from the realisation of gstools {} (seed {})", got.tolist(), ref.tolist(), seed)
        for i in range(min(2, len(pts))):
            f.set_points(X[i:i + 1])
            require(np.allclose(f.sample(), got[i:i + 1], rtol=1e-7, atol=1e-9), "value at a point depends on the other points")
        biggest = max(biggest, len(pts))
    return ["nt"] if biggest >= 3 else []


# ------------------------------------------------------------------------------------------ fourier (deprecated)

def run_fourier(case):
    X = np.array(case["pts"], float)
    mk = lambda **kw: cf.FourierSpatialCorrelatedField(case["corr_exp"], dim=case["dim"], corr_length=case["length"], mode_no=case["modes"], **kw)
    out = []
    for kw in (dict(), dict(mu=case["mu"], sigma=case["sigma"], log=case["log"])):
        f = mk(**kw)
        f.set_points(X)
        np.random.seed(case["seed"])
        out.append(np.array(f.sample()))
        np.random.seed(case["seed"])
        require(np.array_equal(out[-1], f.sample()), "sample is not reproducible from the NumPy seed")
    require(out[0].shape == (len(X),), "sample of shape {} for {} points", out[0].shape, len(X))
    ref = case["mu"] + case["sigma"] * out[0]
    ref = np.exp(ref) if case["log"] else ref
    require(np.allclose(out[1], ref, rtol=1e-7, atol=1e-9), "sample {} is not mean and deviation of the standard one {}", out[1].tolist(), ref.tolist())
    f = mk()
    f.set_points(X[:2])
    np.random.seed(case["seed"])
    require(np.allclose(f.sample(), out[0][:2], atol=1e-9), "value at a point depends on the other points")
    return ["nt"] if len(X) >= 3 else []


@st.composite
def fourier_cases(draw):
    dim = draw(st.integers(1, 2))
    return dict(dim=dim, corr_exp=draw(st.sampled_from(["gauss", "exp"])), length=draw(st.sampled_from([0.1, 1.0])), modes=draw(st.sampled_from([10, 50])), log=draw(st.booleans()),
                mu=draw(st.integers(-4, 4)) / 2, sigma=draw(st.sampled_from([0.5, 1.0])), seed=draw(st.integers(0, 2 ** 31)), pts=draw(points(dim, 2, 8)))


@st.composite
def fourier_cov_cases(draw):
    return dict(dim=draw(st.integers(1, 2)), corr_exp=draw(st.sampled_from(["gauss", "exp"])), length=draw(st.sampled_from([0.02, 0.1, 0.3, 1.0, 5.0])), seed=draw(st.integers(0, 2 ** 31)),
                angle=draw(st.integers(0, 7)))


def run_fourier_cov(case):
    """Covariance over realisations: pairs of points at given distances (in correlation lengths) along a long line."""
    l, n, lags = case["length"], 120, (0, 1, 2, 4)
    x = np.arange(200) * 0.5 * l * 1.0
    if case["dim"] == 1:
        X = x[:, None]
    else:
        a = case["angle"] * np.pi / 8
        X = np.stack([x * np.cos(a), x * np.sin(a)], axis=1)
    f = cf.FourierSpatialCorrelatedField(case["corr_exp"], dim=case["dim"], corr_length=l, mode_no=100)
    f.set_points(X)
    np.random.seed(case["seed"])
    Y = np.array([f.sample() for _ in range(n)])
    require(len({y.tobytes() for y in Y}) == n, "only {} of {} realisations differ", len({y.tobytes() for y in Y}), n)
    require(abs(Y.mean()) <= 6 * Y.mean(axis=1).std(ddof=1) / np.sqrt(n), "mean of the standard field is {}", Y.mean())
    for k in lags:
        c = (Y[:, :len(x) - k] * Y[:, k:]).mean(axis=1)
        r = 0.5 * k
        ref = np.exp(-r ** 2) if case["corr_exp"] == "gauss" else np.exp(-r)
        tol = 6 * c.std(ddof=1) / np.sqrt(n) + 0.01
        require(abs(c.mean() - ref) <= tol, "covariance at the distance of {} correlation lengths is {} (tolerance {}), expected {}", r, c.mean(), tol, ref)
    return ["nt"]


# ------------------------------------------------------------------------------------------ helpers

HELP = st.fixed_dictionaries(dict(a=st.integers(0, 50), d=st.integers(0, 50), scale=st.sampled_from([1e-3, 0.01, 1.0]),
                                  x=st.lists(st.one_of(st.just(0.0), st.floats(0, 1e12, allow_nan=False), st.floats(0, 10)), min_size=1, max_size=8),
                                  por=st.lists(st.floats(-0.5, 1.5, allow_nan=False), min_size=1, max_size=8),
                                  m=st.floats(1, 4), factor=st.sampled_from([1e-12, 1e-7, 1e-3, 1.0]), visc=st.sampled_from([8.9e-4, 1.0, 1e-9])))


def run_helpers(case):
    a = case["a"] * case["scale"]
    b = a + (case["d"] + 1) * case["scale"]
    x = np.sort(np.array(case["x"]))
    y = np.asarray(cf.positive_to_range(x, a, b))
    require(y.shape == x.shape and (y >= a - 1e-12 * b).all() and (y <= b).all(), "positive_to_range({}, {}, {}) = {} outside of the range", x.tolist(), a, b, y.tolist())
    require((np.diff(y) >= -1e-12 * b).all(), "positive_to_range is not increasing: {} for {}", y.tolist(), x.tolist())
    require(np.allclose(cf.positive_to_range(0.0, a, b), a, rtol=1e-9, atol=1e-12 * b), "zero is not mapped to the lower end")
    require(np.allclose(cf.positive_to_range(1e15, a, b), b, rtol=1e-6), "large values are not mapped to the upper end")
    d = np.diff(x) > 1e-3
    if (x < 1e3).all() and d.any():
        require((np.diff(y)[d] > 0).all(), "positive_to_range is not strictly increasing: {} for {}", y.tolist(), x.tolist())
    por = np.sort(np.array(case["por"]))
    c = np.asarray(cf.kozeny_carman(por, case["m"], case["factor"], case["visc"]))
    require(c.shape == por.shape and np.isfinite(c).all() and (c >= 1e-15 * (1 - 1e-9)).all(), "conductivity {} for porosity {}", c.tolist(), por.tolist())
    require((np.diff(c) >= -1e-12 * c[1:]).all(), "conductivity {} does not increase with porosity {}", c.tolist(), por.tolist())
    for q, v in zip(por, c):
        if 1e-9 < q < 1 - 1e-6:
            r = max(1e-15, case["factor"] * q ** (2 + case["m"]) / (1 - q) ** 2 / case["visc"])
            require(abs(v - r) <= 1e-9 * r, "conductivity {} of porosity {} instead of {}", v, q, r)
    return ["nt"] if len(x) >= 3 and len(por) >= 3 else []


PARTS = [Part("many_points", big_cases(), run_cov, quick=40, thorough=1000),
         Part("covariance", cov_cases(), run_cov, quick=700, thorough=12000, shards=2),
         Part("histories", hist_cases(), run_hist, quick=600, thorough=10000, shards=2),
         Part("statistics", stat_cases(), run_stat, quick=100, thorough=2000),
         Part("gstools", gs_cases(), run_gs, quick=200, thorough=3000),
         Part("fourier", fourier_cases(), run_fourier, quick=100, thorough=1500),
         Part("fourier_covariance", fourier_cov_cases(), run_fourier_cov, quick=16, thorough=400),
         Part("helpers", HELP, run_helpers, quick=600, thorough=15000)]
