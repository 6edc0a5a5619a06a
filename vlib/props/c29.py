"""Moments, covariances and distances of given densities."""
from vlib.common import *
from vlib.props.c22 import integrate, shape
import mlmc.tool.simple_distribution as simple
import mlmc.tool.distribution as full
from mlmc.moments import Legendre, Monomial, Fourier, TransformedMoments

RULE = ("moments: a density (smooth, or a narrow peak) on a generated domain and moments of any family, plain or transformed by a matrix, size 1-8; exact and semi-exact moments and covariances against "
        "composite Gauss quadrature. distances: two positive densities, the second perhaps not normalised or vanishing on a half of the domain; divergence and L2 distance against the same quadrature. "
        "Non-trivial: at least three moments (moments), densities that differ (distances).")
ASSUMPTIONS = ["peaks are not narrower than 1 % of the domain, 3 % in its middle, where moment functions vanish", "densities are positive where the divergence is taken"]


@st.composite
def dens(draw, narrow=True):
    kind = draw(st.sampled_from(["normal", "mix", "beta", "exp", "flat"] + (["peak"] if narrow else [])))
    return [kind, draw(st.sampled_from([0.0, 0.125, 0.25, 0.375, 0.5, 0.5, 0.5, 0.625, 0.75, 0.875, 1.0])), draw(st.integers(0, 8)) / 8.0]


def density_fn(d, a, b, scale=1.0):
    kind, p, q = d
    if kind == "peak":
        c = 0.15 + 0.7 * p
        s = 0.01 + 0.05 * q if abs(c - 0.5) > 0.1 else 0.03 + 0.03 * q     # a narrower one at a zero of the integrand cannot be seen by adaptive quadrature
        shp = lambda u: np.exp(-0.5 * ((u - c) / s) ** 2) + 1e-3
    else:
        shp = shape(kind, (p, q))
    v, x, w = integrate(lambda x: shp((x - a) / (b - a)), a, b)
    Z = v @ w / scale
    return lambda x: shp((x - a) / (b - a)) / Z


@st.composite
def domain(draw):
    a = draw(st.sampled_from([0.0, -1.0, 2.0, -7.5, 100.0, 0.5]))
    return [a, a + draw(st.sampled_from([1.0, 2.0, 0.1, 12.0, 60.0]))]


@st.composite
def mom_cases(draw):
    dom = draw(domain())
    return dict(domain=dom, log=dom[0] > 0 and draw(st.booleans()), safe=draw(st.booleans()), family=draw(st.sampled_from(["leg", "mono", "fourier"])), R=draw(st.integers(1, 8)),
                d=draw(dens()), rows=draw(st.one_of(st.none(), st.integers(1, 4))), mseed=draw(st.integers(0, 99)), which=draw(st.sampled_from(["simple", "full"])))


@st.composite
def centred_cases(draw):
    """Symmetric densities: the odd moments vanish."""
    return dict(domain=draw(domain()), log=False, safe=draw(st.booleans()), family=draw(st.sampled_from(["leg", "leg", "fourier"])), R=draw(st.integers(2, 8)),
                d=["peak", 0.5, draw(st.integers(0, 8)) / 8.0], rows=None, mseed=0, which="simple")


def run_moments(case):
    a, b = case["domain"]
    with np.errstate(all="ignore"):
        fn = dict(leg=Legendre, mono=Monomial, fourier=Fourier)[case["family"]](case["R"], (a, b), log=case["log"], safe_eval=case["safe"])
        if case["rows"]:
            A = np.round(arr_values(case["mseed"], case["rows"], fn.size)[:, 0, :] * 4) / 4 + 0.125
            fn = TransformedMoments(fn, A)
        f = density_fn(case["d"], a, b)
        v, x, w = integrate(f, a, b)
        m = fn.eval_all(x)
        mu = (v * w) @ m
        cov = (m.T * (v * w)) @ m
        tol = 2e-6 * (1 + np.abs(m).max())

        def near(got, exp, t, what):
            got = np.asarray(got)
            require(got.shape == exp.shape and np.allclose(got, exp, rtol=0, atol=t), "{} of density {} on {}: {} expected {}", what, case["d"], case["domain"], got.tolist(), exp.tolist())
        if case["which"] == "full":
            near(full.compute_exact_moments(fn, f), mu, 5e-4 * (1 + np.abs(m).max()), "moments with the default tolerance")
            near(full.compute_exact_moments(fn, f, tol=1e-10), mu, tol, "moments")
        else:
            near(simple.compute_exact_moments(fn, f), mu, tol, "exact moments")
            near(simple.compute_semiexact_moments(fn, f), mu, tol, "semi-exact moments")
            tol *= (1 + np.abs(m).max())
            near(simple.compute_semiexact_cov(fn, f), cov, tol, "semi-exact covariance")
            if fn.size <= 4:
                near(simple.compute_exact_cov(fn, f), cov, tol, "exact covariance")
    return ["nt", case["d"][0]] if fn.size >= 3 else []


@st.composite
def dist_cases(draw):
    return dict(domain=draw(domain()), p=draw(dens()), q=draw(dens()), scale=draw(st.sampled_from([1.0, 1.0, 0.8, 1.3])), vanish=draw(st.sampled_from([False, False, False, True])),
                same=draw(st.sampled_from([False, False, False, True])))


def run_dist(case):
    a, b = case["domain"]
    mid = (a + b) / 2
    beta = lambda d: ["normal"] + d[1:] if d[0] == "beta" else d       # vanishes at the ends
    dp, dq = beta(case["p"]), beta(case["q"])
    if case["same"]:
        dq = dp
    with np.errstate(all="ignore"):
        p, q = density_fn(dp, a, b), density_fn(dq, a, b, 1.0 if case["same"] else case["scale"])
        pv, x, w = integrate(p, a, b)
        qv = q(x)
        kl = (pv * np.log(pv / qv)) @ w
        l2 = ((pv - qv) ** 2) @ w
        exp = kl + (qv - pv) @ w
        got = simple.KL_divergence(p, q, a, b)
        require(got > 0 and abs(got - max(exp, 1e-10)) <= 1e-6 * (1 + abs(exp)), "divergence of {} and {} on {} is {} expected {}", dp, dq, case["domain"], got, exp)
        if case["scale"] == 1.0:
            got = full.KL_divergence(p, q, a, b)
            require(got > 0 and abs(got - max(kl, 1e-10)) <= 1e-6 * (1 + abs(kl)), "divergence (full) of {} and {} on {} is {} expected {}", dp, dq, case["domain"], got, kl)
        top = max(pv.max(), qv.max())
        for mod in (simple, full):
            got = mod.L2_distance(p, q, a, b)
            require(abs(got ** 2 - l2) <= 1e-6 * (1 + l2), "L2 distance of {} and {} on {} is {} expected {}", dp, dq, case["domain"], got, np.sqrt(l2))
        if case["vanish"]:
            got = simple.KL_divergence(p, lambda t: q(t) if t < mid else 0.0, a, b)
            left = x < mid
            exp = (pv * np.log(pv / np.where(left, qv, 1e-300)) - pv + np.where(left, qv, 0.0)) @ w
            require(np.isfinite(got) and abs(got - exp) <= 1e-5 * (1 + abs(exp)), "divergence from a density vanishing above {} is {} expected {}", mid, got, exp)
    return ["nt"] if dp != dq else ["equal"]


PARTS = [Part("moments", mom_cases(), run_moments, quick=300, thorough=6000, shards=2),
         Part("centred", centred_cases(), run_moments, quick=60, thorough=600, shards=2),
         Part("distances", dist_cases(), run_dist, quick=250, thorough=6000, shards=2)]
