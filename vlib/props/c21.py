"""Orthogonalised moments."""
from vlib.common import *
from vlib.props import c20
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments, covariance
from mlmc.tool.simple_distribution import construct_ortogonal_moments

RULE = ("discrete: a generated distribution of weighted points in the domain, moments of any family and size 2-9 (up to 40 other than monomials), and a tolerance (or the automatic threshold); the covariance is "
        "computed by the reference and the orthogonal moments are evaluated at the points. estimated: samples on 1-3 levels in a storage, the covariance is estimated, and the covariance of the "
        "orthogonal moments is estimated from the same samples. Non-trivial: at least three moments are kept, or some direction is dropped.")
ASSUMPTIONS = ["tolerance below one (the eigenvalue of the constant)", "no eigenvalue within 1e-4 (relative) of the tolerance", "automatic threshold from six moments on"]


@st.composite
def cases(draw):
    c = draw(c20.config())
    c["size"] = draw(st.integers(2, 9))
    c["safe"] = True
    c["n"] = draw(st.integers(1, 24))
    c["kind"] = draw(st.sampled_from(["uniform", "ends", "bell", "skew"]))
    c["seed"] = draw(st.integers(0, 10 ** 5))
    c["tol"] = draw(st.sampled_from([1e-7, 1e-6, 1e-4, 1e-3, 1e-2, 0.1, 0.5, 0.9, None]))
    if c["family"] != "mono" and draw(st.integers(0, 2)) == 0:
        c["size"] = draw(st.integers(10, 40))
        c["n"] += 60
    if c["tol"] is None:
        c["size"] = max(c["size"], 6)
        c["n"] += 20
    return c


def points(case):
    v = arr_values(case["seed"], case["n"], 1)
    u, w = (v[:, 0, 0] + 2) / 4, (v[:, 1, 0] + 2) / 4 + 0.05
    u = dict(uniform=u, ends=np.where(u < 0.5, 0.5 * (2 * u) ** 3, 1 - 0.5 * (2 - 2 * u) ** 3), bell=0.5 + 0.5 * (2 * u - 1) ** 3, skew=u ** 3)[case["kind"]]
    return 0.001 + 0.998 * u, w / w.sum()


def orthonormal(what, gram, lam_min, n, scale):
    err = np.abs(gram - np.eye(len(gram))).max()
    require(err <= 1e-8 + 1e-13 * n * scale / lam_min, "{}: covariance of the orthogonal moments differs from identity by {:.3g} (smallest kept eigenvalue {:.3g})\n{}", what, err, lam_min,
            gram.tolist())


def separated(eig, tol, noise):
    return all(abs(e - tol) > 1e-4 * tol + 100 * noise for e in eig)


def run(case):
    with np.errstate(all="ignore"):
        fn = c20.make(case)
        u, w = points(case)
        x = case["domain"][0] * (case["domain"][1] / case["domain"][0]) ** u if case["log"] else case["domain"][0] + u * (case["domain"][1] - case["domain"][0])
        m = c20.textbook(case, c20.mapped(case, u), case["size"])
        cov = (m.T * w) @ m
        scale = max(1.0, np.abs(cov).max())
        centred = cov[1:, 1:] - np.outer(cov[1:, 0], cov[0, 1:])
        eig, vec = np.linalg.eigh(centred)
        noise = 1e-15 * scale * case["size"]
        tol = case["tol"]
        if tol is not None and not separated(eig, tol, noise):
            return []
        given = cov.copy()
        orth, info = construct_ortogonal_moments(fn, given, tol=tol)
        require(same(given, cov), "the covariance matrix passed in was changed")
        got = orth.eval_all(x)
        require(got.shape == (len(x), orth.size), "orthogonal moments have shape {} for {} points and size {}", got.shape, len(x), orth.size)
        if tol is not None:
            keep = int((eig > tol).sum())
            require(orth.size == keep + 1, "{} of {} moments kept, centred eigenvalues {}, tolerance {}", orth.size, case["size"], eig.tolist(), tol)
        else:
            keep = orth.size - 1
            require(0 <= keep < case["size"], "size {} after orthogonalisation of {} moments", orth.size, case["size"])
            require(keep >= 2 or eig[0] < 1e-6 * eig[-1], "{} of {} moments kept automatically, centred eigenvalues {}", orth.size, case["size"], eig.tolist())
            if keep < len(eig) and keep and eig[len(eig) - keep] < 1e-11:
                return []      # numerically singular matrix: the automatic threshold decides by noise
        lam = min([1.0] + list(eig[len(eig) - keep:]))
        if lam < 1e-11:
            return []
        orthonormal("points", (got.T * w) @ got, lam, case["size"], scale)
        require(np.allclose(got[:, 0], 1.0, atol=1e-8 + 1e-13 * case["size"] * scale / lam), "the first orthogonal moment is not one: {}", got[:, 0].tolist())
        # the kept space is that of the largest eigenvalues: its functions are combinations of the orthogonal moments
        if tol is not None and keep:
            f = (m[:, 1:] - cov[0, 1:]) @ vec[:, len(eig) - keep:]
            coef = (got.T * w) @ f
            require(np.allclose(got @ coef, f, atol=1e-6 * scale + 1e-12 * case["size"] * scale / lam), "a kept direction is not among the orthogonal moments")
    return ["nt"] if orth.size >= 3 or keep < len(eig) else []


@st.composite
def est_cases(draw):
    return dict(kind=draw(st.sampled_from(["mem", "mem", "hdf"])), n=draw(st.lists(st.integers(12, 40), min_size=1, max_size=3)), size=draw(st.integers(2, 6)),
                family=draw(st.sampled_from(["mono", "leg", "fourier"])), tol=draw(st.sampled_from([1e-6, 1e-4, 1e-2, 0.1])), seed=draw(st.integers(0, 10 ** 5)),
                out=draw(st.booleans()))


def run_est(case):
    with scratch() as d, np.errstate(all="ignore"):
        levels = []
        for l, n in enumerate(case["n"]):
            a = arr_values(case["seed"] + l, n, 1)
            a[:, 1] = a[:, 0] + a[:, 1] * 0.1 * 0.5 ** l
            levels.append(a)
        storage = make_storage(case["kind"], d)
        fill_storage(storage, vector_format(1), levels)
        q = make_root_quantity(storage, vector_format(1))["q"][1.0]["10"][0, 0]
        dom = (-1.7, 2.3) if case["out"] else (-2.5, 2.5)
        fn = c20.CLASSES[case["family"]](case["size"], dom)
        cov = estimate_mean(covariance(q, fn)).mean
        orth, info = construct_ortogonal_moments(fn, cov, tol=case["tol"])
        eig = np.linalg.eigvalsh(cov[1:, 1:] - np.outer(cov[1:, 0], cov[0, 1:]))
        if not separated(eig, case["tol"], 1e-13):
            return []
        keep = int((eig > case["tol"]).sum())
        require(orth.size == keep + 1, "{} moments kept, centred eigenvalues {}, tolerance {}", orth.size, eig.tolist(), case["tol"])
        gram = estimate_mean(covariance(q, orth)).mean
        orthonormal("samples", gram, min([1.0] + [e for e in eig if e > case["tol"]]), case["size"], 1.0)
        mean = estimate_mean(moments(q, orth)).mean
        require(np.allclose(mean, np.eye(orth.size)[0], atol=1e-7), "means of the orthogonal moments {}", mean.tolist())
    return ["nt"] if orth.size >= 3 or keep < len(eig) else []


PARTS = [Part("discrete", cases(), run, quick=2000, thorough=25000, shards=3),
         Part("estimated", est_cases(), run_est, quick=150, thorough=4000)]
