"""Moment functions."""
from vlib.common import *
import scipy.special
from mlmc.moments import Monomial, Legendre, Fourier, TransformedMoments

RULE = ("A case is a moment family, size 1-10, domain (widths 1e-9 to 1e7, logarithmic or not), reference domain (default or other), safe mode or not, and an "
        "argument array of 0-3 dimensions inside and outside the domain. Every way to evaluate is compared with textbook functions of the mapped argument. "
        "ends: the ends of up to 40 domains are evaluated. Transformed moments use a generated matrix. Non-trivial: at least three moments and an argument inside the domain.")
ASSUMPTIONS = ["arguments are the ends of the domain or at least 1e-6 of its width away from them", "in safe mode the constant moment outside of the domain may be one or NaN",
               "derivatives are those in the reference variable"]
CLASSES = dict(mono=Monomial, leg=Legendre, fourier=Fourier)
REF = dict(mono=(0.0, 1.0), leg=(-1.0, 1.0), fourier=(0.0, 2 * np.pi))


@st.composite
def config(draw, families=("mono", "leg", "fourier")):
    log = draw(st.booleans())
    if log:
        a = draw(st.sampled_from([1e-3, 0.05, 0.5, 1.0, 20.0]))
        b = a * draw(st.sampled_from([1.01, 2.0, 10.0, 1e4]))
    else:
        a = draw(st.sampled_from([-1.0, 0.0, -0.5, 1.0, -300.0, 17.25, 1e3, 0.0, 1e-4]))
        w = draw(st.sampled_from([1.0, 2.0, 0.01, 5.5, 1e3, 1e-4, 1e-6, 1e-9, 1e7]))
        b = a + max(w, 1e-5 * abs(a))
        if draw(st.booleans()):
            a = draw(st.integers(-200, 200)) / 7.0
            b = a + draw(st.integers(1, 300)) / 13.0
    fam = draw(st.sampled_from(families))
    ref = draw(st.sampled_from([None, None, None, [-1.0, 1.0], [0.0, 1.0], [0.5, 2.0]]))
    return dict(family=fam, size=draw(st.one_of(st.integers(1, 10), st.integers(1, 24))), domain=[a, b], ref=ref, log=log, safe=draw(st.booleans()))


@st.composite
def arguments(draw):
    shape = draw(st.sampled_from([[], [1], [3], [5], [2, 3], [1, 4, 2], [3, 2, 1], [2, 2]]))
    n = int(np.prod(shape)) if shape else 1
    u = st.one_of(st.integers(1, 199).map(lambda k: k / 200.0), st.integers(1, 199).map(lambda k: k / 200.0),
                  st.sampled_from([-0.5, -1e-3, 1.001, 1.7, 1e-5, 1 - 1e-5, 0.5, 0.25, 0.0, 1.0, 1.0]))
    return dict(shape=shape, u=draw(st.lists(u, min_size=n, max_size=n)))


@st.composite
def cases(draw):
    c = draw(config())
    c["arg"] = draw(arguments())
    c["size2"] = draw(st.one_of(st.integers(1, 12), st.integers(1, 30)))
    c["i"] = draw(st.one_of(st.integers(0, 9), st.integers(0, 30)))
    c["degree"] = draw(st.integers(1, 3))
    return c


def make(c, size=None):
    kw = dict(log=c["log"], safe_eval=c["safe"])
    if c["ref"] is not None:
        kw["ref_domain"] = tuple(c["ref"])
    return CLASSES[c["family"]](c["size"] if size is None else size, tuple(c["domain"]), **kw)


def argument(c):
    a, b = c["domain"]
    u = np.array(c["arg"]["u"], dtype=float).reshape(c["arg"]["shape"])
    x = a * (b / a) ** u if c["log"] else a + u * (b - a)
    return np.where(u == 0, a, np.where(u == 1, b, x)), u          # the ends of the domain exactly


def mapped(c, u):
    lo, hi = c["ref"] if c["ref"] is not None else REF[c["family"]]
    return lo + np.atleast_1d(u) * (hi - lo)


def textbook(c, t, size):
    if c["family"] == "mono":
        return np.stack([t ** k for k in range(size)], axis=-1)
    if c["family"] == "leg":
        return np.stack([scipy.special.eval_legendre(k, t) for k in range(size)], axis=-1)
    out = [np.ones_like(t)]
    k = 1
    while len(out) < size:
        out.append(np.cos(k * t))
        out.append(np.sin(k * t))
        k += 1
    return np.stack(out[:size], axis=-1)


def agree(got, exp, outside, what, index0=True):
    """exp: textbook values [..., R]; outside: mask of arguments that must give NaN."""
    got = np.asarray(got, dtype=float)
    require(got.shape == exp.shape, "{}: shape {} instead of {}", what, got.shape, exp.shape)
    tol = 1e-8 * (1 + np.abs(exp).max(initial=0.0, where=np.isfinite(exp)))
    for r in range(exp.shape[-1]):
        g, e = got[..., r], exp[..., r]
        ins = ~outside
        require(np.allclose(g[ins], e[ins], rtol=1e-6, atol=tol), "{}: moment {} gives {} expected {}", what, r, g.tolist(), e.tolist())
        if outside.any() and not (r == 0 and index0 and np.all(np.isnan(g[outside]) | (g[outside] == 1.0))):
            require(np.isnan(g[outside]).all(), "{}: moment {} outside of the domain gives {} instead of NaN", what, r, g[outside].tolist())


def run(case):
    with np.errstate(all="ignore"):
        fn = make(case)
        x, u = argument(case)
        t = mapped(case, u)
        arg = float(x) if x.shape == () else x
        outside = ((np.atleast_1d(u) < 0) | (np.atleast_1d(u) > 1)) if case["safe"] else np.zeros(t.shape, bool)
        n = max(case["size"], case["size2"], case["i"] + 1)
        ref = textbook(case, t, n)
        agree(fn(arg), ref[..., :fn.size], outside, "call")
        agree(fn.eval_all(arg), ref[..., :fn.size], outside, "eval_all")
        agree(fn.eval_all(arg, case["size2"]), ref[..., :case["size2"]], outside, "eval_all of other size")
        i = case["i"]
        agree(np.asarray(fn.eval_single_moment(i, arg))[..., None], ref[..., i:i + 1], outside, "eval_single_moment({})".format(i), index0=i == 0)
        agree(np.asarray(fn.eval(i, arg))[..., None], ref[..., i:i + 1], outside, "eval({})".format(i), index0=i == 0)
        other = fn.change_size(case["size2"])
        require(other.size == case["size2"] and type(other) is type(fn), "change_size gives {} of size {}", type(other).__name__, other.size)
        require(other == make(case, case["size2"]), "moments after change_size are not equal to moments created of that size")
        agree(other.eval_all(arg), ref[..., :other.size], outside, "after change_size")
        require(fn.size == case["size"], "change_size changed the original")
        # transform
        lo, hi = case["ref"] if case["ref"] is not None else REF[case["family"]]
        tr = np.asarray(fn.transform(np.atleast_1d(x)))
        scale = max(1.0, np.abs(t).max())
        cond = max(1.0, np.abs(np.array(case["domain"])).max() / (case["domain"][1] - case["domain"][0]))
        tol = 1e-13 * scale * cond + 1e-11
        require(np.allclose(tr[~outside], t[~outside], rtol=0, atol=tol), "transform of {} gives {} expected {}", x.tolist(), tr.tolist(), t.tolist())
        require(np.isnan(tr[outside]).all(), "transform of values outside of the domain gives {}", tr[outside].tolist())
        back = np.asarray(fn.inv_transform(t))
        width = case["domain"][1] - case["domain"][0]
        require(np.allclose(back, np.atleast_1d(x), rtol=1e-9, atol=1e-9 * width), "inv_transform of {} gives {} expected {}", t.tolist(), back.tolist(), x.tolist())
        flat = np.sort(np.unique(np.atleast_1d(x)[~outside]))
        if len(flat) > 1:
            require((np.diff(fn.transform(flat)) > 0).all(), "transform is not increasing on {}", flat.tolist())
        ends = fn.inv_transform(np.array([lo, hi]))
        require(np.allclose(ends, case["domain"], rtol=1e-9, atol=1e-9 * width), "the reference domain maps back to {} instead of {}", ends.tolist(), case["domain"])
        if case["family"] == "leg":
            derivatives(case, fn, arg, t, outside, np.eye(fn.size))
    return ["nt"] if case["size"] >= 3 and (~outside).any() else []


def legendre_der(t, size, degree):
    return np.stack([np.polynomial.legendre.Legendre.basis(k).deriv(degree)(t) if degree else np.polynomial.legendre.Legendre.basis(k)(t) for k in range(size)],
                    axis=-1)


def derivatives(case, fn, arg, t, outside, matrix):
    size = len(matrix)
    m = matrix.shape[1]
    small = min(size, case["size2"])

    def exp(degree, k):
        return (legendre_der(t, m, degree) @ matrix.T)[..., :k]

    def same_der(got, want, what):
        got = np.asarray(got, dtype=float)
        require(got.shape == want.shape, "{}: shape {} instead of {}", what, got.shape, want.shape)
        tol = 1e-9 * (1 + np.abs(want).max(initial=0.0))
        g, w = got[~outside], want[~outside]
        require(np.allclose(g, w, rtol=1e-7, atol=tol), "{} gives {} expected {}", what, got.tolist(), want.tolist())
    same_der(fn.eval_all_der(arg, degree=case["degree"]), exp(case["degree"], size), "derivative of degree {}".format(case["degree"]))
    same_der(fn.eval_all_der(arg), exp(1, size), "first derivative")
    same_der(fn.eval_all_der(arg, small, degree=case["degree"]), exp(case["degree"], small), "derivative of degree {} of {} moments".format(case["degree"], small))
    same_der(fn.eval_diff(arg), exp(1, size), "eval_diff")
    same_der(fn.eval_diff2(arg), exp(2, size), "eval_diff2")
    same_der(fn.eval_diff(arg, small), exp(1, small), "eval_diff of fewer moments")
    same_der(fn.eval_diff2(arg, small), exp(2, small), "eval_diff2 of fewer moments")


@st.composite
def trans_cases(draw):
    c = draw(config())
    c["arg"] = draw(arguments())
    c["rows"] = draw(st.integers(1, 6))
    c["mseed"] = draw(st.integers(0, 999))
    c["size2"] = draw(st.integers(1, 12))
    c["i"] = draw(st.integers(0, 5))
    c["degree"] = draw(st.integers(1, 3))
    c["nested"] = draw(st.booleans())
    return c


def matrix_of(seed, n, m):
    a = np.round(arr_values(seed, n, m)[:, 0, :] * 4) / 4
    a[0] = 0
    a[0, 0] = 1
    return a


def run_trans(case):
    with np.errstate(all="ignore"):
        base = make(case)
        A = matrix_of(case["mseed"], case["rows"], base.size)
        fn, mat = TransformedMoments(base, A.copy()), A
        if case["nested"]:
            B = matrix_of(case["mseed"] + 1, 3, case["rows"])
            fn, mat = TransformedMoments(fn, B.copy()), B @ A
        x, u = argument(case)
        t = mapped(case, u)
        arg = float(x) if x.shape == () else x
        outside = ((np.atleast_1d(u) < 0) | (np.atleast_1d(u) > 1)) if case["safe"] else np.zeros(t.shape, bool)
        inside = ~outside
        exp = textbook(case, t, base.size) @ mat.T
        tol = 1e-7 * (1 + np.abs(exp).max(initial=0.0))
        require(fn.size == len(mat) and tuple(fn.domain) == tuple(base.domain), "transformed moments have size {} and domain {}", fn.size, fn.domain)
        i = case["i"] % fn.size
        k = min(case["size2"], fn.size)
        for got, e, what in ((fn(arg), exp, "call"), (fn.eval_all(arg), exp, "eval_all"), (fn.eval_all(arg, k), exp[..., :k], "eval_all of fewer"),
                             (fn.eval_single_moment(i, arg), exp[..., i], "eval_single_moment"), (fn.eval(i, arg), exp[..., i], "eval")):
            got = np.asarray(got)
            require(got.shape == e.shape, "{} of transformed moments has shape {} instead of {}", what, got.shape, e.shape)
            require(np.allclose(got[inside], e[inside], rtol=1e-6, atol=tol), "{} of transformed moments gives {} expected {}", what, got.tolist(), e.tolist())
        twin = TransformedMoments(make(case), A.copy())
        if case["nested"]:
            twin = TransformedMoments(twin, B.copy())
        require(fn == twin, "equal transformed moments are reported as different")
        if case["family"] == "leg":
            derivatives(dict(case, size2=k), fn, arg, t, outside, mat)
    return ["nt"] if base.size >= 3 and inside.any() else []


@st.composite
def eq_cases(draw):
    c = draw(config())
    c["change"] = draw(st.sampled_from([None, None, "family", "size", "domain", "ref", "log", "safe", "matrix", "origin"]))
    c["mseed"] = draw(st.integers(0, 99))
    c["mscale"] = draw(st.sampled_from([0, 0, -12, -6, 5]))
    c["rel"] = draw(st.sampled_from([1.0, 1e-3, 1e-7, 1e-10]))
    return c


def run_eq(case):
    a = make(case)
    d = dict(case)
    ch = case["change"]
    if ch == "family":
        d["family"] = dict(mono="leg", leg="fourier", fourier="mono")[case["family"]]
        d["ref"] = case["ref"] if case["ref"] is not None else list(REF[case["family"]])
    elif ch == "size":
        d["size"] += 1
    elif ch == "domain":
        d["domain"] = [case["domain"][0], case["domain"][1] * (2 if case["domain"][1] > 0 else 0.5) + 1.0]
    elif ch == "ref":
        d["ref"] = [0.5, 3.0] if case["ref"] is None else None if tuple(case["ref"]) != REF[case["family"]] else [0.5, 3.0]
    elif ch in ("log", "safe"):
        d[ch] = not case[ch]
        if d["log"] and d["domain"][0] <= 0:
            return []
    b = make(d)
    n, m = 2, case["size"]
    A = matrix_of(case["mseed"], n, m)
    if ch in ("matrix", "origin"):
        if ch == "origin":
            o = make(dict(case, domain=[case["domain"][0], case["domain"][1] + 1.0]))
            x, y = TransformedMoments(a, A), TransformedMoments(o, A.copy())
        else:
            scale = 10.0 ** case["mscale"]
            A = A * scale
            B = A.copy()
            B[1, -1] += 0.5 * scale * case["rel"]
            x, y = TransformedMoments(a, A), TransformedMoments(a, B)
        require(not (x == y), "transformed moments differing in {} are equal", ch)
        require(not (a == x) and not (x == a), "moments equal to transformed ones")
        return ["nt"]
    require(bool(a == b) is (ch is None), "moments {} and {} compare as {}", case, d, a == b)
    require(bool(b == a) is (ch is None), "equality is not symmetric")
    return ["nt"]


@st.composite
def end_cases(draw):
    return dict(family=draw(st.sampled_from(["mono", "leg", "fourier"])), log=draw(st.booleans()), ref=draw(st.sampled_from([None, None, [-1.0, 1.0], [0.5, 2.0], [-3.0, 0.1]])),
                a=draw(st.integers(-2000, 2000)), w=draw(st.lists(st.integers(1, 5000), min_size=1, max_size=40)), q=draw(st.sampled_from([1.0, 3.0, 7.0, 13.0, 1e4])), size=draw(st.integers(2, 5)))


def run_ends(case):
    """Both ends belong to the domain, whatever the rounding of the mapping; many widths per case."""
    with np.errstate(all="ignore"):
        for w in case["w"]:
            a = case["a"] / case["q"]
            a, b = (np.exp(a / 1000), np.exp(a / 1000 + w / 1000)) if case["log"] else (a, a + w / 3.0)
            c = dict(family=case["family"], size=case["size"], domain=[float(a), float(b)], ref=case["ref"], log=case["log"], safe=True)
            fn = make(c)
            exp = textbook(c, mapped(c, np.array([0.0, 1.0])), case["size"])
            agree(fn.eval_all(np.array(c["domain"])), exp, np.zeros(2, bool), "eval_all of the ends of {}".format(c["domain"]))
            agree(fn.eval_all(c["domain"][1]), exp[1:], np.zeros(1, bool), "eval_all of the upper end of {}".format(c["domain"]))
    return ["nt"] if len(case["w"]) > 1 else []


PARTS = [Part("ends", end_cases(), run_ends, quick=120, thorough=2000),
         Part("functions", cases(), run, quick=1500, thorough=40000),
         Part("transformed", trans_cases(), run_trans, quick=600, thorough=15000),
         Part("equality", eq_cases(), run_eq, quick=300, thorough=5000)]
