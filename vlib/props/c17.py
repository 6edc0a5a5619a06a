"""Moment and covariance estimates and indexing of estimates."""
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity_estimate import estimate_mean, moments, moment, covariance
from mlmc.moments import Monomial, Legendre
from mlmc.estimator import Estimate
from mlmc.quantity.quantity import Quantity

RULE = ("A case is a result format with samples on 1-3 levels, a quantity in it, and moments (family, size, domain covering all or a part of the values). The "
        "plain, moment and covariance estimates, with the functions below or above the structure, are compared with a reference built from "
        "textbook functions, then indexed along generated paths, both as estimates and as quantities estimated afterwards. Non-trivial: an index path of at "
        "least one array key or two steps was compared.")
ASSUMPTIONS = ["samples lost by NaN are lost for the whole estimate, so indexing before and after estimating is compared without NaN"]


@st.composite
def cases(draw):
    c = draw(qref.data(max_specs=2, max_times=2, max_locs=2, max_levels=3, max_n=5))
    c["path"] = draw(st.lists(qref.step, max_size=5))
    c["what"] = draw(st.sampled_from(["plain", "moments", "moments", "moments top", "cov", "cov top", "moment"]))
    c["family"] = draw(st.sampled_from(["mono", "legendre"]))
    c["R"] = draw(st.one_of(st.integers(1, 4), st.integers(1, 7)))
    c["i"] = draw(st.integers(0, 6))
    c["domain"] = draw(st.sampled_from([[-2.5, 2.5], [-2.5, 2.5], [-1.9, 2.0], [-3.0, 4.0]]))
    c["ref"] = draw(st.sampled_from([None, None, [-1.0, 1.0], [0.0, 2.0]]))
    c["deep"] = draw(st.one_of(st.none(), st.none(), st.none(), st.lists(st.integers(0, 1), min_size=2, max_size=2), st.lists(st.integers(0, 1), min_size=4, max_size=4)))
    c["back"] = draw(st.lists(st.lists(qref.step, min_size=1, max_size=6), min_size=1, max_size=3))
    return c


def textbook(family, R, domain, ref, x):
    """Moments of x as [..., R]; NaN outside the domain."""
    a, b = domain
    lo, hi = ref if ref is not None else ((0.0, 1.0) if family == "mono" else (-1.0, 1.0))
    y = lo + (x - a) / (b - a) * (hi - lo)
    y = np.where((x < a) | (x > b), np.nan, y)
    if family == "mono":
        return np.stack([y ** k if k else np.where(np.isnan(y), np.nan, 1.0) for k in range(R)], axis=-1)
    out = [np.polynomial.legendre.legval(y, [0] * k + [1]) for k in range(R)]
    return np.stack([np.where(np.isnan(y), np.nan, o) for o in out], axis=-1)


def replace(t, new):
    if t[0] == "scalar":
        return new
    if t[0] == "dict":
        return ("dict", [(k, replace(x, new)) for k, x in t[1]])
    return (t[0], t[1], replace(t[2], new))


def shape_of(t):
    if t[0] == "array":
        return tuple(t[1]) if t[2][0] == "scalar" else tuple(t[1]) + (qref.type_size(t[2]),)
    return (qref.type_size(t),)


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        storage, root, t, vals, _ = qref.build(case, d)
        q, qt, v = qref.walk(root, t, vals, case["path"])[-1]
        R, what = case["R"], case["what"]
        if case["deep"]:
            # an array of more dimensions, of scalars or of whole structures
            p = [(q, v), (q * 0.5, [x * 0.5 for x in v])]
            pick = [p[i] for i in case["deep"]]
            n = len(pick)
            cells = [[[x[0]] for x in pick[:n // 2]], [[x[0]] for x in pick[n // 2:]]]
            q, qt, v = Quantity.QArray(cells), ("array", (2, n // 2, 1), qt), [np.concatenate([x[1][l] for x in pick], axis=0) for l in range(len(v))]
        if max(len(x) for x in v) > 30 and "cov" in what:
            R = 2
        fn = (Monomial if case["family"] == "mono" else Legendre)(R, tuple(case["domain"]), **({} if case["ref"] is None else dict(ref_domain=tuple(case["ref"]))))
        mom = [textbook(case["family"], R, case["domain"], case["ref"], x) for x in v]              # [M, N, c, R]
        if what == "plain":
            e_q, e_t, e_v = q, qt, v
        elif what == "moment":
            i = case["i"] % R
            e_q, e_t, e_v = moment(q, fn, i), qt, [m[..., i] for m in mom]
        elif what.startswith("moments"):
            bottom = what == "moments"
            e_q = moments(q, fn, mom_at_bottom=bottom)
            e_t = replace(qt, ("array", (R,), ("scalar",))) if bottom else ("array", (R,), qt)
            e_v = [(m.transpose(0, 3, 1, 2) if bottom else m.transpose(3, 0, 1, 2)).reshape(-1, *x.shape[1:]) for m, x in zip(mom, v)]
        else:
            bottom = what == "cov"
            e_q = covariance(q, fn, cov_at_bottom=bottom)
            e_t = replace(qt, ("array", (R, R), ("scalar",))) if bottom else ("array", (R, R), qt)
            prod = [m[..., :, None] * m[..., None, :] for m in mom]                                # [M, N, c, R, R]
            e_v = [(p.transpose(0, 3, 4, 1, 2) if bottom else p.transpose(3, 4, 0, 1, 2)).reshape(-1, *x.shape[1:]) for p, x in zip(prod, v)]
        if not all((~np.isnan(x).any(axis=(0, 2))).any() for x in e_v):
            return []
        if len(e_v[0]) > 20000:
            return []
        e = estimate_mean(e_q)
        qref.check_estimate(e, e_v, what)
        require(np.shape(e.mean) == shape_of(e_t), "{}: mean of shape {} expected {}", what, np.shape(e.mean), shape_of(e_t))
        require(np.shape(e.l_means) == (len(v),) + shape_of(e_t), "{}: level means of shape {}", what, np.shape(e.l_means))
        # wrappers
        est = Estimate(q, storage, fn)
        if what == "moments":
            for args in ((), (fn,)):
                m_, v_ = est.estimate_moments(*args)
                require(same(m_, e.mean) and same(v_, e.var), "Estimate.estimate_moments differs from the estimate")
                lv, n = est.estimate_diff_vars(*args)
                require(same(lv, e.l_vars) and np.array_equal(n, e.n_samples), "Estimate.estimate_diff_vars differs from the estimate")
        if what == "cov":
            m_, v_ = est.estimate_covariance()
            require(same(m_, e.mean) and same(v_, e.var), "Estimate.estimate_covariance differs from the estimate")
        # indexing
        nan = any(np.isnan(x).any() for x in e_v)
        clean = [x[:, ~np.isnan(x).any(axis=(0, 2))] for x in e_v]
        deep = 0
        for path in case["back"]:
            ei, ti, vi = e, e_t, clean
            qi = e_q
            n = 0
            for s in path:
                if ti[0] == "scalar":
                    break
                key, ti2, pos = qref.index(ti, s)
                n += 2 if ti[0] == "array" else 1
                ei, qi = ei[key], qi[key]
                ti, vi = ti2, [x[pos] for x in vi]
                lm, lv, ns, _ = qref.ref_estimate(vi)
                sc = max([1.0] + [float(np.abs(x).max()) for x in vi])
                require(np.shape(ei.mean) == shape_of(ti), "{} {}: indexed mean of shape {} expected {}", what, path, np.shape(ei.mean), shape_of(ti))
                require(close(np.reshape(ei.l_means, lm.shape), lm, atol=1e-9 * sc), "{}: level means indexed by {}: {} expected {}", what, path,
                        ei.l_means.tolist(), lm.tolist())
                require(close(np.reshape(ei.l_vars, lv.shape), lv, rtol=1e-7, atol=1e-9 * sc ** 2), "{}: level variances indexed by {}: {} expected {}",
                        what, path, ei.l_vars.tolist(), lv.tolist())
                require(close(np.ravel(ei.mean), lm.sum(axis=0), atol=1e-9 * sc), "{}: mean indexed by {}", what, path)
                require(close(np.ravel(ei.var), (lv / ns[:, None]).sum(axis=0), rtol=1e-7, atol=1e-9 * sc ** 2), "{}: variance indexed by {}", what, path)
                require(np.array_equal(ei.n_samples, e.n_samples) and np.array_equal(ei.n_rm_samples, e.n_rm_samples),
                        "{}: sample numbers changed by indexing", what)
            deep = max(deep, n)
            if not nan and n:
                e2 = estimate_mean(qi)
                require(close(e2.mean, ei.mean) and close(e2.var, ei.var, rtol=1e-7) and close(e2.l_means, ei.l_means) and np.shape(e2.l_vars) == np.shape(ei.l_vars),
                        "{}: estimate of the quantity indexed by {} differs from the indexed estimate", what, path)
    return ["nt"] if deep > 1 else []


PARTS = [Part("layout", cases(), run, quick=700, thorough=20000)]
