"""Optimal numbers of samples."""
from vlib.common import *
from mlmc.estimator import estimate_n_samples_for_target_variance as estimate

RULE = ("A case is a table of level variances (1-12 levels, 1-5 moments, optionally with a zero column, decaying over levels or not), costs over six orders of magnitude, and a target variance. "
        "The result is compared with the documented formula computed in integers' neighbourhood, with the Cauchy-Schwarz bound of cost and variance, and with results for "
        "scaled costs, scaled targets, scaled variances and permuted moments. Non-trivial: at least two levels and some level gets more than two samples.")
ASSUMPTIONS = ["variances non-negative, costs and target positive, numbers of samples below 1e12"]


@st.composite
def cases(draw):
    L, M = draw(st.sampled_from([1, 2, 3, 4, 5, 8, 12])), draw(st.integers(1, 5))
    mant = st.integers(10, 99).map(lambda k: k / 10.0)
    v = [[draw(mant) * 10.0 ** draw(st.integers(-4, 1)) for _ in range(M)] for _ in range(L)]
    if draw(st.booleans()):
        v = [[0.0] + r for r in v]
    return dict(v=v, ops=[draw(mant) * 10.0 ** draw(st.integers(-3, 3)) for _ in range(L)], t=draw(mant) * 10.0 ** draw(st.integers(-6, 1)),
                k=draw(st.sampled_from([2.0, 3.0, 10.0, 1000.0])), c=draw(st.sampled_from([1e-9, 1e-3, 7.0, 3600.0, 1e9])), perm=draw(st.integers(0, 100)))


def near(got, real):
    """got is one of the integers a real number may be rounded to."""
    return np.all((got >= np.floor(real * (1 - 1e-12)) - 1e-9) & (got <= np.ceil(real * (1 + 1e-12)) + 1e-9))


def run(case):
    with np.errstate(all="ignore"):
        v, ops, t = np.array(case["v"]), np.array(case["ops"]), case["t"]
        L, M = v.shape
        given = v.copy(), ops.copy()
        n = np.asarray(estimate(t, v, ops, n_levels=L))
        require(same(v, given[0]) and same(ops, given[1]), "the passed arrays were changed")
        require(n.shape == (L,) and n.dtype.kind == "i", "result {} is not one whole number per level", n)
        require((n >= 2).all(), "fewer than two samples: {}", n.tolist())
        root = np.sqrt(v * ops[:, None])
        opt = np.sqrt(v / ops[:, None]) * root.sum(axis=0) / t
        real = np.maximum(np.minimum(opt, v * L / t), 2).max(axis=1)
        require((np.abs(n - real) <= 1 + 1e-9 * real).all(), "numbers of samples {}, the formula gives {}", n.tolist(), real.tolist())
        # variance and cost
        var = (v / n[:, None]).sum(axis=0)
        require((var <= 3 * t * (1 + 1e-9)).all(), "predicted variances {} for target {}", var.tolist(), t)
        if (real >= 50).all():
            require((var <= 2 * t * 1.03).all(), "predicted variances {} for target {}", var.tolist(), t)
            if (opt <= v * L / t).all():
                require((var <= t * 1.03).all(), "predicted variances {} for target {} without the cap", var.tolist(), t)
        if M == 1:
            best = root.sum() ** 2 / t
            require(ops @ n <= best + 2 * ops.sum() + 1e-6 * best, "cost {} above the optimum {}", ops @ n, best)
        else:
            single = np.array([estimate(t, v[:, m:m + 1], ops, n_levels=L) for m in range(M)])
            require(same(n, single.max(axis=0)), "numbers {} are not the largest over single moments {}", n.tolist(), single.tolist())
        # relations
        k = case["k"]
        more = np.asarray(estimate(t / k, v, ops, n_levels=L))
        require((more >= n).all(), "a smaller target asks for fewer samples: {} -> {}", n.tolist(), more.tolist())
        big = real > 20
        require((np.abs(more[big] / (k * n[big]) - 1) <= 2.0 / n[big] + 1e-6).all(), "numbers do not scale with the target: {} times {} -> {}", n.tolist(), k, more.tolist())
        unit = np.asarray(estimate(t, v, ops * case["c"], n_levels=L))
        require((np.abs(unit - n) <= 1 + 1e-9 * n).all(), "numbers depend on the unit of cost: {} and {}", n.tolist(), unit.tolist())
        both = np.asarray(estimate(t * 4.0, v * 4.0, ops, n_levels=L))
        require((np.abs(both - n) <= 1 + 1e-9 * n).all(), "numbers depend on the unit of the quantity: {} and {}", n.tolist(), both.tolist())
        p = np.random.RandomState(case["perm"]).permutation(M)
        require(same(np.asarray(estimate(t, v[:, p], ops, n_levels=L)), n), "numbers depend on the order of moments")
    return ["nt"] if L > 1 and (n > 2).any() else []


PARTS = [Part("allocation", cases(), run, quick=2500, thorough=60000)]
