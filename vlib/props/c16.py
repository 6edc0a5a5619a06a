"""Mean and variance estimates."""
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity_estimate import estimate_mean

RULE = ("A case is a result format, 1-4 levels with 1 to 30 samples of magnitudes 1e-3 to 1e6, NaN at generated places (whole samples, fine or coarse only), "
        "in the memory or HDF5 storage (some spanning several chunks), and an index path. The estimate is compared with a reference "
        "estimator. Cases where every sample contains NaN must raise. Part accuracy: offsets up to 1e18 times the differences, constants, each component compared at its own scale. Non-trivial: more than one level and a NaN, or a one-sample level, or several chunks.")
ASSUMPTIONS = ["every level keeps a usable sample, or none does"]


@st.composite
def cases(draw):
    c = draw(qref.data(max_specs=2, max_levels=4, max_n=7))
    c["scale"] = draw(st.sampled_from([1.0, 1.0, 1e-3, 1e6]))
    c["offset"] = draw(st.sampled_from([0.0, 0.0, 3.0]))
    c["nan"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 500), st.integers(0, 1), st.integers(0, 500)).map(list), max_size=6))
    c["blocks"] = draw(st.one_of(st.just([]), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 30), st.integers(1, 12)).map(list), max_size=2)))
    c["inf"] = draw(st.one_of(st.just([]), st.just([]), st.lists(st.tuples(st.integers(0, 3), st.integers(0, 500), st.integers(0, 1), st.integers(0, 500), st.booleans()).map(list), max_size=3)))
    c["all_nan"] = draw(st.integers(0, 11)) == 0
    c["path"] = draw(st.lists(qref.step, max_size=5))
    return c


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        m = specs_size(case["specs"])
        L = len(case["n"])
        levels = [arr_values(case["seed"] + l, n, m) * case["scale"] + case["offset"] for l, n in enumerate(case["n"])]
        for l, i, fc, j in case["nan"]:
            l %= L
            if l == 0 and fc == 1:
                continue
            levels[l][i % len(levels[l]), fc, j % m] = np.nan
        for l, a, k in case["blocks"]:
            # a run of samples with NaN, so that whole chunks have none left; the level keeps a sample
            x = levels[l % L]
            a %= len(x)
            keep = x[0 if a else -1].copy()
            x[a:a + k, 0, :] = np.nan
            x[0 if a else -1] = keep
        for l, i, fc, j, neg in case["inf"]:
            l %= L
            if l == 0 and fc == 1:
                continue
            x = levels[l]
            if not np.isnan(x[i % len(x), fc, j % m]):
                x[i % len(x), fc, j % m] = -np.inf if neg else np.inf
        if case["all_nan"]:
            for a in levels:
                a[:, 0, :] = np.nan
        storage = make_storage(case["storage"], d)
        specs = to_specs(case["specs"])
        fill_storage(storage, specs, levels)
        root = qref.make_root_quantity(storage, specs)
        q, t, v = qref.walk(root, qref.root_type(case["specs"]), qref.levels_to_vals(levels), case["path"])[-1]
        usable = [(~np.isnan(x).any(axis=(0, 2))).any() for x in v]
        if not any(usable):
            try:
                e = estimate_mean(q)
            except Exception:
                return ["all samples removed", "nt"]
            raise Violation("estimate {} although every sample contains NaN".format(e.mean))
        if not all(usable):
            return []
        e = estimate_mean(q)
        if any(np.isinf(x).any() for x in v):
            # infinite values are not NaN: the samples count; components without infinite values are estimated as ever
            fin = ~np.logical_or.reduce([np.isinf(x).any(axis=(1, 2)) for x in v])
            lm, lv, n, nr = qref.ref_estimate(v)
            require(np.array_equal(e.n_samples, n) and np.array_equal(e.n_rm_samples, nr), "samples with infinite values: used/removed {}/{}, expected {}/{}",
                    list(e.n_samples), list(e.n_rm_samples), n.tolist(), nr.tolist())
            if fin.any():
                sc = max([1.0] + [float(np.nanmax(np.abs(x[fin]))) for x in v])
                require(close(np.reshape(e.l_means, lm.shape)[:, fin], lm[:, fin], atol=1e-9 * sc), "level means of components without infinite values: {} expected {}",
                        np.reshape(e.l_means, lm.shape)[:, fin].tolist(), lm[:, fin].tolist())
                require(close(np.reshape(e.l_vars, lv.shape)[:, fin], lv[:, fin], rtol=1e-7, atol=1e-9 * sc ** 2), "level variances of components without infinite values")
            require(not np.isfinite(np.reshape(e.l_means, lm.shape)[~np.isfinite(lm)]).any(), "finite mean of infinite values")
            return ["infinite", "nt"]
        qref.check_estimate(e, v, "estimate")
        require(np.array_equal(np.add(e.n_samples, e.n_rm_samples), case["n"]), "used and removed samples do not add up to the collected")
        again = estimate_mean(q)
        require(same(again.mean, e.mean) and same(again.var, e.var), "second estimate differs")
        labels = []
        if any(np.isnan(x).any() for x in v):
            labels.append("nan")
        if 1 in case["n"]:
            labels.append("one-sample level")
        if any(len(list(storage.chunks(level_id=l))) > 1 for l in range(L)):
            labels.append("several chunks")
    return labels + (["nt"] if labels and L > 1 else [])


@st.composite
def accuracy_cases(draw):
    comp = st.tuples(st.sampled_from([0.0, 1.0, -3.0, 0.1]), st.integers(-6, 9), st.integers(-9, 6), st.booleans()).map(list)
    M = draw(st.integers(1, 3))
    L = draw(st.integers(1, 3))
    return dict(L=L, comps=draw(st.lists(st.lists(comp, min_size=M, max_size=M), min_size=L, max_size=L)),
                n=draw(st.lists(st.one_of(st.integers(1, 30), st.integers(1, 30), st.sampled_from([65, 70, 129])), min_size=L, max_size=L)), kind=draw(st.sampled_from(["mem", "hdf", "wide"])),
                nan=draw(st.lists(st.tuples(st.integers(0, 2), st.integers(1, 29)).map(list), max_size=3)),
                far=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)))


def run_accuracy(case):
    """Offsets large against the differences, constants: every component is compared at its own scale."""
    L, M = case["L"], len(case["comps"][0])
    with scratch() as d, np.errstate(all="ignore"):
        size = M + (400 if case["kind"] == "wide" else 0)
        levels = []
        for l, n in enumerate(case["n"]):
            rng = np.random.RandomState(case["seed"] + l)
            a = np.zeros((n, 2, size))
            for j, (off, e_off, e_spread, const) in enumerate(case["comps"][l]):
                o, s = off * 10.0 ** e_off, 0.0 if const else 10.0 ** e_spread
                a[:, 0, j] = o + s * rng.uniform(-1, 1, n)
                if l:
                    a[:, 1, j] = rng.choice([0.0, -o, o / 2]) + s * rng.uniform(-0.5, 0.5, n)
                if case["far"]:
                    a[0, 0, j] = 2 * o       # first sample (and chunk) far from the others
            for k, i in case["nan"]:
                if k == l and i < n:
                    a[i, 0, 0] = np.nan
            levels.append(a)
        storage = make_storage("mem" if case["kind"] == "mem" else "hdf", d)
        specs = vector_format(size)
        fill_storage(storage, specs, levels)
        root = qref.make_root_quantity(storage, specs)
        e = estimate_mean(root["q"][1.0]["10"] if case["seed"] % 2 else root)
        vals = qref.levels_to_vals(levels)
        lm, lv, n, nr = qref.ref_estimate(vals)
        require(np.array_equal(e.n_samples, n) and np.array_equal(e.n_rm_samples, nr), "used/removed samples {}/{}", list(e.n_samples), list(e.n_rm_samples))
        g_m, g_v = np.reshape(e.l_means, lm.shape), np.reshape(e.l_vars, lv.shape)
        require((g_v >= 0).all(), "negative variance {}", g_v.tolist())
        nt = False
        for l in range(L):
            for j in range(size):
                s = float(np.nanmax(np.abs(vals[l][j])))
                eps = 1e-14 * s
                require(abs(g_m[l, j] - lm[l, j]) <= 100 * eps, "level {} component {}: mean {} expected {}", l, j, g_m[l, j], lm[l, j])
                ref = lv[l, j]
                if n[l] < 2:
                    require(np.isinf(g_v[l, j]) and g_v[l, j] > 0, "variance of one sample is {}", g_v[l, j])
                    continue
                require(abs(g_v[l, j] - ref) <= 1e-9 * ref + eps * np.sqrt(ref) + eps ** 2, "level {} component {} (values up to {}): variance {} expected {}",
                        l, j, s, g_v[l, j], ref)
                nt |= j < M and np.sqrt(ref) < 1e-4 * s
        var = (lv / n[:, None]).sum(axis=0)
        if (n > 1).all():
            slack = sum((1e-14 * np.nanmax(np.abs(v), axis=(1, 2))) * np.sqrt(x) + (1e-14 * np.nanmax(np.abs(v), axis=(1, 2))) ** 2 for v, x in zip(vals, lv))
            require((np.abs(np.ravel(e.var) - var) <= 1e-9 * var + slack).all(), "variance {} expected {}", np.ravel(e.var)[:M].tolist(), var[:M].tolist())
    return ["accuracy", case["kind"]] + (["nt"] if nt else [])


PARTS = [Part("estimates", cases(), run, quick=900, thorough=30000),
         Part("accuracy", accuracy_cases(), run_accuracy, quick=500, thorough=20000)]
