"""Plots contain the data they were given (read back from the figure)."""
import matplotlib
matplotlib.use("agg")
import matplotlib.pyplot as plt
import matplotlib.collections as mcol
import scipy.stats as sps
from vlib.common import *
from mlmc.plot import plots
from mlmc.moments import Legendre, Monomial, Fourier
from mlmc.estimator import Estimate
from mlmc.quantity.quantity import make_root_quantity

RULE = ("distribution: one to three distributions on generated domains, with or without exact distribution, raw samples, error curves and logarithmic axes; variances: tables of level variances of one to three "
        "runs with generated numbers of levels, moments and shown moments, with or without reference; steps: level variances over steps; eigenvalues: sets of eigenvalues in either order, also non-positive, with "
        "errors and thresholds; moments: moment functions; estimate: the variance plot of an Estimate; bootstrap: the three plots of its bootstrap estimates; series: convergence, means, ratios, level variances and errors of several runs. The figure is read back: curves, points, bars and error bars have to be the given data. Non-trivial: at least two data sets or moments.")
ASSUMPTIONS = ["at least two moments", "level variances over steps need at least six different steps (they are smoothed by a spline)"]


def curves(axs):
    """All point sequences drawn in the axes, as arrays [n, 2]."""
    out = []
    for ax in axs:
        out += [np.column_stack([np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)]) for l in ax.lines]
        out += [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if not isinstance(c, mcol.LineCollection)]
    return [c for c in out if len(c)]


def has_curve(axs, f, lo, hi, what):
    for c in curves(axs):
        if len(c) < 100 or (np.diff(c[:, 0]) < 0).any():
            continue
        span = hi - lo
        if abs(c[0, 0] - lo) > 1e-9 * span or abs(c[-1, 0] - hi) > 1e-9 * span or np.diff(c[:, 0]).max() > 0.2 * span:
            continue
        if np.allclose(c[:, 1], f(c[:, 0]), rtol=1e-9, atol=1e-12, equal_nan=True):
            return
    raise Violation("no curve of {} over [{}, {}] in the plot".format(what, lo, hi))


class Stub:
    """What the plot uses of a distribution."""
    def __init__(self, kind, lo, hi, p):
        self.domain = (lo, hi)
        self.moments_fn = Legendre(3, (lo, hi))
        c, w = lo + (0.2 + 0.6 * p) * (hi - lo), (hi - lo) * (0.1 + 0.3 * p)
        self._d = sps.norm(c, w) if kind == "norm" else sps.uniform(lo, hi - lo) if kind == "uniform" else sps.expon(lo, w)

    def density(self, x):
        return self._d.pdf(np.asarray(x))

    def cdf(self, x):
        return self._d.cdf(np.asarray(x))


@st.composite
def dist_cases(draw):
    log_x = draw(st.booleans())
    one = st.tuples(st.sampled_from(["norm", "uniform", "expon"]), st.sampled_from([0.5, 1.0, 2.0] if log_x else [-3.0, 0.0, 0.5, 100.0]), st.sampled_from([1.0, 4.0, 0.3]), st.integers(0, 4).map(lambda k: k / 4)).map(list)
    return dict(log_x=log_x, ds=draw(st.lists(one, min_size=1, max_size=3)), exact=draw(st.one_of(st.none(), st.sampled_from([0.0, 1.0, 3.0]))), cdf=draw(st.booleans()), log_d=draw(st.booleans()),
                err=draw(st.sampled_from([None, "l2", "kl"])), raw=draw(st.one_of(st.none(), st.tuples(st.one_of(st.integers(2, 20), st.integers(16, 300), st.sampled_from([500, 1000, 5000])), st.integers(0, 99), st.booleans()).map(list))), name=draw(st.sampled_from(["pic", "pic.pdf", ""])))


def run_dist(case):
    with scratch() as d, np.errstate(all="ignore"):
        os.chdir(d)
        try:
            exact = None if case["exact"] is None else sps.norm(case["exact"], 2.0)
            p = plots.Distribution(exact_distr=exact, title="some title", log_density=case["log_d"], cdf_plot=case["cdf"], log_x=case["log_x"], error_plot=case["err"])
            ds = [Stub(k, lo, lo + size, q) for k, lo, size, q in case["ds"]]
            raw = None
            if case["raw"]:
                n, seed, first = case["raw"]
                raw = np.random.RandomState(seed).rand(n) * 2 + 0.25
                if first:
                    p.add_raw_samples(raw)
            for i, x in enumerate(ds):
                p.add_distribution(x, label="d{}".format(i))
            if raw is not None and not first:
                p.add_raw_samples(raw)
            p.show(os.path.join(d, case["name"]) if case["name"] else "")
            require(os.path.isfile(os.path.join(d, dict(zip(["pic", "pic.pdf", ""], ["pic.pdf", "pic.pdf", "some title.pdf"]))[case["name"]])), "the figure was not saved, files {}", os.listdir(d))
            axs = [a for f in (p.fig, p.fig_cdf) if f is not None for a in f.axes]
            err_axs = [a for a in axs if a is not p.ax_pdf and a is not p.ax_cdf]
            for i, x in enumerate(ds):
                lo, hi = x.domain
                has_curve([p.ax_pdf], x.density, lo, hi, "density {}".format(i))
                has_curve([p.ax_cdf], x.cdf, lo, hi, "distribution function {}".format(i))
                require("d{}".format(i) in [t.get_text() for t in p.ax_pdf.get_legend().get_texts()], "no label of distribution {}", i)
                if exact is not None and case["err"]:
                    if case["err"] == "kl":
                        has_curve(err_axs, lambda t: exact.pdf(t) * np.log(exact.pdf(t) / x.density(t)) - exact.pdf(t) + x.density(t), lo, hi, "divergence {}".format(i))
                    else:
                        has_curve(err_axs, lambda t: x.density(t) - exact.pdf(t), lo, hi, "error {}".format(i))
                    has_curve(err_axs, lambda t: x.cdf(t) - exact.cdf(t), lo, hi, "error of distribution function {}".format(i))
            lo = min([x.domain[0] for x in ds] + ([raw.min()] if raw is not None else []))
            hi = max([x.domain[1] for x in ds] + ([raw.max()] if raw is not None else []))
            if exact is not None:
                has_curve([p.ax_pdf], exact.pdf, lo, hi, "exact density")
                has_curve([p.ax_cdf], exact.cdf, lo, hi, "exact distribution function")
            if raw is not None:
                bars = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in p.ax_pdf.patches]
                require(bars, "no histogram of {} samples", len(raw))
                inside = sum(((raw >= a - 1e-12) & (raw <= b + 1e-12)).sum() for a, b, h in bars)
                require(inside >= len(raw), "bars of the histogram cover {} of {} samples", inside, len(raw))
                require(abs(sum((b - a) * h for a, b, h in bars) - 1) < 1e-9, "histogram has area {}", sum((b - a) * h for a, b, h in bars))
                for a, b, h in bars:
                    low, high = ((raw > a + 1e-9) & (raw < b - 1e-9)).mean(), ((raw >= a - 1e-9) & (raw <= b + 1e-9)).mean()
                    require(low - 1e-9 <= (b - a) * h <= high + 1e-9, "bar [{}, {}] has area {} for a fraction {} of samples", a, b, (b - a) * h, high)
            p.reset()
        finally:
            plt.close("all")
    return ["nt"] if len(ds) > 1 or raw is not None else []


def shown_moments(R, k, labels):
    """The moments shown, from the labels; checks them against the request."""
    got = [int(t) for t in labels[1:]]
    require(labels[0] == "avg" and all(b > a for a, b in zip(got, got[1:])) and all(1 <= m < R for m in got), "labels {} of {} moments", labels, R)
    require(got == list(range(1, R)) if k is None else len(got) == min(k, R - 1) and got[0] == 1 and (len(got) == 1 or got[-1] == R - 1), "moments {} shown for {} of {}", got, k, R)
    return got


def check_bars(ax, tables, k):
    """Bars of stacked contributions level_vars / n_samples: average first, then the shown moments, one group per table."""
    R = tables[0][0].shape[1]
    labels = [t.get_text() for t in ax.get_xticklabels()]
    per = len(labels) // len(tables)
    sub = shown_moments(R, k, labels[:per])
    require(labels == labels[:per] * len(tables), "labels {}", labels)
    groups = {}
    for b in ax.patches:
        if b.get_width() > 0:
            groups.setdefault(round(b.get_x() + b.get_width() / 2, 6), []).append((min(b.get_y(), b.get_y() + b.get_height()), abs(b.get_height())))
    xs = sorted(groups)
    require(np.allclose(xs, sorted(ax.get_xticks()), atol=1e-5), "bars at {}, ticks at {}", xs, list(ax.get_xticks()))
    segs = [np.asarray(s) for c in ax.collections if isinstance(c, mcol.LineCollection) for s in c.get_segments()]
    i = 0
    for v, n, ref in tables:
        part = v[:, sub] / n[:, None]
        part = np.column_stack([part.mean(axis=1), part])
        refp = None
        if ref is not None:
            refp = ref[:, sub] / n[:, None]
            refp = np.column_stack([refp.mean(axis=1), refp])
        for j in range(part.shape[1]):
            col = sorted(groups[xs[i]])
            exp = part[::-1, j]           # finest level at the bottom
            bottoms = np.concatenate([[0], np.cumsum(exp)[:-1]])
            require(len(col) == len(exp) and np.allclose(sorted(h for _, h in col), sorted(exp), rtol=1e-9, atol=1e-15), "bar {} is made of {} expected {}", i, [h for _, h in col], exp.tolist())
            require(np.allclose(sorted(b for b, _ in col), sorted(bottoms), rtol=1e-9, atol=1e-12), "parts of bar {} start at {} expected {}", i, [b for b, _ in col], bottoms.tolist())
            if refp is not None:
                for l in range(len(v)):
                    top = bottoms[len(v) - 1 - l] + part[l, j]
                    lo, hi = min(top, top + refp[l, j] - part[l, j]), max(top, top + refp[l, j] - part[l, j])
                    require(any(abs(s[0, 0] - xs[i]) < 1e-5 and np.allclose(sorted(s[:, 1]), [lo, hi], rtol=1e-9, atol=1e-12) for s in segs), "no error bar [{}, {}] of level {} at bar {}", lo, hi, l, i)
            i += 1
    require(i == len(xs), "{} bars expected {}", len(xs), i)


@st.composite
def var_cases(draw):
    return dict(R=draw(st.integers(2, 14)), k=draw(st.one_of(st.none(), st.integers(1, 16))), runs=draw(st.lists(st.tuples(st.integers(1, 5), st.integers(0, 99), st.booleans()).map(list), min_size=1, max_size=3)))


def run_var(case):
    with scratch() as d:
        try:
            p = plots.VarianceBreakdown(case["k"])
            tables = []
            for L, seed, ref in case["runs"]:
                r = np.random.RandomState(seed)
                v, n, f = r.rand(L, case["R"]) + 0.1, r.randint(2, 500, size=L), (r.rand(L, case["R"]) + 0.1 if ref else None)
                given = v.copy()
                p.add_variances(given, n, ref_level_vars=f)
                require(same(given, v), "the given variances were changed")
                tables.append((v, n, f))
            p.show(os.path.join(d, "x"))
            require(os.path.isfile(os.path.join(d, "x.pdf")), "the figure was not saved")
            check_bars(p.ax, tables, case["k"])
        finally:
            plt.close("all")
    return ["nt"] if len(tables) > 1 or case["R"] > 2 else []


@st.composite
def step_cases(draw):
    return dict(R=draw(st.integers(2, 9)), k=draw(st.one_of(st.none(), st.integers(1, 12))), runs=draw(st.lists(st.tuples(st.integers(6, 9), st.integers(0, 99)).map(list), min_size=1, max_size=2)))


def run_steps(case):
    with scratch() as d, np.errstate(all="ignore"):
        try:
            p = plots.Variance(case["k"])
            sub = None
            data = []
            for L, seed in case["runs"]:
                v, steps = np.random.RandomState(seed).rand(L, case["R"]) + 0.1, np.geomspace(1.0, 0.01, L) * (1 + 0.1 * seed / 99)
                p.add_level_variances(steps, v)
                data.append((steps, v))
            p.show(os.path.join(d, "x"))
            pts = [np.asarray(c.get_offsets(), dtype=float) for c in p.ax.collections if not isinstance(c, mcol.LineCollection)]
            texts = [t.get_text() for leg in p.fig.legends for t in leg.get_texts()]
            sub = [int(t[1:]) for t in texts if t[:1] == "M"]
            require(sub == shown_moments(case["R"], case["k"], ["avg"] + [str(m) for m in sub]) and len(pts) == len(sub), "moments {} shown", sub)
            for m, xy in zip(sub, pts):
                x, y = np.concatenate([s for s, _ in data]), np.concatenate([v[:, m] for _, v in data])
                require(len(xy) == len(x), "{} points of moment {} expected {}", len(xy), m, len(x))
                a, b = xy[np.argsort(xy[:, 1])], np.argsort(y)
                require(np.allclose(a[:, 1], y[b], rtol=1e-12) and np.allclose(a[:, 0], x[b], rtol=0.1), "points of moment {}: {} expected {}", m, a.tolist(), np.column_stack([x, y])[b].tolist())
        finally:
            plt.close("all")
    return ["nt"] if len(sub) > 1 else []


@st.composite
def eig_cases(draw):
    sets = []
    for _ in range(draw(st.integers(1, 3))):
        vals = draw(st.lists(st.one_of(st.integers(-20, 60).map(lambda k: k / 8.0), st.sampled_from([1e-9, 1e-13, 3e-16, -1e-14])), min_size=2, max_size=8, unique=True))
        sets.append([vals + [9.0], draw(st.booleans()), draw(st.booleans()), draw(st.one_of(st.none(), st.sampled_from([0.25, 1.5, 3.0])))])
    return dict(sets=sets, log=draw(st.booleans()))


def run_eig(case):
    with scratch() as d, np.errstate(all="ignore"):
        try:
            p = plots.Eigenvalues(log_y=case["log"])
            for i, (vals, inc, err, thr) in enumerate(case["sets"]):
                v = np.array(sorted(vals, reverse=not inc))
                e = np.abs(v) * 0.1 + 0.01
                p.add_values(v.copy(), errors=e if err else None, threshold=thr, label="s{}".format(i))
            p.show(os.path.join(d, "x"))
            got = curves([p.ax])
            segs = [np.asarray(s) for c in p.ax.collections if isinstance(c, mcol.LineCollection) for s in c.get_segments()]
            for i, (vals, inc, err, thr) in enumerate(case["sets"]):
                exp = np.array(sorted((x for x in vals if x > 0 or not case["log"]), reverse=True))
                n = len(exp)
                hit = [c for c in got if len(c) == n and np.allclose(c[np.argsort(c[:, 0]), 1], exp, rtol=1e-12, atol=0)]
                require(any(np.allclose(np.floor(np.sort(c[:, 0]) + 1e-9), np.arange(n)) for c in hit), "eigenvalues {} are not in the plot: {}", exp.tolist(), [c.tolist() for c in got])
                if err:
                    for x in exp:
                        w = abs(x) * 0.1 + 0.01
                        require(any(len(s) == 2 and np.allclose(sorted(s[:, 1]), [x - w, x + w], rtol=1e-9) for s in segs), "no error bar of eigenvalue {}", x)
                if thr is not None:
                    require(any(len(c) == 2 and np.allclose(c[:, 1], thr, rtol=1e-12) for c in got), "no line of the threshold {}: {}", thr, [c.tolist() for c in got])
        finally:
            plt.close("all")
    return ["nt"] if len(case["sets"]) > 1 else []


@st.composite
def mom_cases(draw):
    return dict(family=draw(st.sampled_from(["leg", "mono", "fourier"])), R=draw(st.one_of(st.integers(2, 8), st.integers(20, 30))), domain=draw(st.sampled_from([[0.0, 1.0], [-3.0, 5.0], [2.0, 2.5]])), size=draw(st.booleans()))


def run_mom(case):
    with scratch() as d, np.errstate(all="ignore"):
        try:
            lo, hi = case["domain"]
            fn = dict(leg=Legendre, mono=Monomial, fourier=Fourier)[case["family"]](case["R"], (lo, hi), safe_eval=False)
            plots.moments(fn, size=case["R"] if case["size"] else None, title="m", file=os.path.join(d, "x"))
            axs = [a for a in plt.gcf().axes]
            for m in range(case["R"]):
                has_curve(axs, lambda t: fn.eval_all(t)[:, m], lo, hi, "moment {}".format(m))
        finally:
            plt.close("all")
    return ["nt"] if case["R"] > 2 else []


@st.composite
def est_cases(draw):
    L = draw(st.integers(1, 3))
    n = draw(st.lists(st.integers(3, 30), min_size=L, max_size=L))
    k = [draw(st.integers(3, m)) for m in n] if draw(st.booleans()) else None
    return dict(n=n, k=k, R=draw(st.integers(2, 13)), seed=draw(st.integers(0, 99)))


def run_est(case):
    L = len(case["n"])
    with np.errstate(all="ignore"):
        import warnings
        try:
            r = np.random.RandomState(case["seed"])
            s = Memory()
            s.save_global_data(level_parameters=[[0.5 ** l] for l in range(L)], result_format=SIMPLE_FORMAT)
            for l, n in enumerate(case["n"]):
                s.save_samples({l: [("L{:02d}_S{:07d}".format(l, i), (r.rand(1), r.rand(1))) for i in range(n)]}, {})
            q = make_root_quantity(s, SIMPLE_FORMAT)["q"][1.0]["10"][0, 0]
            e = Estimate(q, s, Legendre(case["R"], (-0.1, 1.1)))
            np.random.seed(case["seed"])
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e.plot_variances(None if case["k"] is None else list(case["k"]))
            n = np.array(case["n"] if case["k"] is None else case["k"])
            ax = plt.gcf().axes[0]
            labels = [t.get_text() for t in ax.get_xticklabels()]
            # error bars show the difference to the variance of level means among subsamples
            check_bars(ax, [(np.asarray(e.mean_bs_l_vars), n, np.asarray(e.var_bs_l_means) * n[:, None])], len(labels) - 1)
        finally:
            plt.close("all")
    return ["nt"]


@st.composite
def bs_cases(draw):
    L = draw(st.integers(1, 5))
    return dict(n=draw(st.lists(st.integers(4, 30), min_size=L, max_size=L)), R=draw(st.integers(2, 7)), seed=draw(st.integers(0, 99)), given=draw(st.booleans()))


def run_bs(case):
    """Plots of bootstrap estimates: means with variances, variances, regression of level variances."""
    import warnings
    L, R = len(case["n"]), case["R"]
    with scratch() as d, np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.chdir(d)
        try:
            r = np.random.RandomState(case["seed"])
            s = Memory()
            s.save_global_data(level_parameters=[[0.5 ** l] for l in range(L)], result_format=SIMPLE_FORMAT)
            for l, n in enumerate(case["n"]):
                x = r.rand(n, 1)
                s.save_samples({l: [("L{:02d}_S{:07d}".format(l, i), (x[i], x[i] + 0.3 ** l * r.rand(1))) for i in range(n)]}, {})
                s.save_n_ops([(l, [1.0, n])])
            q = make_root_quantity(s, SIMPLE_FORMAT)["q"][1.0]["10"][0, 0]
            fn = Legendre(R, (-0.1, 2.1))
            e = Estimate(q, s, fn)
            np.random.seed(case["seed"])
            e.est_bootstrap(n_subsamples=3)
            k = [max(2, n // 2) for n in case["n"]] if case["given"] else None
            e.plot_bs_var_log(k)
            figs = [plt.figure(i) for i in plt.get_fignums()]
            require(len(figs) == 3, "{} figures", len(figs))
            # means with variances
            ax = figs[0].axes[0]
            pts = np.array(sorted([float(l.get_xdata()[0]), float(l.get_ydata()[0])] for l in ax.lines if l.get_marker() == "o"))
            require(len(pts) == R - 1 and np.allclose(pts[:, 1], e.mean_bs_mean[1:], rtol=1e-12), "means {} in the plot, expected {}", pts.tolist(), e.mean_bs_mean[1:].tolist())
            segs = [np.asarray(g) for c in ax.collections if isinstance(c, mcol.LineCollection) for g in c.get_segments()]
            for (x, m), v in zip(pts, e.mean_bs_var[1:]):
                require(any(np.allclose(g[:, 0], x) and np.allclose(sorted(g[:, 1]), [m - v, m + v], rtol=1e-9) for g in segs), "no error bar of mean {} with variance {}", m, v)
            # total and level variances
            ax = figs[1].axes[0]
            table = np.vstack([e.mean_bs_var[None], e.mean_bs_l_vars])
            sets = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if not isinstance(c, mcol.LineCollection)]
            require(len(sets) == R - 1, "{} sets of points", len(sets))
            for m, c in enumerate(sets):
                require(np.allclose(c[:, 1], table[:, m + 1], rtol=1e-12) and np.array_equal(np.floor(c[:, 0] + 1e-9), np.arange(L + 1)), "moment {}: points {} expected {}", m + 1, c.tolist(), table[:, m + 1].tolist())
            used = case["n"] if k is None else k
            labels = [t.get_text().split("\n") for t in ax.get_xticklabels()]
            require(labels[0] == ["Total"] and [[int(x) for x in t[1:]] for t in labels[1:]] == [[a, b] for a, b in zip(used, case["n"])], "labels {}", labels)
            # level variances and their regression
            ax = figs[2].axes[0]
            est, _ = e.estimate_diff_vars(fn)
            reg, _ = e.estimate_diff_vars_regression(np.array(case["n"]), fn)
            sets = [np.asarray(c.get_offsets(), dtype=float) for c in ax.collections if not isinstance(c, mcol.LineCollection)]
            for m in range(R):
                hit = [c for c in sets if len(c) == L and np.allclose(c[:, 1], est[:, m], rtol=1e-9, atol=1e-15)]
                require(len(hit) >= 2, "level variances of moment {}: {} are not in the plot", m, est[:, m].tolist())
                if L > 2:
                    require(any(np.allclose(l.get_ydata(), reg[1:, m], rtol=1e-9, atol=1e-15) for l in ax.lines if len(l.get_ydata()) == L - 1), "regression {} of moment {} is not in the plot", reg[1:, m].tolist(), m)
        finally:
            plt.close("all")
    return ["nt"] if L > 1 and R > 2 else []


@st.composite
def series_cases(draw):
    return dict(k=draw(st.integers(1, 5)), R=draw(st.integers(2, 5)), L=draw(st.integers(2, 6)), n=draw(st.integers(2, 40)), exact=draw(st.booleans()), exact2=draw(st.booleans()), seed=draw(st.integers(0, 999)))


def shows(axs, y, what, x=None):
    """Points (in any order) with these values are in the plot."""
    y = np.asarray(y, dtype=float)
    for c in curves(axs):
        if len(c) == len(y) and np.allclose(np.sort(c[:, 1]), np.sort(y), rtol=1e-9, atol=1e-15) and (x is None or np.allclose(c[np.argsort(c[:, 0])], np.column_stack([x, y])[np.argsort(x)], rtol=1e-9)):
            return
    raise Violation("{} are not in the plot: {}".format(what, y.tolist()))


def all_axes():
    return [a for i in plt.get_fignums() for a in plt.figure(i).axes]


def run_series(case):
    """Series of results of several runs."""
    import warnings
    from types import SimpleNamespace
    k, R, L, n = case["k"], case["R"], case["L"], case["n"]
    r = np.random.RandomState(case["seed"])
    with scratch() as d, np.errstate(all="ignore"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        os.chdir(d)
        try:
            # convergence of densities
            conv = [[SimpleNamespace(kl=a, l2=b, size=i) for i, (a, b) in enumerate(r.rand(L, 2) + 0.01)] for _ in range(k)]
            plots.plot_convergence([0.1 * (i + 1) for i in range(k)], conv, "conv of k")
            require(os.path.isfile("conv of k.pdf"), "files {}", os.listdir("."))
            for row in conv:
                shows(all_axes(), [x.kl for x in row], "divergences")
                shows(all_axes(), [x.l2 for x in row], "L2 distances")
            plt.close("all")
            # means with error bars
            means, var = r.rand(k, R), r.rand(k, R) * 0.1 + 0.01
            ex, ex2 = r.rand(R), r.rand(R)
            plots.plot_vars(list(means), list(var), list(range(1, k + 1)), exact_moments=ex if case["exact"] else None, ex_moments=ex2 if case["exact2"] else None)
            axs = all_axes()
            segs = [np.asarray(g) for a in axs for c in a.collections if isinstance(c, mcol.LineCollection) for g in c.get_segments()]
            for m, v in zip(means, var):
                shows(axs, m, "means")
                for a, b in zip(m, v):
                    require(any(np.allclose(sorted(g[:, 1]), [a - b, a + b], rtol=1e-9) for g in segs), "no error bar of {} with {}", a, b)
            if case["exact"]:
                shows(axs, ex, "exact moments")
            if case["exact2"]:
                shows(axs, ex2, "moments of the distribution")
            plt.close("all")
            # ratios of variances
            diff = r.rand(k, R)
            plots.plot_diff_var_subsample(list(diff), np.arange(1, k + 1))
            for row in diff:
                shows(all_axes(), row, "ratios of one run", np.arange(R))
            for col in diff.T:
                shows(all_axes(), col, "ratios of one moment", np.arange(1, k + 1))
            plt.close("all")
            # level variances
            v, steps = r.rand(L, R) + 0.1, np.geomspace(1, 0.01, L)
            plots.plot_diff_var(v.copy(), R, steps)
            for m in range(1, R):
                shows(all_axes(), v[1:, m] / steps[1:] ** 2, "scaled variances of moment {}".format(m), steps[1:])
                shows(all_axes(), v[:1, m], "scaled variance of level 0", steps[:1])
            plt.close("all")
            reg = r.rand(L, R) + 0.1
            plots.plot_var_regression(v.copy(), reg.copy(), L, R)
            shows(all_axes(), v[:, 1:].ravel(), "level variances")
            for m in range(1, R):
                shows(all_axes(), reg[:, m], "regression")
            plt.close("all")
            # errors of repeated runs
            errs = [r.rand(n) * (i + 1) for i in range(4)]
            plots.plot_n_sample_est_distributions("errors", *errs)
            axs = all_axes()
            require(len(axs) == 4, "{} axes", len(axs))
            for ax, e in zip(axs, errs):
                bars = [(b.get_x(), b.get_x() + b.get_width(), b.get_height()) for b in ax.patches]
                for a, b, h in bars:
                    low, high = ((e > a + 1e-9) & (e < b - 1e-9)).mean(), ((e >= a - 1e-9) & (e <= b + 1e-9)).mean()
                    require(low - 1e-9 <= (b - a) * h <= high + 1e-9, "bar [{}, {}] has area {} for a fraction {} of values", a, b, (b - a) * h, high)
                require(bars and abs(sum((b - a) * h for a, b, h in bars) - 1) < 1e-9, "histogram has area {}", sum((b - a) * h for a, b, h in bars))
                require(any(np.allclose(l.get_xdata(), np.percentile(e, 99)) for l in ax.lines), "no line at the 99th percentile")
        finally:
            plt.close("all")
    return ["nt"] if k > 1 else []


PARTS = [Part("series", series_cases(), run_series, quick=16, thorough=300, shards=4),
         Part("distribution", dist_cases(), run_dist, quick=40, thorough=800, shards=4),
         Part("variances", var_cases(), run_var, quick=40, thorough=800, shards=4),
         Part("steps", step_cases(), run_steps, quick=16, thorough=300, shards=2),
         Part("eigenvalues", eig_cases(), run_eig, quick=60, thorough=1000, shards=2),
         Part("moments", mom_cases(), run_mom, quick=16, thorough=200, shards=2),
         Part("estimate", est_cases(), run_est, quick=10, thorough=100, shards=2),
         Part("bootstrap", bs_cases(), run_bs, quick=24, thorough=200, shards=4)]
