"""Reference for quantities: types as JSON-like structures with positions in the stored result vector."""
import numpy as np
from vlib.common import *
from mlmc.quantity.quantity import make_root_quantity, Quantity


def resolve_key(k, n):
    """A generated key for one axis of length n: int, or [start, stop, step]; an empty slice becomes the full one."""
    if isinstance(k, int):
        return (k % (2 * n)) - n
    s = slice(*k)
    return s if len(range(n)[s]) else slice(None)


def resolve(key, shape):
    """Generated array key (list of axis keys, or a single one) -> valid key for an array of this shape."""
    if isinstance(key, dict):
        ks = key["t"][:len(shape)]
        return tuple(resolve_key(k, n) for k, n in zip(ks, shape))
    return resolve_key(key, shape[0])


axis_key = st.one_of(st.integers(0, 9), st.integers(0, 9),
                     st.tuples(st.one_of(st.none(), st.integers(-3, 3)), st.one_of(st.none(), st.integers(-3, 3)),
                               st.sampled_from([None, 1, 1, 2, -1])).map(list))
array_key = st.one_of(axis_key, st.fixed_dictionaries(dict(t=st.lists(axis_key, min_size=1, max_size=2))))


class Node:
    """A quantity and what it must contain: kind, shape/keys, children as arrays of values per level [M, N, 1|2]."""

    def __init__(self, q, kind, vals, shape=None, keys=None, child=None):
        self.q, self.kind, self.vals, self.shape, self.keys, self.child = q, kind, vals, shape, keys, child


def levels_to_vals(levels):
    """levels[l]: (N, 2, M) -> [M, N, 1|2] as storages give it."""
    out = []
    for l, a in enumerate(levels):
        v = np.transpose(a, (2, 0, 1))
        out.append(v[..., :1] if l == 0 else v)
    return out


# A type: ("scalar",), ("array", shape, inner), ("time", times, inner), ("field", locs, inner), ("dict", [(name, type)])

def type_size(t):
    if t[0] == "scalar":
        return 1
    if t[0] == "array":
        return int(np.prod(t[1])) * type_size(t[2])
    if t[0] in ("time", "field"):
        return len(t[1]) * type_size(t[2])
    return sum(type_size(x) for _, x in t[1])


def root_type(specs):
    return ("dict", [(s["name"], ("time", list(s["times"]),
                                  ("field", [tuple(x) if isinstance(x, list) else x for x in s["locations"]],
                                   ("array", tuple(s["shape"]), ("scalar",))))) for s in specs])


def index(t, step):
    """One generated index step on type t -> (key for the code, new type, positions of its values)."""
    if t[0] == "dict":
        i = (step["i"] if isinstance(step, dict) and "i" in step else 0) % len(t[1])
        start = sum(type_size(x) for _, x in t[1][:i])
        return t[1][i][0], t[1][i][1], np.arange(start, start + type_size(t[1][i][1]))
    if t[0] in ("time", "field"):
        i = step["i"] % len(t[1])
        n = type_size(t[2])
        return t[1][i], t[2], np.arange(i * n, (i + 1) * n)
    if t[0] == "array":
        key = resolve(step["k"], t[1])
        n = type_size(t[2])
        pos = np.arange(type_size(t)).reshape(tuple(t[1]) + (n,))[key]
        shape = pos.shape[:-1]
        if shape == (1,):
            shape = ()
        return key, (("array", shape, t[2]) if shape else t[2]), pos.ravel()
    raise HarnessError("scalar cannot be indexed")


step = st.fixed_dictionaries(dict(i=st.integers(0, 5), k=array_key))


def walk(q, t, vals, steps):
    """Index along the steps as long as the type allows; returns [(quantity, type, values)] incl. the start."""
    out = [(q, t, vals)]
    for s in steps:
        if t[0] == "scalar":
            break
        key, t, pos = index(t, s)
        q = q[key]
        vals = [v[pos] for v in vals]
        out.append((q, t, vals))
    return out


def check(q, storage, t, vals, what, exact=True):
    require(q.size() == type_size(t), "{}: size {} but {} values", what, q.size(), type_size(t))
    for l, v in enumerate(vals):
        got = read_level(q, storage, l)
        require(got.shape == v.shape, "{}: level {} shape {} expected {}", what, l, got.shape, v.shape)
        ok = same(got, v) if exact else close(got, v)
        require(ok, "{}: level {} gives\n{}\nexpected\n{}", what, l, got.tolist(), v.tolist())


@st.composite
def data(draw, max_levels=3, max_n=4, **kw):
    specs = draw(spec_list(**kw))
    storage = draw(st.sampled_from(["mem", "mem", "mem", "hdf", "wide"]))
    if storage == "wide":
        # long result vectors: the HDF5 storage then splits a level into chunks of a few samples
        specs = specs + [dict(name="zz pad", unit="m", shape=[400, 1], times=[0.0],
                               locations=[[9.0, 9.0, 9.0]] if isinstance(specs[0]["locations"][0], list) else ["0"])]
        return dict(specs=specs, n=draw(st.lists(st.integers(1, 3 * max_n), min_size=1, max_size=max_levels)), seed=draw(st.integers(0, 10 ** 6)),
                    storage="hdf", wide=True)
    return dict(specs=specs, n=draw(st.lists(st.integers(1, max_n), min_size=1, max_size=max_levels)), seed=draw(st.integers(0, 10 ** 6)),
                storage=storage)


def build(case, d, special=()):
    m = specs_size(case["specs"])
    levels = [arr_values(case["seed"] + l, n, m, special) for l, n in enumerate(case["n"])]
    storage = make_storage(case["storage"], d)
    specs = to_specs(case["specs"])
    fill_storage(storage, specs, levels)
    if case["storage"] == "hdf":
        specs = storage.load_result_format()
    root = make_root_quantity(storage, specs)
    return storage, root, root_type(case["specs"]), levels_to_vals(levels), levels


def ref_estimate(vals):
    """MLMC estimator of values per level [M, N, 1|2] -> (l_means, l_vars, n, n_rm); levels need a usable sample."""
    lm, lv, ns, nr = [], [], [], []
    for l, v in enumerate(vals):
        bad = np.isnan(v).any(axis=(0, 2))
        v = v[:, ~bad, :]
        diff = v[..., 0] if l == 0 else v[..., 0] - v[..., 1]
        n = diff.shape[1]
        ns.append(n)
        nr.append(int(bad.sum()))
        lm.append(diff.mean(axis=1) if n else np.full(len(v), np.nan))
        lv.append(diff.var(axis=1, ddof=1) if n > 1 else np.full(len(v), np.inf))
    return np.array(lm), np.array(lv), np.array(ns), np.array(nr)


def check_estimate(e, vals, what):
    lm, lv, n, nr = ref_estimate(vals)
    scale = max([1.0] + [float(np.nanmax(np.abs(v))) for v in vals if v.size and not np.isnan(v).all()])
    L = len(vals)
    require(np.array_equal(e.n_samples, n) and np.array_equal(e.n_rm_samples, nr), "{}: used/removed samples {}/{}, expected {}/{}", what,
            list(e.n_samples), list(e.n_rm_samples), list(n), list(nr))
    tol = dict(rtol=1e-9, atol=1e-9 * scale)
    tol2 = dict(rtol=1e-7, atol=1e-9 * scale ** 2)
    require(close(np.reshape(e.l_means, (L, -1)), lm, **tol), "{}: level means {} expected {}", what, e.l_means.tolist(), lm.tolist())
    require(close(np.reshape(e.l_vars, (L, -1)), lv, **tol2), "{}: level variances {} expected {}", what, e.l_vars.tolist(), lv.tolist())
    require(close(np.ravel(e.mean), lm.sum(axis=0), **tol), "{}: mean {} expected {}", what, e.mean.tolist(), lm.sum(axis=0).tolist())
    require(close(np.ravel(e.var), (lv / n[:, None]).sum(axis=0), **tol2), "{}: variance {} expected {}", what, e.var.tolist(),
            (lv / n[:, None]).sum(axis=0).tolist())
