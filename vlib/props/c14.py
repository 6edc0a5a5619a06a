"""Arithmetic on quantities."""
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity import Quantity
from mlmc.quantity.quantity_estimate import estimate_mean, cache_clear

RULE = ("A case is a result format with samples on 1-3 levels and an expression tree of +, -, *, /, % and NumPy functions over quantities of one "
        "size, numbers and arrays, with constants wrapped or not. The quantity is read on every level and compared with the same expression "
        "on the sample arrays; the operands are read again afterwards. structure: operands with the same number of values in different structures; the result is indexed like the first. Non-trivial: at least two operations and two different leaves.")
ASSUMPTIONS = ["operands have equal size, or are numbers", "a NumPy function gets at least one quantity"]

BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b, "%": lambda a, b: a % b}
UF1 = {"sin": np.sin, "exp": np.exp, "abs": np.abs, "negative": np.negative, "square": np.square, "sqrt": np.sqrt}
UF2 = {"add": np.add, "maximum": np.maximum, "minimum": np.minimum, "multiply": np.multiply, "subtract": np.subtract, "hypot": np.hypot,
       "arctan2": np.arctan2, "divide": np.divide}
RED = {"max": np.max, "min": np.min, "sum": np.sum, "prod": np.prod}

leaf = st.one_of(
    st.tuples(st.just("q"), st.integers(0, 3)).map(list), st.tuples(st.just("q"), st.integers(0, 3)).map(list),
    st.tuples(st.just("n"), st.one_of(st.integers(-3, 3), nice_float()), st.booleans()).map(list),
    st.tuples(st.just("a"), st.integers(0, 50), st.sampled_from(["list", "array", "wrap", "shaped"])).map(list))
trees = st.recursive(leaf, lambda s: st.one_of(
    st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), s, s).map(list),
    st.tuples(st.just("bin"), st.sampled_from(sorted(BIN)), s, s).map(list),
    st.tuples(st.just("uf1"), st.sampled_from(sorted(UF1)), s).map(list),
    st.tuples(st.just("uf2"), st.sampled_from(sorted(UF2)), s, s).map(list)), max_leaves=6)


@st.composite
def cases(draw):
    c = draw(qref.data())
    c["spec"] = draw(st.integers(0, 3))
    c["key"] = draw(st.one_of(st.none(), st.none(), qref.array_key))
    c["leaves"] = draw(st.lists(st.tuples(st.integers(0, 3), st.integers(0, 3)).map(list), min_size=1, max_size=3))
    c["tree"] = ["bin", draw(st.sampled_from(sorted(BIN))), draw(trees), draw(trees)] if draw(st.booleans()) else draw(trees)
    c["reduce"] = draw(st.sampled_from([None, None, None] + sorted(RED)))
    return c


class Ev:
    def __init__(self, leaves, shape):
        self.leaves, self.shape = leaves, shape          # [(q, t, vals)]
        self.m = leaves[0][2][0].shape[0]
        self.n_ops, self.used = 0, set()

    def __call__(self, t):
        """-> (object for the code, is quantity, reference: list of arrays per level)."""
        nl = len(self.leaves[0][2])
        if t[0] == "q":
            i = t[1] % len(self.leaves)
            self.used.add(i)
            return self.leaves[i][0], True, self.leaves[i][2]
        if t[0] == "n":
            self.used.add(str(t[1]))
            return (Quantity.wrap(t[1]) if t[2] else t[1]), False, [np.array([t[1]])[:, None, None]] * nl
        if t[0] == "a":
            self.used.add(str(t))
            v = (np.arange(self.m) * 7 + t[1]) % 11 / 4.0 - 1
            o = dict(list=v.tolist(), array=v, wrap=Quantity.wrap(v), shaped=v.reshape(self.shape))[t[2]]
            return o, False, [v[:, None, None]] * nl
        self.n_ops += 1
        if t[0] == "bin":
            (a, qa, ra), (b, qb, rb) = self(t[2]), self(t[3])
            if not isinstance(a, Quantity) and not isinstance(b, Quantity):
                a = Quantity.wrap(a)
            return BIN[t[1]](a, b), qa or qb, [BIN[t[1]](x, y) for x, y in zip(ra, rb)]
        args = [self(x) for x in t[2:]]
        f = (UF1 if t[0] == "uf1" else UF2)[t[1]]
        ref = [f(*[a[2][l] for a in args]) for l in range(nl)]
        if not any(a[1] for a in args):
            return (float(ref[0].ravel()[0]) if ref[0].size == 1 else ref[0].ravel()), False, ref
        return f(*[a[0] for a in args]), True, ref


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        storage, root, t, vals, levels = qref.build(case, d)
        leaves = []
        for ti, li in case["leaves"]:
            path = [dict(i=case["spec"], k=0), dict(i=ti, k=0), dict(i=li, k=0)]
            if case["key"] is not None:
                path.append(dict(i=0, k=case["key"]))
            leaves.append(qref.walk(root, t, vals, path)[-1])
        typ = leaves[0][1]
        ev = Ev(leaves, typ[1] if typ[0] == "array" else (1,))
        q, is_q, ref = ev(case["tree"])
        if not is_q:
            q, is_q, ref = q + leaves[0][0] if isinstance(q, (Quantity, int, float)) else leaves[0][0] + q, True, \
                [r + x for r, x in zip(ref, leaves[0][2])]
        if case["reduce"]:
            q, ref = RED[case["reduce"]](q, axis=0, keepdims=True), [RED[case["reduce"]](r, axis=0, keepdims=True) for r in ref]
            require(q.size() == 1, "size of a reduction is {}", q.size())
        else:
            require(q.size() == ev.m, "size {} of an expression of quantities of size {}", q.size(), ev.m)
        for rep in range(2):
            for l, r in enumerate(ref):
                got = read_level(q, storage, l)
                require(same(got, r) if not case["reduce"] else close(got, r), "level {}: {} gives\n{}\nexpected\n{}", l, case["tree"], got.tolist(), r.tolist())
                for lq, lt, lv in leaves:
                    require(same(read_level(lq, storage, l), lv[l]), "evaluation changed an operand on level {}", l)
            for l, v in enumerate(vals):
                require(same(read_level(root, storage, l), v), "evaluation changed stored samples of level {}", l)
            cache_clear()
        if all(np.isfinite(r).all() for r in ref):
            e = estimate_mean(q)
            exp = sum((r[..., 0] - (r[..., 1] if r.shape[-1] > 1 else 0)).mean(axis=1) for r in ref)
            require(close(np.ravel(e.mean), exp, rtol=1e-8, atol=1e-8 * max(1, max(np.abs(r).max() for r in ref))), "mean {} expected {}", e.mean, exp)
    return ["nt"] if ev.n_ops > 1 and len(ev.used) > 1 else []


@st.composite
def struct_cases(draw):
    c = draw(qref.data())
    c["path"] = draw(st.lists(qref.step, min_size=1, max_size=4))
    c["kinds"] = draw(st.lists(st.sampled_from(["own", "field", "time", "dict", "flat"]), min_size=2, max_size=2))
    c["op"] = draw(st.sampled_from(sorted(BIN)))
    c["const"] = draw(st.sampled_from([None, None, "left", "right"]))
    c["back"] = draw(st.lists(st.lists(qref.step, min_size=1, max_size=5), min_size=1, max_size=3))
    return c


def restructure(kind, q, t, vals, scalars):
    """The same numbers in another structure."""
    n = len(scalars)
    if kind == "field":
        return Quantity.QField([("f{}".format(i), s) for i, s in enumerate(scalars)]), ("field", ["f{}".format(i) for i in range(n)], ("scalar",))
    if kind == "time":
        return Quantity.QTimeSeries([(0.5 * i, s) for i, s in enumerate(scalars)]), ("time", [0.5 * i for i in range(n)], ("scalar",))
    if kind == "dict":
        return Quantity.QDict([("d{}".format(i), s) for i, s in enumerate(scalars)]), ("dict", [("d{}".format(i), ("scalar",)) for i in range(n)])
    if kind == "flat":
        return Quantity.QArray(scalars), ("array", (n,), ("scalar",))
    return q, t


def all_scalars(q, t):
    if t[0] == "scalar":
        return [q]
    if t[0] == "array":
        idx = [tuple(int(x) for x in i) for i in np.ndindex(*t[1])]
        return [s for i in idx for s in all_scalars(q[i], t[2])]
    if t[0] == "dict":
        return [s for k, x in t[1] for s in all_scalars(q[k], x)]
    return [s for k in t[1] for s in all_scalars(q[k], t[2])]


def run_struct(case):
    with scratch() as d, np.errstate(all="ignore"):
        storage, root, t, vals, _ = qref.build(case, d)
        q, qt, v = qref.walk(root, t, vals, case["path"])[-1]
        if qt[0] == "scalar" or not 1 < qref.type_size(qt) <= 40:
            return []
        sc = all_scalars(q, qt)
        (a, ta), (b, tb) = [restructure(k, q, qt, v, sc) for k in case["kinds"]]
        op = BIN[case["op"]]
        if case["const"] == "left":
            r, tr, ref = op(2.5, a), ta, [op(2.5, x) for x in v]
        elif case["const"] == "right":
            r, tr, ref = op(a, 2.5), ta, [op(x, 2.5) for x in v]
        else:
            r, tr, ref = op(a, b), ta, [op(x, x) for x in v]
        for path in case["back"]:
            for qq, tt, vv in qref.walk(r, tr, ref, path):
                qref.check(qq, storage, tt, vv, "{} {} {}".format(case["kinds"], case["op"], case["const"]))
    return ["nt"] if ta != tb or case["const"] else []


PARTS = [Part("expressions", cases(), run, quick=800, thorough=25000),
         Part("structure", struct_cases(), run_struct, quick=200, thorough=5000)]
