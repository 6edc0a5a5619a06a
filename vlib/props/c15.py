"""Selection of samples by conditions."""
import operator
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity import Quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments
from mlmc.moments import Monomial

RULE = ("select: samples with few distinct values (ties) and NaN; one to six condition trees (comparisons with numbers, arrays and "
        "quantities combined by logical functions) select from a quantity, optionally twice, and the kept samples of a derived quantity are compared with "
        "a per-sample reference, as is the estimated mean. refuse: not boolean conditions, quantities of different selections or storages. "
        "Non-trivial: some but not all samples are kept.")
ASSUMPTIONS = ["means are compared when every level keeps a usable sample"]

OPS = {"<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
MIRROR = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
path = st.lists(qref.step, min_size=0, max_size=5)
number = st.integers(-4, 4).map(lambda k: k / 2.0)
cmp_ = st.one_of(
    st.tuples(st.just("num"), st.sampled_from(sorted(OPS)), path, number, st.booleans()).map(list),
    st.tuples(st.just("num"), st.sampled_from(["<", ">="]), path, st.sampled_from([-2.0, 2.0]), st.booleans()).map(list),
    st.tuples(st.just("arr"), st.sampled_from(sorted(OPS)), path, st.integers(0, 20)).map(list),
    st.tuples(st.just("q"), st.sampled_from(sorted(OPS)), path, number).map(list))
cond = st.recursive(cmp_, lambda s: st.one_of(
    st.tuples(st.sampled_from(["and", "or", "xor"]), s, s).map(list), st.tuples(st.just("not"), s).map(list)), max_leaves=4)
LOG = {"and": np.logical_and, "or": np.logical_or, "xor": np.logical_xor, "not": np.logical_not}


@st.composite
def cases(draw):
    c = draw(qref.data(max_specs=2, max_times=2, max_locs=2, max_dim=2, max_n=9))
    c["special"] = draw(st.lists(st.tuples(st.integers(0, 300), st.sampled_from([None, None, 0.0, 1.0])).map(list), max_size=3))
    c["target"] = draw(path)
    c["after"] = draw(st.lists(qref.step, max_size=2))
    c["conds"] = draw(st.one_of(st.lists(cond, min_size=1, max_size=2), st.lists(cond, min_size=1, max_size=3), st.lists(cmp_, min_size=3, max_size=6)))
    c["second"] = draw(st.one_of(st.none(), cond))
    c["arith"] = draw(st.sampled_from([None, "sin", "add", "moments"]))
    return c


def build(case, d):
    """Like qref.build, with values on a coarse grid so that ties occur."""
    m = specs_size(case["specs"])
    levels = []
    for l, n in enumerate(case["n"]):
        a = np.round(arr_values(case["seed"] + l, n, m) * 2) / 2
        for pos, v in case["special"]:
            if pos % 3 == l % 3:
                a.flat[pos % a.size] = np.nan if v is None else v
        levels.append(a)
    storage = make_storage(case["storage"], d)
    specs = to_specs(case["specs"])
    fill_storage(storage, specs, levels)
    root = qref.make_root_quantity(storage, storage.load_result_format() if case["storage"] == "hdf" else specs)
    return storage, root, qref.root_type(case["specs"]), qref.levels_to_vals(levels)


def make_cond(c, root, t, vals):
    """-> (condition quantity, mask per level)."""
    if c[0] in LOG:
        sub = [make_cond(x, root, t, vals) for x in c[1:]]
        return LOG[c[0]](*[s[0] for s in sub]), [LOG[c[0]](*[s[1][l] for s in sub]) for l in range(len(vals))]
    q, qt, v = qref.walk(root, t, vals, c[2])[-1]
    op = OPS[c[1]]
    if c[0] == "num":
        cq = OPS[MIRROR[c[1]]](c[3], q) if c[4] else op(q, c[3])
        ref = [op(x, c[3]) for x in v]
    elif c[0] == "arr":
        a = ((np.arange(len(v[0])) * 5 + c[3]) % 9) / 2.0 - 2
        cq, ref = op(q, a.tolist() if c[3] % 2 else a), [op(x, a[:, None, None]) for x in v]
    else:
        other, ov = q * -1.0 + c[3], [x * -1.0 + c[3] for x in v]
        cq, ref = op(q, other), [op(x, y) for x, y in zip(v, ov)]
    return cq, [r.all(axis=(0, 2)) for r in ref]


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        storage, root, t, vals = build(case, d)
        conds = [make_cond(c, root, t, vals) for c in case["conds"]]
        mask = [np.logical_and.reduce([c[1][l] for c in conds]) for l in range(len(vals))]
        q, qt, v = qref.walk(root, t, vals, case["target"])[-1]
        sel = q.select(*[c[0] for c in conds])
        sv = [x[:, m] for x, m in zip(v, mask)]
        qref.check(sel, storage, qt, sv, "selection")
        if case["second"] is not None and all(m.any() for m in mask[:1]):
            c2, m2 = make_cond(case["second"], sel, qt, sv)
            sel2 = sel.select(c2)
            sv = [x[:, m] for x, m in zip(sv, m2)]
            sel = sel2
            qref.check(sel, storage, qt, sv, "selection from a selection")
        q2, qt2, v2 = qref.walk(sel, qt, sv, case["after"])[-1]
        qref.check(q2, storage, qt2, v2, "indexed selection")
        if case["arith"] == "add":
            q2, v2 = q2 + q2, [x + x for x in v2]
        elif case["arith"] == "sin" and v2[0].size:
            q2, v2 = np.sin(q2), [np.sin(x) for x in v2]
        elif case["arith"] == "moments":
            # outside of the domain the moments are NaN and the samples are left out
            fn = Monomial(3, (-1.3, 1.3), safe_eval=True)
            q2 = moments(q2, fn)
            v2 = [np.concatenate([np.stack([np.where(np.abs(r) <= 1.3, ((r + 1.3) / 2.6) ** k, np.nan) for k in range(3)]) for r in x], axis=0)
                  if len(x) else x for x in v2]
        if all((~np.isnan(x).any(axis=(0, 2))).any() for x in v2):
            qref.check_estimate(estimate_mean(q2), v2, "estimate on the selection")
    n, k = sum(len(m) for m in mask), sum(int(m.sum()) for m in mask)
    return ["nt"] if 0 < k < n else []


# ---------------------------------------------------------------- refusals

@st.composite
def refuse_cases(draw):
    c = draw(qref.data(max_specs=2, max_times=2, max_locs=1, max_dim=2, max_n=4))
    c["special"] = []
    c["paths"] = [draw(path) for _ in range(2)]
    c["cond"] = draw(cond)
    c["cond2"] = draw(cond)
    c["how"] = draw(st.sampled_from(["not bool", "two selections", "selected and not", "two storages", "two storages select", "ufunc"]))
    c["op"] = draw(st.sampled_from(["add", "concat", "cmp", "mult"]))
    return c


def combine(op, a, b):
    if op == "add":
        return a + b
    if op == "mult":
        return b * a
    if op == "concat":
        return Quantity.QDict([("a", a), ("b", b)])
    return a < b


def run_refuse(case):
    with scratch() as d, np.errstate(all="ignore"):
        storage, root, t, vals = build(case, d)
        q, qt, v = qref.walk(root, t, vals, case["paths"][0])[-1]
        c1, m1 = make_cond(case["cond"], root, t, vals)
        how = case["how"]
        try:
            if how == "not bool":
                p = qref.walk(root, t, vals, case["paths"][1])[-1][0]
                q.select(c1, p) if case["op"] == "add" else q.select(p)
            elif how == "two selections":
                c2, _ = make_cond(case["cond2"], root, t, vals)
                combine(case["op"], q.select(c1), q.select(c2))
            elif how == "selected and not":
                combine(case["op"], q.select(c1), q)
            elif how in ("two storages", "two storages select"):
                sub = os.path.join(d, "other")
                os.makedirs(sub)
                storage2, root2, _, _ = build(case, sub)
                q2 = qref.walk(root2, t, vals, case["paths"][0])[-1][0]
                if how == "two storages":
                    combine(case["op"], q, q2)
                else:
                    q2.select(c1)
            else:
                np.add(q.select(c1), q)
        except Exception:
            return ["nt"]
        raise Violation("{} ({}) was accepted".format(how, case["op"]))


PARTS = [Part("select", cases(), run, quick=700, thorough=20000),
         Part("refuse", refuse_cases(), run_refuse, quick=200, thorough=3000)]
