"""Sets of fields over mesh regions."""
from vlib.common import *
import gstools
import mlmc.random.correlated_field as cf

RULE = ("sets of 1-7 fields (constants, random fields of two kinds, own or shared between regions, functions of earlier fields and numbers) over 0-4 regions with generated ids, some without any point, listed in "
        "any order; histories of setting points, choosing outer fields and sampling, of two sets made of the same field objects. Oracle: gstools realisations, constants, prescribed means, and the functions "
        "applied to the values found in the same sample. Non-trivial: at least two regions with points, a random and a dependent field.")
ASSUMPTIONS = ["parameters of a dependent field live on the same regions (or are numbers)", "realisations of gstools fields change only by change_srf"]

FUNCS = {
    "double": (1, lambda x: 2 * x + 1),
    "sum": (2, lambda x, y: x + y),
    "ratio": (2, lambda x, y: x - 3 * y),
    "range": (3, lambda x, a, b: cf.positive_to_range(np.abs(x), a * 0 + 1.0, b * 0 + 4.0)),
    "mix3": (3, lambda x, y, z: x * y - z),
}
FIELD_NAMES = ["por", "por_top", "p", "po", "cond", "cond_por", "x"]
REGIONS = ["ground_0", "ground_1", "rock", ".bc", "A"]


@st.composite
def cases(draw):
    dim = draw(st.integers(1, 3))
    n_reg = draw(st.sampled_from([2, 3, 1, 4]))
    regs = draw(st.permutations(REGIONS))[:n_reg]
    ids = draw(st.lists(st.integers(0, 60), min_size=n_reg, max_size=n_reg, unique=True))
    # groups of regions used by the fields: [] = everywhere
    groups = [[]]
    for _ in range(draw(st.integers(1, 3))):
        groups.append(draw(st.lists(st.sampled_from(regs), min_size=1, max_size=n_reg, unique=True)))
    fields = []
    names = draw(st.permutations(FIELD_NAMES))
    n_f = draw(st.sampled_from([4, 3, 2, 1, 5, 6, 7]))
    for i in range(n_f):
        kind = draw(st.sampled_from(["const", "gs", "svd", "func", "func", "func"]))
        g = draw(st.sampled_from(groups))
        g = draw(st.permutations(g)) if g else []
        f = dict(name=names[i], kind=kind, regions=list(g), string=draw(st.booleans()))
        if kind == "func":
            avail = [j for j, h in enumerate(fields) if set(h["regions"]) == set(g)]
            if not avail:
                kind = f["kind"] = draw(st.sampled_from(["const", "gs", "svd"]))
            else:
                f["func"] = draw(st.sampled_from(sorted(FUNCS)))
                n = FUNCS[f["func"]][0]
                f["params"] = [names[draw(st.sampled_from(avail))] if k == 0 or draw(st.booleans()) else draw(st.sampled_from([0.5, 2, -1.5, 3]))
                               for k in range(n)]
        if kind == "const":
            f["value"] = draw(st.sampled_from([0.25, 3, -2, 7.5, 0]))
        if kind in ("gs", "svd"):
            f["rf"] = draw(st.integers(0, 2))
        fields.append(f)
    rfs = [dict(length=draw(st.sampled_from([0.3, 2.0])), log=draw(st.booleans()), seed=draw(st.integers(0, 10 ** 6)), sigma=draw(st.sampled_from([1.0, 0.5])), mu=draw(st.sampled_from([0.0, 2.0])))
           for _ in range(3)]
    points = st.integers(1, 14).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.integers(0, n_reg - 1), min_size=n, max_size=n), st.integers(0, 10 ** 6)))
    ops = draw(st.lists(st.one_of(st.tuples(st.just("points"), st.integers(0, 1), points), st.tuples(st.just("sample"), st.integers(0, 1), st.integers(0, 2 ** 31)),
                                  st.tuples(st.just("sample"), st.integers(0, 1), st.integers(0, 2 ** 31)),
                                  st.tuples(st.just("outer"), st.integers(0, 1), st.lists(st.sampled_from([f["name"] for f in fields]), max_size=4, unique=True))), max_size=8))
    return dict(dim=dim, regs=list(regs), ids=ids, fields=fields, rfs=rfs, start=[draw(points), draw(points)], ops=ops)


def run(case):
    dim = case["dim"]
    region_map = dict(zip(case["regs"], case["ids"]))
    gs, svd = [], []
    for r in case["rfs"]:
        g = cf.GSToolsSpatialCorrelatedField(gstools.Gaussian(dim=dim, len_scale=r["length"]), mode_no=20, log=r["log"], sigma=r["sigma"])
        g.change_srf(r["seed"])
        gs.append(g)
        svd.append(cf.SpatialCorrelatedField("exp", dim=dim, corr_length=r["length"], log=r["log"], sigma=r["sigma"], mu=r["mu"]))
    objs = []
    for f in case["fields"]:
        regions = f["regions"][0] if f["string"] and len(f["regions"]) == 1 else f["regions"]
        if f["kind"] == "const":
            objs.append(cf.Field(f["name"], f["value"], regions=regions))
        elif f["kind"] == "func":
            objs.append(cf.Field(f["name"], FUNCS[f["func"]][1], f["params"], regions=regions))
        else:
            objs.append(cf.Field(f["name"], (gs if f["kind"] == "gs" else svd)[f["rf"]], regions=regions))
    sets = [cf.Fields(objs), cf.Fields(objs)]
    outer = [None, None]
    state = [None, None]
    last = [{}, {}]
    names = [f["name"] for f in case["fields"]]
    for s in sets:
        require(set(names) <= set(s.names), "fields {} of given {}", sorted(s.names), names)
    regions_hit = 0

    def set_points(k, spec):
        n, reg, seed = spec
        X = np.round(np.random.RandomState(seed).rand(n, dim) * 3, 3)
        ids = [case["ids"][i] for i in reg]
        sets[k].set_points(X, np.array(ids) if seed % 2 else ids, dict(region_map))
        state[k] = (X, np.array(reg))
        last[k] = {}

    def check(k, seed):
        X, reg = state[k]
        n = len(X)
        np.random.seed(seed)
        res = sets[k].sample()
        want = names if outer[k] is None else outer[k]
        if outer[k] is None:
            require(set(want) <= set(res), "sample lacks fields {}", sorted(set(want) - set(res)))
        else:
            require(set(res) == set(want), "sample has fields {} instead of the outer {}", sorted(res), sorted(want))
        for f in case["fields"]:
            if f["name"] not in res:
                continue
            v = np.asarray(res[f["name"]])
            require(v.shape == (n,), "field {} has shape {} for {} points", f["name"], v.shape, n)
            mask = np.ones(n, bool) if not f["regions"] else np.isin(reg, [case["regs"].index(r) for r in f["regions"]])
            require((v[~mask] == 0).all(), "field {} of regions {} is nonzero elsewhere: {}", f["name"], f["regions"], v.tolist())
            if f["kind"] == "const":
                require((v[mask] == f["value"]).all(), "constant field {} has values {}", f["value"], v[mask].tolist())
            elif f["kind"] == "gs" and mask.any():
                r = case["rfs"][f["rf"]]
                ref = r["sigma"] * np.asarray(gstools.SRF(gstools.Gaussian(dim=dim, len_scale=r["length"]), seed=r["seed"], mode_no=20)(tuple(X[mask].T))).reshape(-1)
                ref = np.exp(ref) if r["log"] else ref
                require(np.allclose(v[mask], ref, rtol=1e-7, atol=1e-9), "random field {} at its points {} instead of {}", f["name"], v[mask].tolist(), ref.tolist())
            elif f["kind"] == "svd" and mask.any():
                r = case["rfs"][f["rf"]]
                require(np.isfinite(v[mask]).all(), "random field {} not finite", f["name"])
                z = np.log(v[mask]) if r["log"] else v[mask]
                require((np.abs(z - r["mu"]) < 12 * r["sigma"]).all(), "random field {} of mean {} and deviation {} has values {}", f["name"], r["mu"], r["sigma"], z.tolist())
                require(len({tuple(x) for x in X[mask]}) < 2 or len(set(v[mask].tolist())) > 1, "random field {} is constant: {}", f["name"], v[mask].tolist())
                if f["name"] in last[k]:
                    require(seed == last[k][f["name"]][0] or not np.array_equal(last[k][f["name"]][1], v), "random field {} was not drawn anew", f["name"])
                last[k][f["name"]] = (seed, v)
            elif f["kind"] == "func":
                ps = []
                for q in f["params"]:
                    if isinstance(q, str):
                        if q not in res:
                            break
                        ps.append(np.asarray(res[q])[mask])
                    else:
                        ps.append(q * np.ones(int(mask.sum())))
                else:
                    ref = FUNCS[f["func"]][1](*ps)
                    require(np.allclose(v[mask], ref, rtol=1e-12, atol=1e-12), "field {} = {}({}) has values {} instead of {}", f["name"], f["func"], f["params"], v[mask].tolist(), np.asarray(ref).tolist())
        # two random fields are different realisations
        svds = [f for f in case["fields"] if f["kind"] == "svd" and f["name"] in res]
        for a in svds:
            for b in svds:
                if a["name"] < b["name"] and np.any(res[a["name"]] != 0):
                    require(not np.array_equal(res[a["name"]], res[b["name"]]), "fields {} and {} have the same realisation", a["name"], b["name"])
        return len(set(reg.tolist()))

    for k in (0, 1):
        np.random.seed(k + 1)
        set_points(k, case["start"][k])
        regions_hit = max(regions_hit, check(k, 17 + k))
    for op, k, arg in case["ops"]:
        if op == "points":
            set_points(k, arg)
        elif op == "outer":
            sets[k].set_outer_fields(list(arg))
            outer[k] = list(arg)
        else:
            regions_hit = max(regions_hit, check(k, arg))
    for k in (0, 1):
        check(k, 5)
        # hidden fields do not change the values of outer ones
    kinds = {f["kind"] for f in case["fields"]}
    return sorted(kinds) + (["nt"] if regions_hit >= 2 and "func" in kinds and kinds & {"gs", "svd"} else [])


@st.composite
def outer_cases(draw):
    c = draw(cases())
    c["names"] = draw(st.lists(st.sampled_from([f["name"] for f in c["fields"]]), min_size=1, max_size=4, unique=True))
    c["seed"] = draw(st.integers(0, 2 ** 31))
    return c


def run_outer(case):
    """Choosing outer fields hides the others and changes no value; points without regions."""
    dim = case["dim"]
    res = []
    unrestricted = not any(f["regions"] for f in case["fields"])
    for hide in (False, True):
        rf = [cf.SpatialCorrelatedField("exp", dim=dim, corr_length=r["length"], log=r["log"], sigma=r["sigma"], mu=r["mu"]) for r in case["rfs"]]
        objs = []
        for f in case["fields"]:
            if f["kind"] == "const":
                objs.append(cf.Field(f["name"], f["value"], regions=f["regions"]))
            elif f["kind"] == "func":
                objs.append(cf.Field(f["name"], FUNCS[f["func"]][1], f["params"], regions=f["regions"]))
            else:
                objs.append(cf.Field(f["name"], rf[f["rf"]], regions=f["regions"]))
        s = cf.Fields(objs)
        if hide:
            s.set_outer_fields(case["names"])
        n, reg, seed = case["start"][0]
        X = np.round(np.random.RandomState(seed).rand(n, dim) * 3, 3)
        np.random.seed(case["seed"])
        if unrestricted and hide:
            s.set_points(X)
        else:
            s.set_points(X, [case["ids"][i] for i in reg], dict(zip(case["regs"], case["ids"])))
        np.random.seed(case["seed"] // 2)
        res.append([s.sample(), s.sample()])
    for a, b in zip(*res):
        require(set(b) == set(case["names"]), "outer fields {} of requested {}", sorted(b), sorted(case["names"]))
        for name in b:
            require(np.array_equal(a[name], b[name]), "values of {} changed when other fields were hidden: {} {}", name, np.asarray(a[name]).tolist(), np.asarray(b[name]).tolist())
    return ["nt"] if len(case["names"]) < len(case["fields"]) else []


PARTS = [Part("sets", cases(), run, quick=600, thorough=12000, shards=3),
         Part("outer", outer_cases(), run_outer, quick=150, thorough=4000)]
