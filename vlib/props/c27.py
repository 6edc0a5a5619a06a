"""Mesh files: writing, reading, element data, extraction of bulk elements."""
from vlib.common import *
from mlmc.tool.gmsh_io import GmshIO
from mlmc.tool.flow_mc import FlowSim

RULE = ("meshes of 1-15 nodes with generated (unordered, sparse) ids and coordinates, elements of six types with 0-4 tags, regions with generated names; written by the code or by an independent writer "
        "(formats 1.0 and 2.2, unknown sections, other order and spacing) and read again; 1-4 fields with 1-9 components for generated element ids; extraction of meshes with boundary regions. "
        "Non-trivial: at least two elements of different types (mesh, extraction), two fields or several components (fields).")
ASSUMPTIONS = ["ASCII files", "region ids are unique and every element has a named region (extraction)"]

N_NODES = {15: 1, 1: 2, 2: 3, 3: 4, 4: 4, 5: 8}
COORD = st.one_of(st.integers(-8, 8).map(float), st.floats(-1e6, 1e6, allow_nan=False), st.floats(allow_nan=False, allow_infinity=False))
NAME = st.text("abcXYZ_.-019 /()", min_size=1, max_size=12).filter(lambda s: s.strip() == s and s)


@st.composite
def mesh(draw, region_tags=False, min_tags=0):
    n = draw(st.integers(1, 15))
    node_ids = draw(st.lists(st.integers(1, 10 ** 6), min_size=n, max_size=n, unique=True))
    nodes = [[i, [draw(COORD) for _ in range(3)]] for i in node_ids]
    names = draw(st.lists(NAME, min_size=1, max_size=4, unique=True))
    reg = draw(st.lists(st.integers(1, 10 ** 4), min_size=len(names), max_size=len(names), unique=True))
    phys = [[nm, r, draw(st.integers(0, 3))] for nm, r in zip(names, reg)]
    m = draw(st.sampled_from([2, 3, 1, 0, 5, 8]))
    ele_ids = draw(st.lists(st.integers(1, 10 ** 6), min_size=m, max_size=m, unique=True))
    els = []
    for i in ele_ids:
        t = draw(st.sampled_from(sorted(N_NODES)))
        tags = draw(st.lists(st.integers(0, 99), min_size=min_tags, max_size=4))
        if region_tags:
            tags[0] = draw(st.sampled_from(reg))
        els.append([i, t, tags, [draw(st.sampled_from(node_ids)) for _ in range(N_NODES[t])]])
    return dict(nodes=nodes, phys=phys, els=els)


def expect(m):
    return ({i: c for i, c in m["nodes"]}, {i: (t, tags, nn) for i, t, tags, nn in m["els"]}, {nm: (r, d) for nm, r, d in m["phys"]})


def load(m):
    g = GmshIO()
    g.nodes, g.elements, g.physical = expect(m)
    return g


def compare(got, m, what, phys=True):
    nodes, els, ph = expect(m)
    require({int(k): [float(x) for x in v] for k, v in got.nodes.items()} == nodes, "{}: nodes {} became {}", what, nodes, got.nodes)
    require({k: (v[0], list(v[1]), list(v[2])) for k, v in got.elements.items()} == els, "{}: elements {} became {}", what, els, got.elements)
    if phys:
        require({k: tuple(v) for k, v in got.physical.items()} == ph, "{}: regions {} became {}", what, ph, got.physical)


def run_mesh(case):
    m = case["mesh"]
    with scratch() as d:
        path = os.path.join(d, "m.msh")
        g = load(m)
        if case["handle"]:
            with open(path, "w") as f:
                g.write_ascii(f)
        else:
            g.filename = path
            g.write_ascii()
        text = open(path).read()
        compare(g, m, "writing")
        a = GmshIO(path)
        compare(a, m, "written and read")
        path2 = os.path.join(d, "m2.msh")
        a.filename = path2
        a.write_ascii()
        require(open(path2).read() == text, "a mesh read and written again gives a different file")
        b = GmshIO()
        b.filename = path2
        with open(path2) as f:
            b.read(f)
        compare(b, m, "second generation")
        b.reset()
        require(not b.nodes and not b.elements and not b.physical and not b.element_data, "reset leaves data")
    return ["nt"] if len({e[1] for e in m["els"]}) >= 2 else []


def run_foreign(case):
    """Files written by somebody else."""
    m = case["mesh"]
    sep = case["sep"]
    v1 = case["v1"]
    sec = []
    nodes = ["{}{}{}".format(i, sep, sep.join(repr(float(x)) for x in c)) for i, c in m["nodes"]]
    els = []
    for i, t, tags, nn in m["els"]:
        if v1:
            tags = (tags + [0, 0])[:2]
            els.append([i, t] + tags + [len(nn)] + nn)
        else:
            els.append([i, t, len(tags)] + tags + nn)
    els = [sep.join(map(str, e)) for e in els]
    phys = ['{}{}{}{}"{}"'.format(d, sep, r, sep, nm) for nm, r, d in m["phys"]]
    if v1:
        sec = [["$NOD", str(len(nodes))] + nodes + ["$ENDNOD"], ["$ELM", str(len(els))] + els + ["$ENDELM"]]
    else:
        body = [["$PhysicalNames", str(len(phys))] + phys + ["$EndPhysicalNames"], ["$Nodes", str(len(nodes))] + nodes + ["$EndNodes"],
                ["$Elements", str(len(els))] + els + ["$EndElements"],
                ["$Comments", "1 15 2 1 1 1", "1 2.0 3.0 4.0", "$EndComments"]]
        body = [body[i] for i in case["order"]]
        sec = [["$MeshFormat", "2.2 0 8", "$EndMeshFormat"]] + body
    with scratch() as d:
        path = os.path.join(d, "m.msh")
        with open(path, "w") as f:
            f.write("\n".join("\n".join(s) for s in sec) + "\n")
        g = GmshIO(path)
        if v1:
            m = dict(m, els=[[i, t, (tags + [0, 0])[:2], nn] for i, t, tags, nn in m["els"]])
        compare(g, m, "read", phys=not v1)
    return ["nt", "v1" if v1 else "v2"] if len({e[1] for e in m["els"]}) >= 2 else []


VALUE = st.one_of(st.integers(-4, 4).map(float), st.floats(allow_nan=False))


@st.composite
def field_cases(draw):
    m = draw(mesh())
    n = draw(st.integers(1, 8))
    ids = draw(st.lists(st.integers(1, 10 ** 6), min_size=n, max_size=n, unique=True))
    fields = []
    for nm in draw(st.lists(NAME, min_size=1, max_size=4, unique=True)):
        c = draw(st.sampled_from([1, 1, 2, 3, 5, 6, 9]))
        fields.append([nm, [[draw(VALUE) for _ in range(c)] for _ in range(n)]])
    return dict(mesh=m, ids=ids, fields=fields, target=draw(st.sampled_from(["path", "none", "append"])), integer=draw(st.booleans()))


def run_fields(case):
    ids = np.array(case["ids"]) if case["integer"] else list(case["ids"])
    fields = {nm: np.array(v, float) for nm, v in case["fields"]}
    with scratch() as d:
        path = os.path.join(d, "f.msh")
        if case["target"] == "append":
            g = load(case["mesh"])
            with open(path, "w") as f:
                g.write_ascii(f)
                for nm, v in fields.items():
                    g.write_element_data(f, ids, nm, v)
        elif case["target"] == "none":
            g = GmshIO()
            g.filename = path
            g.write_fields(None, ids, fields)
        else:
            GmshIO().write_fields(path, ids, fields)
        r = GmshIO(path)
        if case["target"] == "append":
            compare(r, case["mesh"], "mesh with data")
        else:
            require(not r.nodes and not r.elements, "file of fields has nodes {} and elements {}", r.nodes, r.elements)
        require(set(r.element_data) == set(fields), "fields {} of written {}", sorted(r.element_data), sorted(fields))
        for nm, v in fields.items():
            times = r.element_data[nm]
            require(len(times) == 1 and 0 in times, "field {} has time steps {}", nm, sorted(times))
            time, data = times[0]
            require(time == 0, "field {} has time {}", nm, time)
            require(set(data) == set(case["ids"]), "field {} has elements {} of written {}", nm, list(data), case["ids"])
            got = np.array([data[i] for i in case["ids"]], float)
            require(same(got, v), "field {} has values {} of written {}", nm, got.tolist(), v.tolist())
    return ["nt"] if len(fields) > 1 or any(v.shape[1] > 1 for v in fields.values()) else []


@st.composite
def extract_cases(draw):
    m = draw(mesh(region_tags=True, min_tags=1))
    for e in m["els"]:
        pass
    # moderate coordinates, perhaps planar
    flat = draw(st.sampled_from([None, 0, 1, 2]))
    scale = [draw(st.sampled_from([1.0, 1.0, 1.0, 1e4, 1e-3])) for _ in range(3)]
    shift = [draw(st.sampled_from([0.0, 0.0, 1e3, 1e6])) for _ in range(3)]
    for nd in m["nodes"]:
        nd[1] = [float(np.clip(x, -100, 100)) * scale[a] + shift[a] if abs(x) > 1e-3 else shift[a] for a, x in enumerate(nd[1])]
        if flat is not None:
            nd[1][flat] = 1.5
    if draw(st.booleans()) and len(m["phys"]) > 1:
        m["phys"][0][0] = "." + m["phys"][0][0]
    return dict(mesh=m, quoted=draw(st.booleans()))


def run_extract(case):
    m = case["mesh"]
    bc = {r for nm, r, _ in m["phys"] if nm.startswith(".")}
    bulk = [e for e in m["els"] if e[2][0] not in bc]
    if not bulk:
        return []
    with scratch() as d:
        path = os.path.join(d, "m.msh")
        g = load(m)
        g.filename = path
        g.write_ascii()
        data = FlowSim.extract_mesh(path)
    xyz = dict((i, np.array(c)) for i, c in m["nodes"])
    ref = {e[0]: (e[2][0], np.mean([xyz[k] for k in e[3]], axis=0)) for e in bulk}
    C = np.array([v[1] for v in ref.values()])
    diff = C.max(axis=0) - C.min(axis=0)
    axes = [0, 1, 2]
    ids = [int(i) for i in data["ele_ids"]]
    require(sorted(ids) == sorted(ref), "extracted elements {} of bulk {}", ids, sorted(ref))
    require([int(r) for r in data["point_region_ids"]] == [ref[i][0] for i in ids], "regions {} of elements {}", list(data["point_region_ids"]), ids)
    require(data["region_map"] == {nm: r for nm, r, _ in m["phys"]}, "region map {} of {}", data["region_map"], m["phys"])
    P = np.asarray(data["points"])
    require(P.shape[0] == len(ids), "{} points of {} elements", P.shape, len(ids))
    if diff.min() == 0.0:
        k = int(np.argmin(diff))
        zero = [a for a in axes if diff[a] < 1e-9]
        ok = P.shape[1] == 2 and any(np.allclose(P, np.array([ref[i][1] for i in ids])[:, [a for a in axes if a != z]], rtol=1e-9, atol=1e-9) for z in zero)
        require(ok, "points {} of a planar mesh with centres {}", P.tolist(), C.tolist())
    elif diff.min() > 1e-8:
        require(P.shape[1] == 3 and np.allclose(P, np.array([ref[i][1] for i in ids]), rtol=1e-9, atol=1e-9), "points {} are not the centres {}", P.tolist(), C.tolist())
    return (["nt"] if len({e[1] for e in bulk}) >= 2 else []) + (["bc"] if bc else [])


PARTS = [Part("mesh", st.fixed_dictionaries(dict(mesh=mesh(), handle=st.booleans())), run_mesh, quick=500, thorough=10000),
         Part("foreign", st.fixed_dictionaries(dict(mesh=mesh(), sep=st.sampled_from([" ", "  ", "\t"]), v1=st.booleans(), order=st.permutations([0, 1, 2, 3]))), run_foreign, quick=400, thorough=8000),
         Part("fields", field_cases(), run_fields, quick=500, thorough=10000),
         Part("extract", extract_cases(), run_extract, quick=400, thorough=8000)]
