"""Flow simulation with the solver and the mesh generator replaced by recording stand-ins."""
import stat
import sys
from vlib.common import *
import gstools
import mlmc.random.correlated_field as cf
from mlmc.tool import flow_mc
from mlmc.tool.flow_mc import FlowSim

RULE = ("samples: generated fine and coarse planar or spatial meshes sharing some elements (other ids, other order), field models, deviations, templates and balance files; the solver and the mesh generator are "
        "executables that record what they are given; sample run twice with a seed and once with another. Template: texts with known and unknown placeholders against a single pass replacement. "
        "Regions: fields bound to regions over a pair of meshes. Models: random fields made by name against the same field made directly. Non-trivial: two levels with shared element centres (samples), at least two placeholders, one unknown or repeated (template).")
ASSUMPTIONS = ["flow123d and gmsh are stand-ins", "template uses the random field", "values put into templates contain no placeholders"]

SOLVER = r'''#!/usr/bin/python3 -SE
import sys, os, json, shutil
here = os.path.dirname(os.path.abspath(__file__))
a = sys.argv[1:]
opt = {a[i]: a[i + 1] for i in range(len(a) - 1) if a[i] in ("-i", "-s", "-o")}
conf = json.load(open(os.path.join(here, "conf.json")))
k = len([x for x in os.listdir(here) if x.startswith("run_")])
run = os.path.join(here, "run_%d" % k)
os.mkdir(run)
shutil.copyfile(opt["-s"], os.path.join(run, "input.yaml"))
shutil.copyfile(os.path.join(opt["-i"], "fields_sample.msh"), os.path.join(run, "fields.msh"))
json.dump(dict(cwd=os.getcwd(), opt=opt), open(os.path.join(run, "call.json"), "w"))
text = open(opt["-s"]).read()
which = "coarse" if conf["coarse_mark"] and conf["coarse_mark"] in text else "fine"
if which in conf["fail"]:
    sys.exit(1)
with open(os.path.join(opt["-o"], "water_balance.yaml"), "w") as f:
    f.write(conf["balance"][which])
open(os.path.join(opt["-o"], "flow.log"), "w").write("done")
'''

MESHER = r'''#!/usr/bin/python3 -SE
import sys, os, json, shutil
here = os.path.dirname(os.path.abspath(__file__))
a = sys.argv[1:]
step = a[a.index("-clscale") + 1]
out = a[a.index("-o") + 1]
conf = json.load(open(os.path.join(here, "mesh.json")))
for s, path in conf.items():
    if float(s) == float(step):
        shutil.copyfile(os.path.join(here, path), out)
'''

UNIT = st.integers(0, 16).map(lambda i: i / 16)


@st.composite
def triangles(draw, dim, lo, hi):
    n = draw(st.integers(lo, hi))
    return draw(st.lists(st.lists(st.lists(UNIT, min_size=dim, max_size=dim), min_size=3, max_size=3), min_size=n, max_size=n))


@st.composite
def balance(draw):
    items = []
    for _ in range(draw(st.sampled_from([1, 2, 3, 2, 0, 5]))):
        region = draw(st.sampled_from([".bc_outflow", ".bc_outflow", ".bc_outflow", ".bc_outflow", ".bc_inflow", "ALL", "ground", "bc_outflow"]))
        flux = draw(st.integers(-40, 40)) / 8
        inn = draw(st.sampled_from([0.0, 0.0, 0.0, 0.0, 1e-12, 9e-11, 1e-12, -1.0, 2.0, 1e-8, 3e-5])) if region == ".bc_outflow" else draw(st.sampled_from([0.0, 3.0]))
        items.append([0.0, region, [flux, inn, flux - inn]])
    for _ in range(draw(st.integers(0, 2))):
        items.append([draw(st.sampled_from([0.5, 1.0])), ".bc_outflow", [draw(st.integers(-40, 40)) / 8, draw(st.sampled_from([0.0, 5.0])), 0.0]])
    return items


@st.composite
def sample_cases(draw):
    dim = draw(st.sampled_from([2, 2, 3]))
    fine = draw(triangles(dim, 2, 14))
    extra = draw(triangles(dim, 0, 4))
    coarse = draw(st.lists(st.integers(0, len(fine) - 1), min_size=0, max_size=6)) if draw(st.integers(0, 3)) else []
    model = draw(st.sampled_from(["gauss", "gauss", "exp", "svd", "svd", "TPLgauss", "TPLexp", "TPLStable", "fourier"]))
    if dim == 3 and model == "fourier":
        model = "gauss"
    good = draw(st.integers(0, 1))
    ok = [[0.0, ".bc_outflow", [draw(st.integers(-40, 40)) / 8, 0.0, 0.0]]]
    return dict(dim=dim, fine=fine, shared=coarse, extra=extra, model=model, axis=draw(st.sampled_from([0, 1, 2])), regions=draw(st.integers(1, 3)),
                level0=draw(st.integers(0, 3)) == 0, corr_length=draw(st.sampled_from([0.1, 0.5])), log=draw(st.booleans()), sigma=draw(st.sampled_from([1, 0.5, 2.0])), mode_no=20,
                step=draw(st.sampled_from([0.25, 0.1, 0.0625])), coarse_step=draw(st.sampled_from([0.5, 1.0])), time_factor=draw(st.sampled_from([None, 1.0, 3.0])),
                balance=[ok if good else draw(balance()), [[0.0, ".bc_outflow", [2.5, 0.0, 2.5]]] if good else draw(balance())],
                fail=draw(st.sampled_from([[], [], [], ["coarse"], ["fine"]])), seeds=[draw(st.integers(0, 2 ** 31)), draw(st.integers(0, 2 ** 31))], offset=draw(st.integers(0, 50)),
                reuse=draw(st.booleans()), version=draw(st.sampled_from([2, 4])), noise=draw(st.integers(0, 2 ** 31)))


def write_mesh(path, tris, dim, axis, n_regions, offset, tag_shift):
    """Independent writer; boundary elements interleaved with the bulk ones. Returns {element id: centre}."""
    nodes, els, centres = [], [], []
    for k, t in enumerate(tris):
        ids = []
        for p in t:
            q = list(p)
            if dim == 2:
                q.insert(axis, 0.75)
            nodes.append(q)
            ids.append(len(nodes))
        eid = offset + 3 * k + 1
        els.append("{} 2 2 {} {} {}".format(eid, 1 + (k + tag_shift) % n_regions, 7, " ".join(map(str, ids))))
        els.append("{} 1 2 {} {} {}".format(eid + 1, 20 + k % 2, 8, " ".join(map(str, ids[:2]))))
        centres.append((eid, np.mean(np.array(t), axis=0)))
    names = ['2 {} "ground_{}"'.format(i + 1, i) for i in range(n_regions)] + ['1 20 ".bc_outflow"', '1 21 ".bc_inflow"']
    with open(path, "w") as f:
        f.write("$MeshFormat\n2.2 0 8\n$EndMeshFormat\n$PhysicalNames\n{}\n{}\n$EndPhysicalNames\n".format(len(names), "\n".join(names)))
        f.write("$Nodes\n{}\n".format(len(nodes)) + "".join("{} {!r} {!r} {!r}\n".format(i + 1, *q) for i, q in enumerate(nodes)) + "$EndNodes\n")
        f.write("$Elements\n{}\n{}\n$EndElements\n".format(len(els), "\n".join(els)))
    return dict(centres)


def balance_text(items):
    return "data:\n" + "".join("  - time: {!r}\n    region: '{}'\n    quantity: water\n    data: [{}]\n".format(t, r, ", ".join(repr(x) for x in v)) for t, r, v in items) if items else "data: []\n"


def expected(items):
    """None if the balance has to be refused."""
    total, found = 0.0, False
    for t, r, v in items:
        if t > 0:
            break
        if r == ".bc_outflow":
            if v[1] > 1e-10:
                return None
            total += v[0]
            found = True
    return -total if found else None


def parse_fields(path):
    out, lines, i = {}, open(path).read().split("\n"), 0
    while i < len(lines):
        if lines[i] == "$ElementData":
            name, n = lines[i + 2].strip('"'), int(float(lines[i + 8]))
            require(int(float(lines[i + 7])) == 1, "field has {} components", lines[i + 7])
            rows = [r.split() for r in lines[i + 9:i + 9 + n]]
            require(lines[i + 9 + n] == "$EndElementData", "field file {}", lines)
            out[name] = {int(r[0]): float(r[1]) for r in rows}
            i += 9 + n
        i += 1
    return out


TEMPLATE = "mesh: <mesh_file>\nconductivity: <conductivity>\nagain: <conductivity>\nh1: <timestep_h1>\nh2: <timestep_h2>\nother: <unknown> < 3 <mesh_fil> $INPUT$\n"


def run_sample(case):
    with scratch() as d:
        d = os.path.realpath(d)
        tools = os.path.join(d, "tools")
        os.mkdir(tools)
        for name, text in (("flow", SOLVER), ("gmsh", MESHER)):
            p = os.path.join(tools, name)
            open(p, "w").write(text)
            os.chmod(p, os.stat(p).st_mode | stat.S_IXUSR)
        dim, axis = case["dim"], case["axis"]
        coarse_tris = [case["fine"][i] for i in case["shared"]] + case["extra"]
        if not coarse_tris:
            coarse_tris = case["fine"][:1]
        # planar meshes must not be planar twice, otherwise the dropped axis is ambiguous
        for tris in (case["fine"], coarse_tris):
            c = np.mean(np.array(tris), axis=1)
            if len(c) < 2 or ((c.max(axis=0) - c.min(axis=0)) < 1e-6).any():
                return ["degenerate"]
        meshes = {}
        meshes["fine"] = write_mesh(os.path.join(tools, "fine.msh"), case["fine"], dim, axis, case["regions"], case["offset"], 0)
        meshes["coarse"] = write_mesh(os.path.join(tools, "coarse.msh"), coarse_tris, dim, axis, case["regions"], 5, 1)
        json.dump({str(case["step"]): "fine.msh", str(case["coarse_step"]): "coarse.msh"}, open(os.path.join(tools, "mesh.json"), "w"))
        os.mkdir(os.path.join(d, "base"))
        tmpl = os.path.join(d, "base", "in.yaml")
        open(tmpl, "w").write(TEMPLATE)
        geo = os.path.join(d, "base", "m.geo")
        open(geo, "w").write("// geo")
        work = os.path.join(d, "work")
        os.mkdir(work)
        fp = dict(model=case["model"], corr_length=case["corr_length"], dim=dim, log=case["log"], sigma=case["sigma"])
        if case["model"] not in ("svd", "fourier"):
            fp["mode_no"] = case["mode_no"]
        config = dict(env=dict(flow123d=os.path.join(tools, "flow"), gmsh=os.path.join(tools, "gmsh"), gmsh_version=case["version"]), fields_params=fp, yaml_file=tmpl, geo_file=geo, work_dir=work)
        if case["time_factor"] is not None:
            config["time_factor"] = case["time_factor"]
        factor = 1.0 if case["time_factor"] is None else case["time_factor"]
        sim = FlowSim(config=dict(config), clean=True)
        two = not case["level0"]
        if two:
            coarse_level = sim.level_instance([case["coarse_step"]], [0])
            if case["reuse"]:
                require(coarse_level.config_dict["coarse"]["step"] == 0, "coarse step of the lowest level")
            level = sim.level_instance([case["step"]], [case["coarse_step"]])
        else:
            level = sim.level_instance([case["step"]], [0])
        if case["reuse"]:
            # another process continues with the existing files
            sim = FlowSim(config=dict(config), clean=False)
            if two:
                sim.level_instance([case["coarse_step"]], [0])
            level = sim.level_instance([case["step"]], [case["coarse_step"] if two else 0])
        coarse_dir = [x for x in os.listdir(work) if str(case["coarse_step"]) in x] if two else []
        json.dump(dict(coarse_mark=coarse_dir[0] if coarse_dir else None, fail=case["fail"], balance=dict(fine=balance_text(case["balance"][0]), coarse=balance_text(case["balance"][1]))),
                  open(os.path.join(tools, "conf.json"), "w"))
        require(level.need_sample_workspace and level.task_size > 0, "level needs a workspace and a positive task size")
        require(abs(level.task_size * 17000000 - len(meshes["fine"])) < 1e-6 or level.task_size > 0, "task size")

        runs = []
        n_before = 0
        results = []
        for i, seed in enumerate([case["seeds"][0], case["seeds"][0], case["seeds"][1]]):
            sd = os.path.join(d, "sample_{}".format(i))
            os.mkdir(sd)
            os.chdir(sd)
            np.random.seed((case["noise"] + i) % 2 ** 32)
            refused = None
            try:
                res = FlowSim.calculate(dict(level.config_dict), seed)
            except Exception as e:
                refused = e
            os.chdir(d)
            recs = sorted((x for x in os.listdir(tools) if x.startswith("run_")), key=lambda x: int(x[4:]))[n_before:]
            n_before += len(recs)
            recs = [os.path.join(tools, x) for x in recs]
            want = {"fine": expected(case["balance"][0]) if "fine" not in case["fail"] else None, "coarse": expected(case["balance"][1]) if "coarse" not in case["fail"] else None}
            should_fail = want["fine"] is None or two and want["coarse"] is None
            if refused is not None:
                require(should_fail, "sample raised {!r} although its runs gave {}", refused, want)
            else:
                require(not should_fail, "sample returned {} although a run gave no valid outflow ({})", res, want)
                fine, coarse = np.asarray(res[0]), np.asarray(res[1])
                require(fine.shape == (1,) and coarse.shape == (1,), "results of shapes {} {}", fine.shape, coarse.shape)
                require(abs(fine[0] - want["fine"]) < 1e-9, "fine result {} for the outflow {}", fine, case["balance"][0])
                require(abs(coarse[0] - (want["coarse"] if two else 0.0)) < 1e-9, "coarse result {} for the outflow {} ({})", coarse, case["balance"][1], "two levels" if two else "level 0")
            got = {}
            for r in recs:
                text = open(os.path.join(r, "input.yaml")).read()
                call = json.load(open(os.path.join(r, "call.json")))
                which = "coarse" if coarse_dir and coarse_dir[0] in text else "fine"
                require(which not in got, "{} simulation ran twice in a sample", which)
                require(os.path.realpath(call["opt"]["-o"]) == sd, "output directory {} is not the sample directory", call["opt"]["-o"])
                step = case["coarse_step"] if which == "coarse" else case["step"]
                lines = dict(l.split(": ", 1) for l in text.strip().split("\n"))
                require(open(lines["mesh"]).read() == open(os.path.join(tools, which + ".msh")).read(), "{} simulation has the mesh {}", which, lines["mesh"])
                ref = "!FieldElementwise {mesh_data_file: $INPUT_DIR$/fields_sample.msh, field_name: conductivity}"
                require(lines["conductivity"] == ref and lines["again"] == ref, "field in the input file: {}", lines)
                require(abs(float(lines["h1"]) - factor * step) < 1e-12 and abs(float(lines["h2"]) - factor * step ** 2) < 1e-12, "time steps {} {} for the mesh step {}", lines["h1"], lines["h2"], step)
                require(lines["other"] == "<unknown> < 3 <mesh_fil> $INPUT$", "other text became {}", lines["other"])
                f = parse_fields(os.path.join(r, "fields.msh"))
                require(set(f) == {"conductivity"}, "fields {}", sorted(f))
                require(set(f["conductivity"]) == set(meshes[which]), "{} field has elements {} instead of {}", which, sorted(f["conductivity"]), sorted(meshes[which]))
                require(all(np.isfinite(v) and (v > 0 or not case["log"]) for v in f["conductivity"].values()), "{} field has values {}", which, f)
                got[which] = f["conductivity"]
            require("fine" in got, "fine simulation did not run")
            if not two:
                require("coarse" not in got, "coarse simulation ran on level 0")
            elif want["fine"] is not None:
                require("coarse" in got, "coarse simulation did not run")
            runs.append(got)
            if i == 1 and refused is None:
                require(same(res[0], results[0][0]) and same(res[1], results[0][1]), "result is not reproducible")
            results.append(res if refused is None else None)
        for which in runs[0]:
            a, b = runs[0][which], runs[1][which]
            require(all(abs(a[k] - b[k]) <= 1e-6 * (1 + abs(a[k])) for k in a), "{} field differs in two runs with the same seed {}: {} {}", which, case["seeds"][0], a, b)
        if case["seeds"][0] != case["seeds"][1]:
            require(runs[0]["fine"] != runs[2]["fine"], "fields of two different seeds are equal: {}", runs[0]["fine"])
        shared = 0
        if "coarse" in runs[0]:
            fine_ids = list(meshes["fine"])
            for k, (eid, c) in enumerate(meshes["coarse"].items()):
                for fid in fine_ids:
                    if np.array_equal(meshes["fine"][fid], c):
                        shared += 1
                        a, b = runs[0]["fine"][fid], runs[0]["coarse"][eid]
                        require(abs(a - b) <= 1e-4 * (1 + abs(a)), "value of the realisation at one point is {} for the fine and {} for the coarse simulation", a, b)
        vals = list(runs[0]["fine"].values())
        centres = {tuple(c) for c in meshes["fine"].values()}
        require(len(centres) < 2 or len(set(vals)) > 1, "realisation is constant: {}", vals)
        labels = [case["model"]] + (["refused"] if results[0] is None else [])
        return labels + (["nt"] if shared else [])


# ------------------------------------------------------------------------------------------ template

PNAMES = ["mesh_file", "a", "b", "ab", "timestep_h1", "conductivity", "x_1"]
CHUNK = st.one_of(st.sampled_from(["\n", " ", "text: ", "{", "}", "$", "< ", " >", "mesh_file", "a", "%s", "\\1", "# č"]), st.text("abc :\n", max_size=4))


@st.composite
def template_cases(draw):
    parts = draw(st.lists(st.one_of(st.tuples(st.just("t"), CHUNK), st.tuples(st.just("p"), st.sampled_from(PNAMES + ["unknown", "A", "a "]))), max_size=12))
    values = st.one_of(st.integers(-5, 5), st.floats(-10, 10, allow_nan=False), st.text("xyz/._ \\$%{}", max_size=6), st.sampled_from(PNAMES))
    if draw(st.integers(0, 3)) == 0:
        parts = parts * draw(st.integers(2, 12))
    return dict(parts=[list(p) for p in parts], params={n: draw(values) for n in draw(st.lists(st.sampled_from(PNAMES), unique=True))}, inplace=draw(st.booleans()))


def run_template(case):
    text = "".join(v if k == "t" else "<{}>".format(v) for k, v in case["parts"])
    # text chunks could form a placeholder by chance, e.g. "< " never does; the reference works on the parts
    ref = "".join(v if k == "t" else str(case["params"][v]) if v in case["params"] else "<{}>".format(v) for k, v in case["parts"])
    used = {v for k, v in case["parts"] if k == "p" and v in case["params"]}
    with scratch() as d:
        a = os.path.join(d, "a")
        b = a if case["inplace"] else os.path.join(d, "b")
        open(a, "w").write(text)
        got = flow_mc.substitute_placeholders(a, b, dict(case["params"]))
        out = open(b).read()
        require(out == ref, "template {!r} with {} became {!r}", text, case["params"], out)
        require(sorted(got) == sorted(used), "used placeholders {} instead of {}", got, sorted(used))
        require(case["inplace"] or open(a).read() == text, "template was changed")
    ps = [v for k, v in case["parts"] if k == "p"]
    return ["nt"] if len(ps) >= 2 and (len(set(ps)) < len(ps) or set(ps) - set(case["params"])) else []


# ------------------------------------------------------------------------------------------ fields on regions

@st.composite
def region_cases(draw):
    dim = draw(st.integers(2, 3))
    mesh = st.integers(1, 9).flatmap(lambda n: st.tuples(st.just(n), st.lists(st.integers(0, 2), min_size=n, max_size=n), st.integers(0, 10 ** 6)))
    return dict(dim=dim, fine=list(draw(mesh)), coarse=draw(st.one_of(st.none(), mesh.map(list))), ids=draw(st.lists(st.integers(1, 60), min_size=3, max_size=3, unique=True)),
                groups=draw(st.lists(st.lists(st.integers(0, 2), max_size=3, unique=True), min_size=1, max_size=3)), seed=draw(st.integers(0, 2 ** 31 - 1)))


def run_regions(case):
    """Fields bound to regions, over the points of both meshes: each part has the values of its own points and regions."""
    names = ["r0", "r1", "r2"]
    region_map = dict(zip(names, case["ids"]))

    def mesh(c):
        n, reg, seed = c
        return dict(points=np.round(np.random.RandomState(seed).rand(n, case["dim"]), 3), point_region_ids=np.array([case["ids"][r] for r in reg]), ele_ids=np.arange(1, n + 1),
                    region_map=dict(region_map))
    model = lambda: gstools.Gaussian(dim=case["dim"], len_scale=0.3)
    objs = []
    for k, g in enumerate(case["groups"]):
        objs.append(cf.Field("c{}".format(k), float(k + 1), regions=[names[i] for i in g]))
        rf = cf.GSToolsSpatialCorrelatedField(model(), mode_no=20)
        rf.change_srf(case["seed"] - case["seed"] % 7 + k)
        objs.append(cf.Field("g{}".format(k), rf, regions=[names[i] for i in g]))
    fine = mesh(case["fine"])
    coarse = None if case["coarse"] is None else mesh(case["coarse"])
    fields = FlowSim.make_fields(cf.Fields(objs), fine, coarse)
    parts = FlowSim.generate_random_sample(fields, coarse_step=0 if coarse is None else 0.5, n_fine_elements=len(fine["points"]))
    require(coarse is not None or not parts[1], "coarse part without a coarse mesh: {}", parts[1])
    for part, m, what in zip(parts, (fine, coarse), ("fine", "coarse")):
        if m is None:
            continue
        require(set(part) == {o.name for o in objs}, "{} part has the fields {}", what, sorted(part))
        for k, g in enumerate(case["groups"]):
            own = np.array([not g or r in [case["ids"][i] for i in g] for r in m["point_region_ids"]])
            ref = np.asarray(gstools.SRF(model(), seed=case["seed"] - case["seed"] % 7 + k, mode_no=20)(tuple(m["points"].T))).reshape(-1)
            for name, values in (("c{}".format(k), np.full(len(own), k + 1.0)), ("g{}".format(k), ref)):
                got = np.asarray(part[name])
                require(got.shape == (len(own), 1), "{} values of {} have shape {}", what, name, got.shape)
                require(np.allclose(got[:, 0], np.where(own, values, 0.0), atol=1e-7), "{} values of {} (regions {} of {}) are {} expected {}", what, name, g, m["point_region_ids"].tolist(),
                        got[:, 0].tolist(), np.where(own, values, 0.0).tolist())
    return ["nt"] if coarse is not None and any(case["groups"]) else []


@st.composite
def model_cases(draw):
    dim = draw(st.sampled_from([2, 3]))
    model = draw(st.sampled_from(["gauss", "exp", "TPLgauss", "TPLexp", "TPLStable", "svd", "fourier"]))
    return dict(dim=2 if model == "fourier" else dim, model=model, corr_length=draw(st.sampled_from([0.05, 0.125, 0.4, 1.0])), log=draw(st.booleans()), sigma=draw(st.sampled_from([1, 0.25, 2.0])),
                mode_no=draw(st.sampled_from([10, 20, 21])), n=draw(st.integers(2, 20)), seed=draw(st.integers(0, 2 ** 31)), defaults=draw(st.integers(0, 7)) == 0)


def run_model(case):
    """The random field made for a name is the named one, with the given parameters."""
    kw = dict(corr_length=case["corr_length"], dim=case["dim"], log=case["log"], sigma=case["sigma"], mode_no=case["mode_no"])
    if case["defaults"]:
        kw.pop("mode_no")
    mode_no = kw.get("mode_no", 1000)
    pts = np.round(np.random.RandomState(case["seed"] % 1000).rand(case["n"], case["dim"]), 3)
    fields = flow_mc.create_corr_field(model=case["model"], **kw)
    names = dict(gauss=gstools.Gaussian, exp=gstools.Exponential, TPLgauss=gstools.TPLGaussian, TPLexp=gstools.TPLExponential, TPLStable=gstools.TPLStable)
    if case["model"] in names:
        for f in fields.fields:
            f.correlated_field.change_srf(case["seed"])
        fields.set_points(pts)
        got = np.asarray(fields.sample()["conductivity"]).reshape(-1)
        srf = gstools.SRF(names[case["model"]](dim=case["dim"], len_scale=case["corr_length"]), seed=case["seed"], mode_no=mode_no)
        exp = case["sigma"] * np.asarray(srf(tuple(pts.T))).reshape(-1)
        exp = np.exp(exp) if case["log"] else exp
    else:
        if case["model"] == "svd":
            ref = cf.SpatialCorrelatedField(mu=0.0, sigma=case["sigma"], corr_exp="exp", dim=case["dim"], corr_length=case["corr_length"], log=case["log"])
        else:
            ref = cf.FourierSpatialCorrelatedField("gauss", dim=case["dim"], corr_length=case["corr_length"], log=case["log"], sigma=case["sigma"])
        out = []
        for obj in (fields, cf.Fields([cf.Field("conductivity", ref)])):
            obj.set_points(pts)
            np.random.seed(case["seed"])
            out.append(np.asarray(obj.sample()["conductivity"]).reshape(-1))
        got, exp = out
    require(got.shape == exp.shape and np.allclose(got, exp, rtol=1e-9, atol=1e-12), "field {} is {} expected {}", case["model"], got.tolist(), exp.tolist())
    return ["nt"] if case["n"] > 3 else []


PARTS = [Part("models", model_cases(), run_model, quick=100, thorough=2000, shards=3),
         Part("regions", region_cases(), run_regions, quick=150, thorough=4000),
         Part("samples", sample_cases(), run_sample, quick=160, thorough=3000, shards=4),
         Part("template", template_cases(), run_template, quick=500, thorough=10000)]
