"""Reopening an HDF5 storage; the result format."""
import copy
import hashlib
from vlib.props.storage_model import *
import h5py

RULE = ("history: a C01 history (with cost records) in which the file is closed and reopened after generated operations, "
        "with or without attaching again with the same format; all queries are compared with the model after every "
        "operation; non-trivial: a reopen after at least one collected sample. formats: a generated result format is "
        "saved, read back directly and after reopening; non-trivial: more than one quantity, time or location. different: "
        "attaching with the format mutated in one attribute, in every way that applies at a generated place, or with other level parameters must raise and "
        "leave data and format as they were; every case is non-trivial.")
ASSUMPTIONS = ["locations of one quantity are either all names or all coordinates"]


def run_history(case):
    with scratch() as d:
        special = fix_special(case)
        fmt = vector_format(case["m"])
        params = level_params(case)
        storage = make_storage("hdf", d)
        storage.save_global_data(level_parameters=params, result_format=fmt)
        model = Model(case["n_levels"], case["m"], case["ids"])
        reopened_with_data = False
        for op in case["ops"]:
            if op[0] in ("reopen", "attach"):
                storage = make_storage("hdf", d)
                reopened_with_data |= any(model.ok.values())
                if op[0] == "attach":
                    storage.save_global_data(level_parameters=params, result_format=fmt)
            else:
                apply_op(storage, model, op, special)
            compare(storage, model, True, n_ops=True)
            require(np.allclose(np.asarray(storage.get_level_parameters(), dtype=float).ravel(),
                                np.asarray(params, dtype=float).ravel()),
                    "level parameters {} expected {}", storage.get_level_parameters(), params)
            require(storage.get_n_levels() == case["n_levels"], "get_n_levels {}", storage.get_n_levels())
            require(spec_tuples(storage.load_result_format()) == spec_tuples(fmt), "result format changed")
        labels, tot, fail = classify(model, case)
        if reopened_with_data:
            labels.append("nt")
        return labels


def spec_tuples(specs):
    """Comparable plain form, independent of QuantitySpec.__eq__."""
    out = []
    for s in specs:
        locs = []
        for l in s.locations:
            locs.append(l if isinstance(l, str) else tuple(float(x) for x in l))
        out.append((str(s.name), str(s.unit), tuple(int(x) for x in s.shape), tuple(float(t) for t in s.times), tuple(locs)))
    return out


def run_formats(case):
    with scratch() as d:
        fmt = to_specs(case["specs"])
        storage = make_storage("hdf", d)
        storage.save_global_data(level_parameters=[[0.5], [0.25]], result_format=fmt)
        exp = spec_tuples(to_specs(case["specs"]))
        got = spec_tuples(storage.load_result_format())
        require(got == exp, "format read back {} saved {}", got, exp)
        s2 = make_storage("hdf", d)
        got = spec_tuples(s2.load_result_format())
        require(got == exp, "format after reopening {} saved {}", got, exp)
        s2.save_global_data(level_parameters=[[0.5], [0.25]], result_format=to_specs(case["specs"]))
        got = spec_tuples(s2.load_result_format())
        require(got == exp, "format after attaching again {} saved {}", got, exp)
    labels = []
    sp = case["specs"]
    if len(sp) > 1:
        labels.append("several quantities")
    if len({(len(s["times"]), len(s["locations"])) for s in sp}) > 1:
        labels.append("heterogeneous")
    kinds = {isinstance(s["locations"][0], list) for s in sp}
    if True in kinds:
        labels.append("coordinates" if len(kinds) == 1 else "coordinates and names")
    if len(sp) > 1 or len(sp[0]["times"]) > 1 or len(sp[0]["locations"]) > 1:
        labels.append("nt")
    return labels


MUTATIONS = ["name", "unit", "shape", "shape_t", "time_value", "time_drop", "time_add", "loc_value", "loc_drop",
             "loc_add", "loc_order", "drop_spec", "drop_last", "drop_first", "add_spec", "order_spec", "loc_kind"]


def mutate(specs, kind, which):
    """Returns a really different format or None if the mutation does not apply."""
    s = copy.deepcopy(specs)
    i = which % len(s)
    q = s[i]
    if kind == "name":
        q["name"] += "_x"
    elif kind == "unit":
        q["unit"] += "2"
    elif kind == "shape":
        q["shape"][which % 2] += 1
    elif kind == "shape_t":
        q["shape"] = q["shape"][::-1]
    elif kind == "time_value":
        q["times"][which % len(q["times"])] += 0.25
    elif kind == "time_drop":
        if len(q["times"]) < 2:
            return None
        q["times"].pop()
    elif kind == "time_add":
        q["times"].append(q["times"][-1] + 1)
    elif kind == "loc_value":
        k = which % len(q["locations"])
        l = q["locations"][k]
        if isinstance(l, str):
            q["locations"][k] = l + "z"
        else:
            l[which % 3] += 0.125
    elif kind == "loc_drop":
        if len(q["locations"]) < 2:
            return None
        q["locations"].pop()
    elif kind == "loc_add":
        q["locations"].append("new" if isinstance(q["locations"][0], str) else [9.0, 9.0, 9.5])
    elif kind == "loc_order":
        q["locations"] = q["locations"][::-1]
    elif kind == "drop_spec":
        if len(s) < 2:
            return None
        s.pop(i)
    elif kind in ("drop_last", "drop_first"):
        if len(s) < 2:
            return None
        s.pop(0 if kind == "drop_first" else -1)
    elif kind == "add_spec":
        s.append(dict(copy.deepcopy(q), name="another"))
    elif kind == "order_spec":
        s = s[::-1]
    elif kind == "loc_kind":
        q["locations"] = [[float(k), 0.0, 1.0] for k in range(len(q["locations"]))] if isinstance(q["locations"][0], str) \
            else ["l{}".format(k) for k in range(len(q["locations"]))]
    return s if s != specs else None


def file_content(path):
    out = {}
    with h5py.File(path, "r") as f:
        def visit(name, obj):
            if isinstance(obj, h5py.Dataset):
                out[name] = (obj.shape, repr(obj[()].tolist() if obj.dtype.kind != "V" else obj[()]))
        f.visititems(visit)
        out["attrs"] = repr({k: np.asarray(v).tolist() for k, v in f.attrs.items()})
    return out


def run_different(case):
    labels = ["nt"]
    with scratch() as d:
        m = specs_size(case["specs"])
        storage = make_storage("hdf", d)
        fill_storage(storage, to_specs(case["specs"]), [arr_values(case["which"], 3, m), arr_values(case["which"] + 1, 2, m)])
        path = os.path.join(d, "s.hdf5")
        before = file_content(path)
        for mutation in MUTATIONS:
            other = mutate(case["specs"], mutation, case["which"])
            if other is None:
                continue
            labels.append(mutation)
            reader = make_storage("hdf", d)
            refused = False
            try:
                reader.save_global_data(level_parameters=[[1.0], [0.5]], result_format=to_specs(other))
            except Exception:
                refused = True
            require(refused, "attaching with a different format ({}) was accepted", mutation)
            require(file_content(path) == before, "refused format ({}) changed the file", mutation)
        for params in ([[1.0], [0.25]], [[1.0], [0.5], [0.25]], [[1.0]], [[0.5], [1.0]], [[1.0, 2.0], [0.5, 1.0]], [[1.0], [0.5 + 1e-4]])[case["which"] % 3::3]:
            refused = False
            reader = make_storage("hdf", d)
            try:
                reader.save_global_data(level_parameters=params, result_format=to_specs(case["specs"]))
            except Exception:
                refused = True
            require(refused, "attaching with other level parameters {} was accepted", params)
            require(file_content(path) == before, "refused level parameters changed the file")
        # and the right one is still accepted
        again = make_storage("hdf", d)
        again.save_global_data(level_parameters=[[1.0], [0.5]], result_format=to_specs(case["specs"]))
        again.save_global_data(level_parameters=np.array([[1.0], [0.5]]), result_format=to_specs(case["specs"]))
        require(file_content(path) == before, "attaching again changed the file")
    return labels


@st.composite
def any_specs(draw):
    """Result formats, sometimes with long or non-ASCII names, units and locations."""
    specs = draw(spec_list(coords=True))
    more = draw(st.sampled_from(["", "", "", " of a rather long description that takes more than fifty bytes", "x" * 37, " [\u00b5m\u00b2]", "\u017elu\u0165" * 20]))
    if more:
        for s in specs:
            for a in draw(st.lists(st.sampled_from(["name", "unit", "locations"]), max_size=2)):
                s[a] = [l + more if isinstance(l, str) else l for l in s[a]] if a == "locations" else s[a] + more
    return specs


different = st.fixed_dictionaries(dict(specs=any_specs(), which=st.integers(0, 5)))

PARTS = [
    Part("history", history(["sched", "save", "save", "clear", "ops", "reopen", "reopen", "attach"], max_ops=12), run_history,
         quick=160, thorough=3000, shards=4),
    Part("many_levels", history(["sched", "save", "save", "ops", "reopen"], max_ops=5, min_levels=10, max_levels=13, max_m=2, max_batch=3),
         run_history, quick=32, thorough=400, shards=4),
    Part("huge", huge_history(["", "clear", "reopen", "attach"]), run_history, quick=16, thorough=200, shards=4),
    Part("formats", st.fixed_dictionaries(dict(specs=any_specs())), run_formats, quick=250, thorough=4000, shards=2),
    Part("different", different, run_different, quick=60, thorough=1200, shards=3),
]
