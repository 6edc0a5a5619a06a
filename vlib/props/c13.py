"""Indexing and building of quantities."""
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity import Quantity

RULE = ("index: a generated result format, samples on 1-3 levels and index paths (name, time, location, then array keys) are read back and "
        "compared with the positions computed from the format; interpolation: a time between or at stored times; build: arrays, "
        "dictionaries, time series and fields of generated parts, indexed back, nested once; missing: keys that are not there; refuse: parts of different types. "
        "Non-trivial: a path of at least two steps, or more than one part.")
ASSUMPTIONS = ["array keys are ints, slices and tuples of them selecting at least one entry"]


@st.composite
def index_cases(draw):
    c = draw(qref.data(coords=True))
    c["paths"] = draw(st.lists(st.lists(qref.step, min_size=1, max_size=6), min_size=1, max_size=3))
    return c


def run_index(case):
    with scratch() as d:
        storage, root, t, vals, _ = qref.build(case, d)
        deep = 0
        for path in case["paths"]:
            chain = qref.walk(root, t, vals, path)
            deep = max(deep, len(chain))
            for q, qt, v in chain:
                qref.check(q, storage, qt, v, "after {} steps of {}".format(len(chain) - 1, path))
    return ["nt"] if deep > 2 else []


@st.composite
def interp_cases(draw):
    c = draw(qref.data(max_times=4))
    c["spec"] = draw(st.integers(0, 3))
    c["at"] = draw(st.integers(0, 100)) / 100.0 if draw(st.booleans()) else draw(st.integers(0, 3))
    c["path"] = draw(st.lists(qref.step, max_size=3))
    return c


def run_interp(case):
    with scratch() as d:
        storage, root, t, vals, _ = qref.build(case, d)
        (q0, t0, v0), (q, qt, v) = qref.walk(root, t, vals, [dict(i=case["spec"], k=0)])
        times = qt[1]
        if len(times) < 2:
            return []
        value = times[0] + case["at"] * (times[-1] - times[0]) if isinstance(case["at"], float) else times[case["at"] % len(times)]
        n = qref.type_size(qt[2])
        j = max(i for i in range(len(times)) if times[i] <= value)
        j = min(j, len(times) - 2)
        w = (value - times[j]) / (times[j + 1] - times[j])
        exp = [a[j * n:(j + 1) * n] * (1 - w) + a[(j + 1) * n:(j + 2) * n] * w for a in v]
        for out in (times[0] - 0.25, times[-1] + 0.25, times[-1] + 100.0):
            try:
                got = [read_level(q.time_interpolation(out), storage, l) for l in range(len(v))]
            except Exception:
                continue
            require(all(np.isnan(g).all() for g in got), "interpolation at {} outside of the times {} gives {}", out, times, got[0].tolist())
        qi = q.time_interpolation(value)
        for qq, qqt, vv in qref.walk(qi, qt[2], exp, case["path"]):
            qref.check(qq, storage, qqt, vv, "interpolation at {}".format(value), exact=False)
    return ["nt"]


@st.composite
def build_cases(draw):
    c = draw(qref.data(max_dim=2))
    c["kind"] = draw(st.sampled_from(["array", "dict", "time", "field"]))
    c["outer"] = draw(st.sampled_from([None, None, "array", "dict", "time", "field"]))
    c["path"] = draw(st.lists(qref.step, min_size=1, max_size=5))           # to the first part
    c["others"] = draw(st.lists(st.lists(qref.step, min_size=5, max_size=5), min_size=0, max_size=5))
    c["shape"] = draw(st.sampled_from([None, "2d"]))
    c["back"] = draw(st.lists(st.lists(qref.step, min_size=1, max_size=6), min_size=1, max_size=3))
    return c


def assemble(kind, parts, shape2d):
    """parts: [(q, t, vals)] -> (quantity, type, vals)."""
    qs, t, n = [p[0] for p in parts], parts[0][1], len(parts)
    vals = [np.concatenate([p[2][l] for p in parts], axis=0) for l in range(len(parts[0][2]))]
    if kind == "array":
        if shape2d and n % 2 == 0:
            rows = [qs[i:i + n // 2] for i in range(0, n, n // 2)]
            return Quantity.QArray(rows), ("array", (2, n // 2), t), vals
        return Quantity.QArray(qs), ("array", (n,), t), vals
    if kind == "dict":
        keys = ["k{}".format(3 * i % 7) for i in range(n)]
        return Quantity.QDict(list(zip(keys, qs))), ("dict", [(k, p[1]) for k, p in zip(keys, parts)]), vals
    if kind == "time":
        times = [0.5 * i for i in range(n)]
        return Quantity.QTimeSeries(list(zip(times, qs))), ("time", times, t), vals
    keys = ["f{}".format(3 * i % 7) for i in range(n)]
    return Quantity.QField(list(zip(keys, qs))), ("field", keys, t), vals


def run_build(case):
    with scratch() as d:
        storage, root, t, vals, _ = qref.build(case, d)
        chain = qref.walk(root, t, vals, case["path"])
        parts = [chain[-1]]
        for o in case["others"]:
            # another quantity of the same type where there is one, otherwise the same again (changed by a constant)
            cand = qref.walk(root, t, vals, o)
            same_t = [x for x in cand if x[1] == parts[0][1]]
            if same_t:
                parts.append(same_t[0])
            elif case["kind"] == "dict":
                parts.append(cand[-1])
            else:
                q, tt, v = parts[0]
                k = float(len(parts))
                parts.append((q + k, tt, [a + k for a in v]))
        q, tt, v = assemble(case["kind"], parts, case["shape"])
        qref.check(q, storage, tt, v, "built " + case["kind"])
        if case["outer"]:
            q, tt, v = assemble(case["outer"], [(q, tt, v), (q * 2.0, tt, [a * 2.0 for a in v])], None)
            qref.check(q, storage, tt, v, "built {} of {}".format(case["outer"], case["kind"]))
        for path in case["back"]:
            for qq, qt, vv in qref.walk(q, tt, v, path):
                qref.check(qq, storage, qt, vv, "{} indexed back".format(case["kind"]))
    return ["nt"] if len(parts) > 1 else []


@st.composite
def refuse_cases(draw):
    c = draw(qref.data(max_levels=2))
    c["kind"] = draw(st.sampled_from(["array", "time", "field"]))
    c["paths"] = [draw(st.lists(qref.step, min_size=0, max_size=5)) for _ in range(2)]
    c["pos"] = draw(st.integers(0, 3))
    c["extra"] = draw(st.integers(0, 2))
    return c


def run_refuse(case):
    with scratch() as d:
        storage, root, t, vals, _ = qref.build(case, d)
        a, b = [qref.walk(root, t, vals, p)[-1] for p in case["paths"]]
        if a[1] == b[1]:
            return []
        # a condition among numbers, and numbers among conditions
        for mix in ([("a", a[0]), ("b", a[0] < 1.0)], [("a", a[0] < 1.0), ("b", a[0])], [("a", a[0]), ("b", a[0]), ("c", b[0] > 0)]):
            try:
                Quantity.QDict(mix)
            except Exception:
                continue
            raise Violation("a dictionary of a condition and of a quantity was accepted")
        # fields and time series with other locations or times, of the same size
        for kind in ("field", "time"):
            keys = [["x", "y"], ["x", "z"]] if kind == "field" else [[0.0, 1.0], [0.0, 2.0]]
            build = Quantity.QField if kind == "field" else Quantity.QTimeSeries
            p, r = [build([(k, a[0]) for k in ks]) for ks in keys]
            try:
                assemble(case["kind"], [(x, None, [np.zeros((1, 1, 1))]) for x in ([p] * (1 + case["extra"]) + [r])], None)
            except (ValueError, TypeError, AssertionError):
                continue
            raise Violation("{} of two kinds of {} with keys {} was accepted".format(case["kind"], kind, keys))
        parts = [a] * (1 + case["extra"])
        parts.insert(1 + case["pos"] % len(parts), b)
        try:
            assemble(case["kind"], parts, None)
        except (ValueError, TypeError, AssertionError):
            return ["nt"]
        raise Violation("{} of parts of different types {} was accepted".format(case["kind"], [p[1] for p in parts]))


def missing_keys(t):
    if t[0] == "dict":
        names = [k for k, _ in t[1]]
        c = ["", "nothing", 0] + [n[:-1] for n in names] + [n + "x" for n in names] + [n.upper() for n in names]
        return [x for x in c if x not in names]
    if t[0] == "time":
        c = [t[1][0] - 1, t[1][-1] + 1, t[1][0] + 1e-3, "0"] + [x + 0.25 for x in t[1]]
        return [x for x in c if x not in t[1]]
    if t[0] == "field":
        if isinstance(t[1][0], str):
            c = ["", "nowhere", 0] + [x + "0" for x in t[1]] + [x[:-1] for x in t[1]]
        else:
            c = ["", tuple(v + 0.25 for v in t[1][0]), tuple(t[1][0][:2]), (77.0, 0.0, 0.0)]
        return [x for x in c if x not in t[1]]
    s = t[1]
    return [s[0], -s[0] - 1, s[0] + 3] + ([(0, s[1]), (s[0], 0), (0, -s[1] - 1)] if len(s) > 1 else []) + [(0,) * (len(s) + 1) if t[2][0] == "scalar" else s[0]]


def run_missing(case):
    with scratch() as d:
        storage, root, t, vals, _ = qref.build(case, d)
        n = 0
        for path in case["paths"]:
            for q, qt, v in qref.walk(root, t, vals, path):
                if qt[0] == "scalar":
                    continue
                for key in missing_keys(qt):
                    try:
                        qq = q[key]
                        got = [read_level(qq, storage, l) for l in range(len(v))]
                    except Exception:
                        n += 1
                        continue
                    raise Violation("{} has no {!r} but indexing by it gives {}".format(qt, key, got[0].tolist()))
    return ["nt"] if n > 3 else []


PARTS = [Part("missing", index_cases(), run_missing, quick=120, thorough=3000),
         Part("index", index_cases(), run_index, quick=500, thorough=15000),
         Part("interpolation", interp_cases(), run_interp, quick=250, thorough=6000),
         Part("build", build_cases(), run_build, quick=400, thorough=12000),
         Part("refuse", refuse_cases(), run_refuse, quick=150, thorough=3000)]
