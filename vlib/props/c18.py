"""Reads and estimates reflect the stored samples, whatever the backend and history."""
import gc
from vlib.common import *
from vlib import qref
from mlmc.quantity.quantity import make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments
from mlmc.estimator import Estimate
from mlmc.moments import Legendre

RULE = ("A history works with two storages (memory, HDF5, HDF5 with long results so that a level spans several chunks) holding a vector quantity on "
        "1-3 levels: add samples, create a quantity (component, range, expression of earlier ones, selection, moments), drop quantities, read a level "
        "(chunk by chunk, or the first n samples by Estimate.get_level_samples), estimate, reopen the file; part growing adds up to 3000 samples at a time. Every read and estimate "
        "is compared with a NumPy model of the data stored at that moment. Non-trivial: a quantity read or estimated before is read again after samples were added "
        "to its level or after other quantities were dropped.")
ASSUMPTIONS = ["every level holds at least one sample", "quantities are created anew after the file is reopened"]

op = st.one_of(
    st.tuples(st.just("add"), st.integers(0, 1), st.integers(0, 2), st.integers(1, 9)),
    st.tuples(st.just("make"), st.integers(0, 1), st.sampled_from(["item", "item", "range", "const", "mul", "sin", "select", "moments", "max"]),
              st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("make"), st.integers(0, 1), st.sampled_from(["item", "const", "mul", "sin", "select"]), st.integers(0, 9), st.integers(0, 9)),
    st.tuples(st.just("drop"), st.integers(0, 9)),
    st.tuples(st.just("read"), st.integers(0, 9), st.integers(0, 2), st.sampled_from([None, None, 1, 3, 8, 40])),
    st.tuples(st.just("read"), st.integers(0, 9), st.integers(0, 2), st.sampled_from([None, None, 1, 3, 8, 40])),
    st.tuples(st.just("first"), st.integers(0, 9), st.integers(0, 2)),
    st.tuples(st.just("estimate"), st.integers(0, 9)),
    st.tuples(st.just("reopen"), st.integers(0, 1)),
).map(list)


@st.composite
def cases(draw):
    kinds = draw(st.lists(st.sampled_from(["mem", "hdf", "wide"]), min_size=2, max_size=2))
    n = [draw(st.lists(st.integers(1, 6), min_size=1, max_size=3)) for _ in kinds]
    pre = [["make", 0, "item", draw(st.integers(0, 3)), 0], ["make", draw(st.integers(0, 1)), "item", draw(st.integers(0, 3)), 0]]
    look = draw(st.lists(st.tuples(st.just("read"), st.integers(0, 3), st.integers(0, 2), st.sampled_from([None, 3, 8, 40])).map(list), max_size=4))
    ops = draw(st.lists(op, min_size=4, max_size=24))
    return dict(kinds=kinds, n=n, seed=draw(st.integers(0, 10 ** 6)), ops=pre + look + ops + look)


class Store:
    def __init__(self, i, kind, n, seed, d):
        self.kind, self.seed, self.path = kind, seed + 1000 * i, os.path.join(d, "s{}.hdf5".format(i))
        self.m = 400 if kind == "wide" else 3
        self.specs = vector_format(self.m)
        self.levels = [arr_values(self.seed + l, k, self.m) for l, k in enumerate(n)]
        self.storage = Memory() if kind == "mem" else SampleStorageHDF(file_path=self.path)
        fill_storage(self.storage, self.specs, self.levels)
        self.root = make_root_quantity(self.storage, self.specs)
        self.batches = 0

    def add(self, l, k):
        l %= len(self.levels)
        self.batches += 1
        a = arr_values(self.seed + 37 * self.batches + l, k, self.m)
        n0 = len(self.levels[l])
        ids = [sample_tag(l, n0 + i) for i in range(k)]
        self.storage.save_scheduled_samples(l, ids)
        self.storage.save_samples({l: [(s, (x[0].copy(), x[1].copy())) for s, x in zip(ids, a)]}, {})
        self.levels[l] = np.concatenate([self.levels[l], a])

    def vals(self):
        return qref.levels_to_vals(self.levels)

    def reopen(self):
        if self.kind != "mem":
            self.storage = SampleStorageHDF(file_path=self.path)
            self.root = make_root_quantity(self.storage, self.storage.load_result_format())


class Made:
    """A quantity with its model: fn(values of one level [M, N, 1|2], level) -> values."""

    def __init__(self, store, q, fn, size, plain=True, selected=False):
        self.store, self.q, self.fn, self.size, self.plain, self.selected = store, q, fn, size, plain, selected
        self.seen = {}

    def model(self, level, n=None):
        v = self.store.vals()[level]
        return self.fn(v if n is None else v[:, :n], level)


def make(store, kind, i, j, mine):
    base = store.root["q"][1.0]["10"]
    k = i % store.m
    one = Made(store, base[k, 0], lambda v, l, k=k: v[k:k + 1], 1)
    usable = [x for x in mine if x.plain and not x.selected and x.size == 1]
    a = usable[i % len(usable)] if usable else one
    b = usable[j % len(usable)] if usable else one
    if kind == "item":
        return one
    if kind == "range":
        hi = min(store.m, k + 2)
        if hi - k < 2:
            return one
        return Made(store, base[k:hi, 0], lambda v, l: v[k:hi], hi - k)
    if kind == "const":
        c = 1.5 + j
        return Made(store, a.q * 2.0 + c, lambda v, l: a.fn(v, l) * 2.0 + c, 1)
    if kind == "mul":
        return Made(store, a.q * b.q, lambda v, l: a.fn(v, l) * b.fn(v, l), 1)
    if kind == "sin":
        return Made(store, np.sin(a.q), lambda v, l: np.sin(a.fn(v, l)), 1)
    if kind == "max":
        return Made(store, np.maximum(a.q, b.q), lambda v, l: np.maximum(a.fn(v, l), b.fn(v, l)), 1)
    if kind == "select":
        c = (j - 5) / 4.0

        def sel(v, l):
            return a.fn(v, l)[:, (b.fn(v, l) > c).all(axis=(0, 2))]
        return Made(store, a.q.select(b.q > c), sel, 1, selected=True)
    fn = Legendre(3, (-60.0, 60.0))

    def mom(v, l):
        x = a.fn(v, l) / 60.0
        return np.concatenate([np.ones_like(x), x, (3 * x ** 2 - 1) / 2])
    return Made(store, moments(a.q, fn), mom, 3, plain=False)


def run(case):
    with scratch() as d, np.errstate(all="ignore"):
        stores = [Store(i, k, n, case["seed"], d) for i, (k, n) in enumerate(zip(case["kinds"], case["n"]))]
        live = []
        nt = False
        dropped = 0
        for step, o in enumerate(case["ops"]):
            what = "step {} {}".format(step, o)
            if o[0] == "add":
                stores[o[1]].add(o[2], o[3])
            elif o[0] == "make":
                s = stores[o[1]]
                live.append(make(s, o[2], o[3], o[4], [x for x in live if x.store is s]))
            elif o[0] == "reopen":
                stores[o[1]].reopen()
                live = [x for x in live if x.store is not stores[o[1]] or stores[o[1]].kind == "mem"]
            elif not live:
                continue
            elif o[0] == "drop":
                live.pop(o[1] % len(live))
                dropped += 1
                gc.collect(0)
            else:
                x = live[o[1] % len(live)]
                st_ = x.store
                if o[0] == "estimate":
                    if not all(x.model(l).shape[1] for l in range(len(st_.levels))):
                        continue
                    state = tuple(len(a) for a in st_.levels) + (dropped,)
                    qref.check_estimate(estimate_mean(x.q), [x.model(l) for l in range(len(st_.levels))], what)
                    key = "e"
                else:
                    l = o[2] % len(st_.levels)
                    state = (len(st_.levels[l]), dropped)
                    if o[0] == "first":
                        # without a number: the first chunk, a prefix of the stored samples
                        got = Estimate(x.q, st_.storage).get_level_samples(l)
                        if x.selected:
                            exp = x.model(l)
                            got, exp = np.asarray(got), exp[:, :got.shape[1]]
                        else:
                            exp = x.model(l, got.shape[1])
                            require(got.shape[1] >= 1, "{}: first chunk is empty", what)
                        key = ("f", l)
                    elif o[3] is None:
                        got, exp = read_level(x.q, st_.storage, l), x.model(l)
                        key = ("r", l)
                    else:
                        got, exp = Estimate(x.q, st_.storage).get_level_samples(l, n_samples=o[3]), x.model(l, o[3])
                        key = ("r", l, o[3])
                    require(got.shape == exp.shape and close(got, exp, rtol=1e-9, atol=1e-9), "{}: level {} ({} samples stored) gives\n{}\nexpected\n{}", what, l,
                            len(st_.levels[l]), got.tolist(), exp.tolist())
                if key in x.seen and x.seen[key] != state:
                    nt = True
                x.seen.setdefault(key, state)
    return ["nt"] if nt else []


@st.composite
def backend_cases(draw):
    c = draw(qref.data(max_specs=2, max_levels=3, max_n=9))
    c.pop("storage")
    c["batch"] = draw(st.integers(1, 7))
    c["path"] = draw(st.lists(qref.step, max_size=5))
    c["moments"] = draw(st.booleans())
    return c


def run_backend(case):
    """The same samples in memory, in a file written in batches, and in the file reopened."""
    with scratch() as d, np.errstate(all="ignore"):
        m = specs_size(case["specs"])
        levels = [arr_values(case["seed"] + l, n, m) for l, n in enumerate(case["n"])]
        path = os.path.join(d, "s.hdf5")
        mem, hdf = Memory(), SampleStorageHDF(file_path=path)
        fill_storage(mem, to_specs(case["specs"]), levels)
        fill_storage(hdf, to_specs(case["specs"]), levels, batch=case["batch"])
        res = []
        for name, s in (("memory", mem), ("hdf", hdf), ("reopened", SampleStorageHDF(file_path=path))):
            root = make_root_quantity(s, s.load_result_format() if name != "memory" else to_specs(case["specs"]))
            q, _, v = qref.walk(root, qref.root_type(case["specs"]), qref.levels_to_vals(levels), case["path"])[-1]
            if case["moments"]:
                q = moments(q, Legendre(3, (-2.5, 2.5)))
            e = estimate_mean(q)
            if not case["moments"]:
                qref.check_estimate(e, v, name)
            res.append((name, e, len(list(s.chunks()))))
        for name, e, _ in res[1:]:
            f = res[0][1]
            for k in ("mean", "l_means", "n_samples", "n_rm_samples"):
                require(close(getattr(e, k), getattr(f, k), rtol=1e-9, atol=1e-10), "{} of the {} storage: {}, memory: {}", k, name, getattr(e, k), getattr(f, k))
            for k in ("var", "l_vars"):
                require(close(getattr(e, k), getattr(f, k), rtol=1e-7, atol=1e-9), "{} of the {} storage: {}, memory: {}", k, name, getattr(e, k), getattr(f, k))
    return ["nt"] if res[1][2] > len(case["n"]) or len(case["n"]) > 1 else []


@st.composite
def growing_cases(draw):
    L = draw(st.integers(1, 2))
    k = st.sampled_from([1, 7, 100, 511, 512, 513, 1023, 1024, 1025, 2048, 3000])
    step = st.tuples(st.integers(0, 1), k, st.sampled_from(["pairs", "counts", "estimate", "read", "first", "reopen"])).map(list)
    return dict(kind=draw(st.sampled_from(["mem", "hdf", "hdf"])), n=draw(st.lists(k, min_size=L, max_size=L)), seed=draw(st.integers(0, 10 ** 6)),
                steps=draw(st.lists(step, min_size=1, max_size=6)))


def run_growing(case):
    """A scalar quantity with many samples: levels grow over the storage's chunk, every view follows."""
    with scratch() as d, np.errstate(all="ignore"):
        specs = vector_format(1)
        path = os.path.join(d, "s.hdf5")
        levels = [arr_values(case["seed"] + l, n, 1) for l, n in enumerate(case["n"])]
        storage = Memory() if case["kind"] == "mem" else SampleStorageHDF(file_path=path)
        fill_storage(storage, specs, levels)
        q = make_root_quantity(storage, specs)["q"][1.0]["10"][0, 0]
        L = len(levels)
        for i, (l, k, look) in enumerate([[0, 0, "counts"]] + case["steps"]):
            l %= L
            if k:
                a = arr_values(case["seed"] + 31 * i + l, k, 1)
                ids = [sample_tag(l, len(levels[l]) + j) for j in range(k)]
                storage.save_scheduled_samples(l, ids)
                storage.save_samples({l: [(s, (x[0].copy(), x[1].copy())) for s, x in zip(ids, a)]}, {})
                levels[l] = np.concatenate([levels[l], a])
            v = qref.levels_to_vals(levels)
            if look == "reopen" and case["kind"] != "mem":
                storage = SampleStorageHDF(file_path=path)
                q = make_root_quantity(storage, storage.load_result_format())["q"][1.0]["10"][0, 0]
            if look in ("counts", "reopen"):
                got = [int(x) for x in storage.get_n_collected()]
                require(got == [len(a) for a in levels], "step {}: collected {}, stored {}", i, got, [len(a) for a in levels])
            elif look == "pairs":
                got = storage.sample_pairs()
                for j in range(L):
                    require(same(np.asarray(got[j]), v[j]), "step {}: pairs of level {} differ from the {} stored", i, j, len(levels[j]))
            elif look == "estimate":
                qref.check_estimate(estimate_mean(q), v, "step {}".format(i))
            elif look == "first":
                n = max(1, k)
                got = Estimate(q, storage).get_level_samples(l, n_samples=n)
                require(same(got, v[l][:, :n]), "step {}: first {} samples of level {} differ", i, n, l)
            else:
                got = read_level(q, storage, l)
                require(same(got, v[l]), "step {}: level {} gives {} samples, stored {}", i, l, got.shape[1], len(levels[l]))
    return ["nt"] if any(len(a) > 1024 for a in levels) else []


PARTS = [Part("growing", growing_cases(), run_growing, quick=60, thorough=1500),
         Part("histories", cases(), run, quick=400, thorough=12000),
         Part("backends", backend_cases(), run_backend, quick=120, thorough=3000)]
