"""Reference model of the sample storages: plain dictionaries."""
import numpy as np
from hypothesis import strategies as st
from vlib.common import *


# sample ids up to the documented 100 characters
ID_STYLES = dict(tag=sample_tag, wide=lambda l, i: "L{:04d}_S{:09d}".format(l, i),
                 long=lambda l, i: "run-{}-".format("x" * 80) + sample_tag(l, i), short=lambda l, i: "{:x}.{:x}".format(l, i))


class Model:
    def __init__(self, n_levels, m, ids="tag"):
        self.n_levels, self.m, self.ids = n_levels, m, ids
        self.scheduled = {l: [] for l in range(n_levels)}
        self.ok = {l: [] for l in range(n_levels)}       # (id, fine, coarse)
        self.failed = {l: [] for l in range(n_levels)}   # ids
        self.pending = {l: [] for l in range(n_levels)}
        self.cleared = {l: [] for l in range(n_levels)}
        self.n_ops = {l: [0.0, 0] for l in range(n_levels)}
        self.uid = 0
        self.cum_failed = {l: 0 for l in range(n_levels)}

    def schedule(self, l, k):
        ids = [ID_STYLES[self.ids](l, len(self.scheduled[l]) + i) for i in range(k)]
        self.scheduled[l] += ids
        self.pending[l] += ids
        return ids

    def values(self, special, zero_coarse):
        """New fine/coarse vectors; unique values, with special floats mixed in."""
        out = []
        for part in range(2):
            v = np.array([self.uid + part * 0.5 + c * 0.001 for c in range(self.m)], dtype=float)
            for pos, val in special:
                k = (pos + self.uid) % (2 * self.m)
                if k // self.m == part:
                    v[k % self.m] = val
            out.append(v)
        if zero_coarse:
            out[1] = np.zeros(self.m)
        self.uid += 1
        return out


special_floats = st.lists(st.tuples(st.integers(0, 50), st.sampled_from(
    [float("nan"), float("inf"), float("-inf"), -0.0, 5e-324, 1.7976931348623157e308, 1e-300, 0.1])),
    max_size=3).map(lambda l: [list(x) for x in l])


def enc(x):
    return x


@st.composite
def history(draw, ops_kinds, max_levels=4, max_ops=14, max_m=5, max_batch=6, min_levels=1):
    n_levels = draw(st.integers(min_levels, max_levels))
    m = draw(st.integers(1, max_m))
    lv = st.integers(0, n_levels - 1)
    ops = []
    for l in range(n_levels):
        k = draw(st.integers(0, max_batch)) if n_levels < 8 or l in (0, 2, n_levels - 1) else 0
        if k:
            ops.append(["sched", l, k])

    def op(k):
        if k == "sched":
            return st.tuples(st.just("sched"), lv, st.integers(0, max_batch)).map(list)
        if k == "save":
            item = st.tuples(lv, st.integers(0, max_batch), st.integers(0, 3)).map(list)
            return st.tuples(st.just("save"), st.lists(item, max_size=min(n_levels, 4), unique_by=lambda t: t[0]),
                             st.integers(0, 1)).map(list)
        if k == "ops":
            return st.tuples(st.just("ops"), lv, st.integers(1, 64).map(lambda t: t / 16.0), st.integers(0, 5)).map(list)
        return st.just([k])

    if n_levels >= 8 and draw(st.booleans()):         # results on every level
        ops += [["sched", l, 2] for l in range(n_levels)]
        ops += [["save", [[l, 1 + l % 2, 0] for l in range(n_levels)][::draw(st.sampled_from([1, -1]))], 0]]
    ops += draw(st.lists(st.one_of([op(k) for k in ops_kinds]), min_size=max_ops // 3, max_size=max_ops))
    return dict(n_levels=n_levels, m=m, ops=ops, special=draw(special_floats), ids=draw(st.sampled_from(["tag", "tag", "wide", "long", "short"])),
                params=draw(st.sampled_from(["list", "scalars"])))


HUGE = [255, 256, 257, 511, 512, 513, 1000, 1001, 1023, 1024, 1025, 2047, 2049, 3000, 4095, 4097]


@st.composite
def huge_history(draw, kinds):
    """Batches of hundreds to thousands of samples, sizes around powers of two and ten."""
    L = draw(st.integers(1, 2))
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        l, good, bad = draw(st.integers(0, L - 1)), draw(st.sampled_from(HUGE)), draw(st.sampled_from([0, 1, 101, 257, 1025]))
        ops.append(["sched", l, good + bad + draw(st.integers(0, 2))])
        ops.append(["save", [[l, good, bad]], draw(st.integers(0, 1))])
        k = draw(st.sampled_from(kinds))
        if k:
            ops.append([k])
    return dict(n_levels=L, m=draw(st.integers(1, 2)), ops=ops, special=draw(special_floats), ids=draw(st.sampled_from(["tag", "long"])), params="list")


def fix_special(case):
    # JSON round trip of nan/inf works with python's json
    return [(p, v) for p, v in case["special"]]


def apply_op(storage, model, op, special, errs=("boom",)):
    kind = op[0]
    if kind == "sched":
        ids = model.schedule(op[1], op[2])
        storage.save_scheduled_samples(op[1], ids)
    elif kind == "save":
        ok, bad = {}, {}
        for l, n_ok, n_bad in op[1]:
            # take from alternating ends so that completion order differs from scheduling order
            good, wrong = [], []
            for i in range(n_ok):
                if model.pending[l]:
                    sid = model.pending[l].pop(0 if (i + op[2]) % 2 == 0 else -1)
                    f, c = model.values(special, l == 0)
                    good.append((sid, (f, c)))
            for i in range(n_bad):
                if model.pending[l]:
                    sid = model.pending[l].pop(-1 if (i + op[2]) % 2 == 0 else 0)
                    wrong.append((sid, errs[(i + op[2] + model.cum_failed[l] + model.uid) % len(errs)]))
            if good:
                ok[l] = [(s, (f.copy(), c.copy())) for s, (f, c) in good]
                model.ok[l] += [(s, f, c) for s, (f, c) in good]
            if wrong:
                bad[l] = list(wrong)
                model.failed[l] += [s for s, _ in wrong]
                model.cum_failed[l] += len(wrong)
        storage.save_samples(ok, bad)
    elif kind == "clear":
        if hasattr(storage, "clear_failed"):
            storage.clear_failed()
            for l in model.failed:
                model.pending[l] += model.failed[l]
                model.cleared[l] += model.failed[l]
                model.failed[l] = []
    elif kind == "ops":
        _, l, t, n = op
        storage.save_n_ops([(l, [t, n])])
        if n > 0:
            model.n_ops[l][0] += t
            model.n_ops[l][1] += n


def level_params(case):
    if case["params"] == "list":
        return [[2.0 ** -l] for l in range(case["n_levels"])]
    return [float(2.0 ** -l) for l in range(case["n_levels"])]


def expected_pairs(model, l):
    if not model.ok[l]:
        return None
    a = np.array([[f, c] for _, f, c in model.ok[l]])          # N, 2, M
    if l == 0:
        a = a[:, :1, :]
    return a.transpose((2, 0, 1))


def compare(storage, model, hdf, n_ops=False, order=True):
    L = model.n_levels
    sched = storage.load_scheduled_samples()
    for l in range(L):
        got = [str(s) for s in sched.get(l, [])]
        require(got == model.scheduled[l], "scheduled ids of level {} are {}, expected {}", l, got, model.scheduled[l])
    require(not [k for k in sched if k not in range(L) and len(sched[k])], "scheduled ids on unknown levels")
    nf = np.asarray(storage.n_finished(), dtype=float)
    exp_nf = np.array([len(model.ok[l]) + len(model.failed[l]) for l in range(L)], dtype=float)
    require(nf.shape == (L,) and np.array_equal(nf, exp_nf), "n_finished {} expected {}", nf.tolist(), exp_nf.tolist())
    nc = [int(x) for x in storage.get_n_collected()]
    exp_nc = [len(model.ok[l]) for l in range(L)]
    require(nc == exp_nc, "get_n_collected {} expected {}", nc, exp_nc)
    pairs = storage.sample_pairs()
    require(len(pairs) == L, "sample_pairs has {} levels, expected {}", len(pairs), L)
    for l in range(L):
        exp = expected_pairs(model, l)
        if exp is None:
            require(np.asarray(pairs[l]).size == 0, "sample_pairs of the empty level {} is {}", l, pairs[l])
        else:
            require(same(pairs[l], exp), "sample_pairs of level {}: got {} expected {}", l, np.asarray(pairs[l]).tolist(),
                    exp.tolist())
            got = [storage.sample_pairs_level(c) for c in storage.chunks(level_id=l)]
            require(same(np.concatenate(got, axis=1), exp), "chunks of level {} do not give the stored pairs", l)
            k = 1 + len(model.ok[l]) // 2
            c = next(storage.chunks(level_id=l, n_samples=k))
            require(same(storage.sample_pairs_level(c), exp[:, :k]), "first {} samples of level {} differ", k, l)
    if all(model.ok[l] for l in range(L)):
        require(sorted(int(i) for i in storage.get_level_ids()) == list(range(L)), "get_level_ids {}", storage.get_level_ids())
        require(storage.get_n_levels() == L, "get_n_levels {}", storage.get_n_levels())
        seen = {}
        for c in storage.chunks():
            seen.setdefault(int(c.level_id), []).append(storage.sample_pairs_level(c))
        for l in range(L):
            require(l in seen and same(np.concatenate(seen[l], axis=1), expected_pairs(model, l)),
                    "chunks over all levels do not give the stored pairs of level {}", l)
    if hdf:
        failed = {int(k): sorted(v) for k, v in storage.failed_samples().items()}
        require({k: v for k, v in failed.items() if v} == {k: sorted(v) for k, v in model.failed.items() if v},
                "failed_samples {} expected {}", failed, model.failed)
        unf = sorted(str(s) for s in storage.unfinished_ids())
        exp = sorted(s for l in range(L) for s in model.pending[l])
        require(unf == exp, "unfinished_ids {} expected {}", unf, exp)
    if n_ops:
        got = [float(x) for x in storage.get_n_ops()]
        exp = [model.n_ops[l][0] / model.n_ops[l][1] if model.n_ops[l][1] else 0.0 for l in range(L)]
        require(len(got) == L and np.allclose(got, exp, rtol=1e-12, atol=0), "get_n_ops {} expected {}", got, exp)


def classify(model, case):
    labels = []
    tot = sum(len(v) for v in model.ok.values())
    fail = sum(model.cum_failed.values())
    if tot and fail:
        labels.append("ok+failed")
    if any(not model.ok[l] for l in model.ok) and tot:
        labels.append("some level empty")
    if any(o[0] == "reopen" for o in case["ops"]):
        labels.append("reopen")
    if any(model.cleared.values()):
        labels.append("cleared")
    if any(v != v for _, v in case["special"]):
        labels.append("nan")
    return labels, tot, fail
