"""Restart on an HDF5 file, interruption at any storage operation, renewing failed samples."""
import h5py
from vlib.common import *
from vlib.sims import PureSim, ManualPool, expected_pair, outcome
from mlmc.sampler import Sampler
from mlmc.sampling_pool import SamplingPool, OneProcessPool

RULE = ("A case is a sequence of runs on one HDF5 file. Each run opens the file anew (or keeps the open storage) with a new sampler, pool and failure "
        "pattern, performs generated target/schedule/poll/renew calls and is optionally interrupted before or after its "
        "k-th storage write. A ledger of the completed storage writes and of the pool's submissions is the oracle. "
        "Part torn: storage calls are ended before an opening or after a closing of the file for writing; afterwards each sample is stored "
        "with its result or not at all, and saved ones are unchanged. "
        "Non-trivial: a second run starts with stored samples, or a renewal submits at least one sample, or a call was ended inside.")
ASSUMPTIONS = ["a process dies between sessions of the HDF5 file (what the library had open is kept or dropped as a whole)"]


class Crash(BaseException):
    pass


class CrashingHDF(SampleStorageHDF):
    """The real storage; counts writes and 'loses power' at a chosen one."""
    crash_at = None
    before = False
    n_writes = 0
    ledger = None

    def _write(self, fn, record):
        self.n_writes += 1
        hit = self.crash_at is not None and self.n_writes == self.crash_at
        if hit and self.before:
            raise Crash()
        r = fn()
        record()
        if hit:
            raise Crash()
        return r

    def save_scheduled_samples(self, level_id, samples):
        samples = list(samples)
        return self._write(lambda: super(CrashingHDF, self).save_scheduled_samples(level_id, samples),
                           lambda: self.ledger["sched"][level_id].extend(samples))

    def save_samples(self, successful, failed):
        def rec():
            for l, lst in successful.items():
                for sid, (f, c) in lst:
                    self.ledger["ok"][l].append((sid, np.array(f), np.array(c)))
            for l, lst in failed.items():
                self.ledger["failed"][l].extend(sid for sid, _ in lst)
        return self._write(lambda: super(CrashingHDF, self).save_samples(successful, failed), rec)

    def clear_failed(self):
        def rec():
            for l in self.ledger["failed"]:
                self.ledger["failed"][l] = []
        return self._write(lambda: super(CrashingHDF, self).clear_failed(), rec)


@st.composite
def cases(draw, levels=(1, 3), most=7):
    L = draw(st.integers(*levels))
    op = st.one_of(
        st.tuples(st.just("target"), st.lists(st.integers(0, most), min_size=L, max_size=L)).map(list),
        st.just(["poll"]), st.just(["poll_t"]), st.just(["renew"]), st.just(["renew"]))
    run = st.fixed_dictionaries(dict(
        ops=st.lists(op, min_size=1, max_size=5),
        fail=st.one_of(st.just([]), st.lists(st.sampled_from(["ok", "raise"]), min_size=1, max_size=4)),
        plan=st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1)).map(list), max_size=4),
        crash=st.one_of(st.none(), st.none(), st.tuples(st.integers(1, 12), st.booleans()).map(list)),
        pool=st.sampled_from(["manual", "one"]), same=st.sampled_from([False, False, True])))
    first = dict(ops=[["target", draw(st.lists(st.integers(1, most), min_size=L, max_size=L))]] +
                 draw(st.lists(op, max_size=3)), fail=draw(st.lists(st.sampled_from(["ok", "raise"]), min_size=0, max_size=3)),
                 plan=draw(st.lists(st.tuples(st.integers(0, 4), st.integers(0, 1)).map(list), max_size=4)),
                 crash=draw(st.one_of(st.none(), st.tuples(st.integers(1, 12), st.booleans()).map(list))), pool="manual")
    return dict(L=L, m=draw(st.integers(1, 2)), runs=[first] + draw(st.lists(run, min_size=1, max_size=3)))


class RecordingOne(OneProcessPool):
    def __init__(self):
        super().__init__()
        self.submitted = []

    def schedule_sample(self, sample_id, level_sim):
        self.submitted.append((sample_id, level_sim._level_id))
        super().schedule_sample(sample_id, level_sim)


def compare(storage, led, L):
    sched = storage.load_scheduled_samples()
    failed = storage.failed_samples()
    pairs = storage.sample_pairs()
    nf = storage.n_finished()
    for l in range(L):
        require([str(s) for s in sched[l]] == led["sched"][l], "level {}: scheduled {} expected {}", l, sched[l], led["sched"][l])
        require(sorted(failed[str(l)]) == sorted(led["failed"][l]), "level {}: failed {} expected {}", l, failed[str(l)], led["failed"][l])
        require(nf[l] == len(led["ok"][l]) + len(led["failed"][l]), "level {}: n_finished {}", l, nf[l])
        n = len(led["ok"][l])
        if n == 0:
            require(np.asarray(pairs[l]).size == 0, "level {}: results stored that were never saved", l)
        else:
            exp = np.array([[f, c] for _, f, c in led["ok"][l]])[:, :1 if l == 0 else 2].transpose((2, 0, 1))
            require(same(pairs[l], exp), "level {}: stored results changed", l)


def run(case):
    L, m = case["L"], case["m"]
    led = {k: {l: [] for l in range(L)} for k in ("sched", "ok", "failed")}
    renewed, restarted, crashed = False, False, False
    steps = [2.0 ** -l for l in range(L)]
    # ids whose samples were lost with an interrupted pool, so they legitimately stay unfinished
    with scratch() as d:
        path = os.path.join(d, "s.hdf5")
        lost = set()
        for i_run, r in enumerate(case["runs"]):
            if i_run == 0 or not r.get("same"):
                storage = CrashingHDF(file_path=path)
            storage.ledger = led
            storage.n_writes, storage.crash_at = 0, None
            if r["crash"]:
                storage.crash_at, storage.before = r["crash"]
            pool = RecordingOne() if r["pool"] == "one" else ManualPool(r["plan"], max_polls=20000)
            if i_run:
                compare(storage, led, L)
                restarted |= any(led["ok"].values())
            stored_before = {s for l in range(L) for s in led["sched"][l]}
            sampler = Sampler(sample_storage=storage, sampling_pool=pool, sim_factory=PureSim(m, r["fail"], shift=float(10 * i_run)),
                              level_parameters=[[s] for s in steps])
            require([int(x) for x in sampler.l_scheduled_samples()] == [len(led["sched"][l]) for l in range(L)],
                    "restarted sampler counts {} scheduled, stored are {}", list(sampler.l_scheduled_samples()),
                    [len(led["sched"][l]) for l in range(L)])
            compare(storage, led, L)
            target = [0] * L
            renewals = set()
            try:
                for op in r["ops"]:
                    n0 = len(pool.submitted)
                    if op[0] == "target":
                        sampler.set_level_target_n_samples(op[1])
                        target = [max(a, b) for a, b in zip(target, op[1])]
                        before = [len(led["sched"][l]) for l in range(L)]
                        ids_before = {s for l in range(L) for s in led["sched"][l]}
                        sampler.schedule_samples(timeout=1e-9)
                        new = pool.submitted[n0:]
                        for l in range(L):
                            exp_n = max(0, target[l] - before[l])
                            got = [s for s, lev in new if lev == l]
                            require(len(got) == exp_n, "level {}: {} new samples submitted, target {} with {} stored", l,
                                    len(got), target[l], before[l])
                        require(not ({s for s, _ in new} & ids_before), "ids reused: {}", sorted({s for s, _ in new} & ids_before))
                        require(len({s for s, _ in new}) == len(new), "ids repeat in one scheduling")
                    elif op[0] == "poll":
                        require(sampler.ask_sampling_pool_for_samples() == 0, "wait returned with running samples")
                    elif op[0] == "poll_t":
                        sampler.ask_sampling_pool_for_samples(timeout=1e-9)
                    elif op[0] == "renew":
                        exp = sorted((s, l) for l in range(L) for s in led["failed"][l])
                        sampler.renew_failed_samples()
                        got = sorted(pool.submitted[n0:])
                        require(got == exp, "renewing submitted {} but failed are {}", got, exp)
                        require(all(not v for v in storage.failed_samples().values()), "failed record not cleared by renewing")
                        renewed |= bool(exp)
                    compare(storage, led, L)
                require(sampler.ask_sampling_pool_for_samples() == 0, "wait returned with running samples")
                compare(storage, led, L)
                done = True
            except Crash:
                done = False
                crashed = True
            # every id is stored at most once, in whichever role; submitted in this run and not interrupted: exactly once
            for l in range(L):
                ids = [s for s, _, _ in led["ok"][l]] + led["failed"][l]
                require(len(ids) == len(set(ids)), "level {}: an id is stored twice: {}", l, sorted(ids))
            if done:
                fin = {s for l in range(L) for s in [x[0] for x in led["ok"][l]] + led["failed"][l]}
                sub = {s for s, _ in pool.submitted}
                require(sub <= fin, "submitted samples never stored: {}", sorted(sub - fin))
                last = {}
                for s, lev in pool.submitted:
                    last[s] = lev
                for l in range(L):
                    for s, f, c in led["ok"][l]:
                        if s in last:
                            sd = SamplingPool.compute_seed(s)
                            ef, ec = expected_pair(sd, steps[l], 0 if l == 0 else steps[l - 1], m)
                            require(same(f, ef + 10.0 * i_run), "result of {} is not that of its last run", s)
                    for s in led["failed"][l]:
                        if s in last:
                            require(outcome(r["fail"], SamplingPool.compute_seed(s)) == "raise", "{} marked failed", s)
    labels = []
    if renewed:
        labels.append("renewed")
    if crashed:
        labels.append("interrupted")
    if restarted:
        labels.append("restarted with data")
    if renewed or restarted:
        labels.append("nt")
    return labels


# ---------------------------------------------------------------- interrupted inside a storage operation

class FileCrash:
    """The process dies before the k-th opening, or after the k-th closing, of the storage file for writing. (Nothing of an
    opened file is kept by a process that dies; openings within openings do not count.)"""

    def __init__(self, k, before):
        self.left, self.before, self.depth = k, before, 0

    def __enter__(self):
        self.init, self.exit = h5py.File.__init__, h5py.File.__exit__
        me = self

        def init(f, name, mode="r", *args, **kwargs):
            f.written = mode != "r"
            if f.written and me.before and me.depth == 0:
                me.tick()
            me.init(f, name, mode, *args, **kwargs)
            me.depth += 1

        def leave(f, *args):
            me.exit(f, *args)
            me.depth -= 1
            if getattr(f, "written", False) and not me.before and me.depth == 0:
                me.tick()
        h5py.File.__init__, h5py.File.__exit__ = init, leave
        return self

    def tick(self):
        self.left -= 1
        if self.left == 0:
            raise Crash()

    def __exit__(self, *args):
        h5py.File.__init__, h5py.File.__exit__ = self.init, self.exit
        return False


@st.composite
def torn_cases(draw):
    L = draw(st.integers(1, 3))
    op = st.one_of(st.tuples(st.just("sched"), st.integers(0, L - 1), st.integers(1, 4)).map(list),
                   st.tuples(st.just("save"), st.lists(st.sampled_from(["ok", "ok", "fail", "later"]), min_size=1, max_size=6)).map(list),
                   st.tuples(st.just("save"), st.lists(st.sampled_from(["ok", "ok", "fail", "later"]), min_size=1, max_size=6)).map(list),
                   st.just(["clear"]))
    crash = st.one_of(st.none(), st.tuples(st.integers(1, 6), st.booleans()).map(list))
    return dict(L=L, m=draw(st.integers(1, 3)), ops=[[["sched", draw(st.integers(0, L - 1)), draw(st.integers(1, 5))], None]] + draw(
        st.lists(st.tuples(op, crash).map(list), min_size=2, max_size=9)))


def run_torn(case):
    L, m = case["L"], case["m"]
    labels = []
    with scratch() as d:
        path = os.path.join(d, "s.hdf5")
        storage = SampleStorageHDF(file_path=path)
        storage.save_global_data(level_parameters=[[2.0 ** -l] for l in range(L)], result_format=vector_format(m))
        sched = {l: [] for l in range(L)}
        rows = {l: [] for l in range(L)}              # ids of the stored rows in their order
        failed = {l: set() for l in range(L)}

        def value(l, sid):
            k = sched[l].index(sid)
            return np.arange(m) + 100.0 * k + 10000 * l, np.arange(m) + 0.5 + 100.0 * k if l else np.zeros(m)

        def row(l, sid):
            f, c = value(l, sid)
            return np.array([f, c])[:1 if l == 0 else 2].T

        def state(s, l):
            ids = [str(x) for x in s.load_scheduled_samples()[l]]
            un = set(s.unfinished_ids()) & set(ids)
            bad = set(s.failed_samples()[str(l)])
            pairs = np.asarray(s.sample_pairs()[l]) if sum(s.get_n_collected()) else np.array([])
            n = pairs.shape[1] if pairs.size else 0
            return ids, un, bad, pairs, n

        for op, crash in case["ops"]:
            new_sched, new_ok, new_bad = {l: [] for l in range(L)}, {l: [] for l in range(L)}, {l: [] for l in range(L)}
            if op[0] == "sched":
                l = op[1]
                new_sched[l] = [sample_tag(l, len(sched[l]) + i) for i in range(op[2])]
                do = lambda: storage.save_scheduled_samples(l, new_sched[l])
            elif op[0] == "save":
                todo = [(l, s) for l in range(L) for s in sched[l] if s not in rows[l] and s not in failed[l]]
                for i, (l, s) in enumerate(todo):
                    {"ok": new_ok[l], "fail": new_bad[l], "later": []}[op[1][i % len(op[1])]].append(s)
                ok = {l: [(s, value(l, s)) for s in v] for l, v in new_ok.items() if v}
                bad = {l: [(s, "error " + s) for s in v] for l, v in new_bad.items() if v}
                do = lambda: storage.save_samples(ok, bad)
            else:
                do = storage.clear_failed
            died = False
            if crash is None:
                do()
            else:
                try:
                    with FileCrash(*crash):
                        do()
                except Crash:
                    died = True
                    labels.append("nt")
                    storage = SampleStorageHDF(file_path=path)
            for l in range(L):
                ids, un, bad, pairs, n = state(storage, l)
                full = sched[l] + new_sched[l]
                require(ids == full or died and len(ids) >= len(sched[l]) and ids == full[:len(ids)], "level {}: scheduled {} instead of {}", l, ids, full)
                sched[l] = ids
                if op[0] == "clear":
                    require(bad == set() or died and bad == failed[l], "level {}: failed {} after clearing", l, bad)
                else:
                    require(failed[l] <= bad <= failed[l] | set(new_bad[l]), "level {}: failed samples {}", l, bad)
                    require(died or bad == failed[l] | set(new_bad[l]), "level {}: failed samples {} were not stored", l, new_bad[l])
                failed[l] = bad
                done = [s for s in ids if s not in un and s not in bad]
                require(set(rows[l]) <= set(done) <= set(rows[l]) | set(new_ok[l]), "level {}: finished samples {}, stored before {}, saved {}", l, done, rows[l], new_ok[l])
                require(died or set(done) == set(rows[l]) | set(new_ok[l]), "level {}: samples {} were not stored", l, new_ok[l])
                require(n == len(done), "level {}: {} results are stored for {} finished samples {}", l, n, len(done), done)
                require(int(storage.get_n_collected()[l]) == n, "level {}: number of collected samples {}", l, storage.get_n_collected())
                rows[l] = rows[l] + [s for s in new_ok[l] if s in done]
                for k, s in enumerate(rows[l]):
                    require(same(pairs[:, k], row(l, s)), "level {}: result {} of {} instead of {}", l, pairs[:, k], s, row(l, s))
    return labels


PARTS = [Part("runs", cases(), run, quick=300, thorough=6000, shards=6),
         Part("many_levels", cases((11, 12), 2), run, quick=24, thorough=300, shards=6),
         Part("torn", torn_cases(), run_torn, quick=240, thorough=4000, shards=4)]
