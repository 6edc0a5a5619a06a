import os, runpy
PB = "mlmc/sampling_pool_pbs.py"
PJ = "mlmc/tool/pbs_job.py"
Q = "mlmc/quantity/quantity.py"
QE = "mlmc/quantity/quantity_estimate.py"
QT = "mlmc/quantity/quantity_types.py"
H = "mlmc/tool/hdf5.py"
PRE = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "a_core.py"))["PRE"]

PBS = PRE + '''
import re
from mlmc.sampling_pool_pbs import SamplingPoolPBS
from mlmc.tool.pbs_job import PbsJob

QSUB = """#!/bin/bash
if [ -f %(d)s/busy ]; then echo busy >&2; exit 1; fi
N=$(ls %(d)s/q_* 2>/dev/null | wc -l); touch %(d)s/q_$N; echo Q > %(d)s/st_$((100+N)); echo "$((100+N)) $1" >> %(d)s/subm
echo $((100+N)).srv
"""
QSTAT = """#!/bin/bash
shift
for i in "$@"; do echo "$i.srv name user 00:00:01 $(cat %(d)s/st_$i) q"; done
"""


class PSim(Sim):
    kill = set()

    @staticmethod
    def calculate(config, seed):
        if int(seed) in PSim.kill:
            raise KeyboardInterrupt()
        return Sim.calculate(config, seed)


def lsim(level, task=2):
    s = PSim().level_instance([2.0 ** -level], [2.0 ** (1 - level) if level else 0])
    s._calculate, s._result_format, s._level_id, s.task_size = PSim.calculate, PSim.result_format, level, task
    return s


def batch():
    b = os.path.join(TMP, "bin")
    os.mkdir(b)
    for n, t in (("qsub", QSUB), ("qstat", QSTAT)):
        open(os.path.join(b, n), "w").write(t % dict(d=TMP))
        os.chmod(os.path.join(b, n), 0o755)
    os.environ["PATH"] = b + ":" + os.environ["PATH"]


def make(debug=False):
    pool = SamplingPoolPBS(work_dir=os.path.join(TMP, "w"), debug=debug)
    pool.pbs_common_setting(n_cores=1, n_nodes=1, select_flags=[], mem="1gb", queue="q", pbs_name="n", walltime="1",
                            optional_pbs_requests=[], env_setting=[])
    return pool


def jobs():
    p = os.path.join(TMP, "subm")
    return [l.split() for l in open(p)] if os.path.exists(p) else []


def finish(i, run=True):
    pid, script = jobs()[i]
    if run:
        args = re.findall(r"pbs_job (\\S+) (\\S+)", open(script).read())[0]
        sys.argv = ["x", *args]
        try:
            PbsJob.create_process().calculate_samples()
        except KeyboardInterrupt:
            pass
        os.chdir(START)
    open(os.path.join(TMP, "st_" + pid), "w").write("F")


def ids(part):
    return sorted(i for lst in part.values() for i, _ in lst)

'''

QPRE = PRE + '''
from mlmc.quantity.quantity import Quantity, make_root_quantity
from mlmc.quantity.quantity_estimate import estimate_mean, moments, moment, covariance
import mlmc.moments
from mlmc.quantity.quantity_spec import ChunkSpec


def filled(levels, fmt, storage=None):
    """levels: list of arrays [N, 2, M]"""
    s = storage or Memory()
    s.save_global_data(level_parameters=[[1.0 / (i + 1)] for i in range(len(levels))], result_format=fmt)
    add(s, levels)
    return s


def add(s, levels):
    s.save_samples({l: [("L%02d_S%07d" % (l, i), (np.array(x[0], dtype=float), np.array(x[1], dtype=float))) for i, x in enumerate(a)]
                    for l, a in enumerate(levels) if len(a)}, {})


def fmt(name="q", shape=(1, 1), times=(0,), locations=("a",)):
    return QuantitySpec(name=name, unit="m", shape=shape, times=list(times), locations=list(locations))


def scalar(q, name="q", time=0, loc="a"):
    return q[name][time][loc][0, 0]

'''

BUGS = [
 dict(id="pbs-qsub-failure-drops", prop="C11",
      edits=[(PB, "                self._n_samples_in_job = 0\n                self._scheduled = []\n            except:\n",
              "                self._n_samples_in_job = 0\n            except:\n"),
             (PB, "                    raise Exception(process.stderr.decode(\"ascii\"))\n\n    def _create_script",
              "                    raise Exception(process.stderr.decode(\"ascii\"))\n"
              "            self._scheduled = []\n\n    def _create_script")],
      needs="a failure of the qsub command",
      breaks="samples of the job that could not be submitted are never run or reported",
      demo=PBS + '''
def main():
    batch()
    pool = make()
    open(os.path.join(TMP, "busy"), "w").close()
    pool.schedule_sample("L00_S0000000", lsim(0))
    os.remove(os.path.join(TMP, "busy"))
    pool.get_finished()
    for i in range(len(jobs())):
        finish(i)
    ok, bad, n, _ = pool.get_finished()
    assert ids(ok) == ["L00_S0000000"], (ok, bad, n)

run(main)
'''),
 dict(id="pbs-dead-job-silent", prop="C11",
      edits=[(PJ, "        # Deal with not finished (failed) samples in finished job\n"
                  "        level_id_sample_id_seed = PbsJob.get_scheduled_sample_ids(job_id, jobs_dir)\n",
              "        if not time:\n            return successful, failed, time\n\n"
              "        # Deal with not finished (failed) samples in finished job\n"
              "        level_id_sample_id_seed = PbsJob.get_scheduled_sample_ids(job_id, jobs_dir)\n")],
      needs="a job that ends before its first sample is done (deleted while queued, killed in the first sample)",
      breaks="samples of such a job are never reported",
      demo=PBS + '''
def main():
    batch()
    pool = make()
    pool.schedule_sample("L00_S0000000", lsim(0))
    finish(0, run=False)
    ok, bad, n, _ = pool.get_finished()
    assert ids(bad) == ["L00_S0000000"], (ok, bad, n)

run(main)
'''),
 dict(id="pbs-killed-other-level", prop="C11",
      edits=[(PJ, "        for level_id, sample_id, _ in level_id_sample_id_seed:\n"
                  "            successfull_ids = [success[0] for success in successful.get(level_id, [])]\n"
                  "            failed_ids = [f[0] for f in failed.get(level_id, [])]\n",
              "        for level_id in list(time):\n            time[level_id] = time[level_id][-1:]\n"
              "        for level_id, sample_id, _ in level_id_sample_id_seed:\n"
              "            if level_id not in time:\n                continue\n"
              "            successfull_ids = [success[0] for success in successful.get(level_id, [])]\n"
              "            failed_ids = [f[0] for f in failed.get(level_id, [])]\n")],
      needs="a job with samples of several levels killed before it starts the later level",
      breaks="samples of levels the killed job did not reach are never reported",
      demo=PBS + '''
def main():
    batch()
    pool = make()
    pool.schedule_sample("L01_S0000000", lsim(1, 0.6))
    pool.schedule_sample("L00_S0000000", lsim(0, 0.6))
    PSim.kill = {int(SamplingPool.compute_seed("L00_S0000000"))}
    finish(0)
    ok, bad, n, _ = pool.get_finished()
    assert ids(bad) == ["L00_S0000000", "L01_S0000000"], (ok, bad, n)

run(main)
'''),
 dict(id="pbs-renewed-old-job", prop="C12",
      edits=[(PJ, "                saved_ids = json.load(file)\n\n",
              "                saved_ids = json.load(file)\n                new_ids = {sid: jid for sid, jid in new_ids.items() if sid not in saved_ids}\n\n")],
      needs="a failed sample renewed in a second job, then an interruption and a restart of the pool",
      breaks="the restarted pool takes the result of the renewed sample from its first job",
      demo=PBS + '''
def main():
    batch()
    pool = make(True)
    Sim.fail = staticmethod(lambda c, s: True)
    pool.schedule_sample("L00_S0000000", lsim(0))
    finish(0)
    ok, bad, n, _ = pool.get_finished()
    assert ids(bad) == ["L00_S0000000"]
    Sim.fail = staticmethod(lambda c, s: False)
    pool.schedule_sample("L00_S0000000", lsim(0))
    finish(1)
    pool = make(True)
    pool.have_permanent_samples(["L00_S0000000"])
    ok, bad, n, _ = pool.get_finished()
    assert ids(ok) == ["L00_S0000000"] and not bad, (ok, bad)

run(main)
'''),
 dict(id="pbs-restart-failed-again", prop="C12",
      edits=[(PB, "                        already_collected.add(res[0])\n"
                  "                        failed_results.setdefault(level_id, []).append(res)\n",
              "                        already_collected.add(res[0])\n"
              "                    failed_results.setdefault(level_id, []).append(res)\n")],
      needs="a restart when one sample of a job is unfinished and another one of the same job is already stored as failed",
      breaks="the already collected failed sample is reported again",
      demo=PBS + '''
def main():
    batch()
    pool = make(True)
    bad_seed = int(SamplingPool.compute_seed("L00_S0000000"))
    Sim.fail = staticmethod(lambda c, s: int(s) == bad_seed)
    for i in range(2):
        pool.schedule_sample("L00_S%07d" % i, lsim(0, 0.6))
    finish(0)
    pool = make(True)
    pool.have_permanent_samples(["L00_S0000001"])
    ok, bad, n, _ = pool.get_finished()
    assert ids(ok) == ["L00_S0000001"] and not bad, (ok, bad)

run(main)
'''),
 dict(id="field-sorted-locations", prop="C13",
      edits=[(QT, "            position = list(self._dict.keys()).index(key)\n",
              "            position = sorted(self._dict.keys()).index(key)\n")],
      needs="locations that are not in alphabetical order in the result format",
      breaks="indexing a field by location gives values of another location",
      demo=QPRE + '''
def main():
    f = [fmt(locations=["z", "b"])]
    s = filled([np.array([[[1., 2.], [0., 0.]]])], f)
    q = make_root_quantity(s, f)
    assert estimate_mean(scalar(q, loc="z")).mean == 1 and estimate_mean(scalar(q, loc="b")).mean == 2

run(main)
'''),
 dict(id="interp-size-of-last", prop="C13",
      edits=[(QT, "            f = interpolate.interp1d(quantity.qtype._times, y, axis=0)\n            return f(value)\n",
              "            times = np.asarray(quantity.qtype._times, dtype=float)\n"
              "            pos = (value - times[0]) / (times[-1] - times[0]) * (len(times) - 1)\n"
              "            i = min(int(pos), len(times) - 2)\n"
              "            return y[i] + (pos - i) * (y[i + 1] - y[i])\n")],
      needs="times that are not equidistant",
      breaks="interpolation in time between not equidistant times is wrong",
      demo=QPRE + '''
def main():
    f = [fmt(times=[0., 1., 10.])]
    s = filled([np.array([[[1., 2., 20.], [0., 0., 0.]]])], f)
    q = make_root_quantity(s, f)
    v = estimate_mean(q["q"].time_interpolation(5.5)["a"][0, 0]).mean
    assert abs(v - 11) < 1e-9, v

run(main)
'''),
 dict(id="mod-in-place", prop="C14",
      edits=[(Q, "        return x % y\n",
              "        if isinstance(x, np.ndarray) and x.shape == np.broadcast(x, y).shape and x.dtype.kind == 'f':\n"
              "            return np.mod(x, y, out=x)\n        return x % y\n")],
      needs="an expression in which the left operand of % is used again",
      breaks="evaluating % changes the samples of its operand",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[7.], [0.]], [[9.], [0.]]])], f)
    q = scalar(make_root_quantity(s, f))
    v = estimate_mean(q % 5 + q).mean
    assert v == 8 + 3, v
    assert np.array_equal(s.sample_pairs()[0][0, :, 0], [7, 9])

run(main)
'''),
 dict(id="rsub-by-negation", prop="C14",
      edits=[(Q, "        return Quantity.create_quantity([Quantity.wrap(other), self], Quantity.truediv_op)\n",
              "        return Quantity.create_quantity([self, Quantity.wrap(other)], lambda x, y: y * x ** -1.0)\n")] if False else
            [(Q, "    def __rmod__(self, other):\n        return Quantity.create_quantity([Quantity.wrap(other), self], Quantity.mod_op)\n",
              "    def __rmod__(self, other):\n        return Quantity.create_quantity([Quantity.wrap(other), self], np.fmod)\n")],
      needs="a number on the left of % and operands of different sign",
      breaks="a number modulo a quantity differs from the result on the samples",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[-5.], [0.]], [[-4.], [0.]]])], f)
    q = scalar(make_root_quantity(s, f))
    v = estimate_mean(7 % q).mean
    assert v == np.mean([7 % -5., 7 % -4.]), v

run(main)
'''),
 dict(id="select-drops-middle", prop="C15",
      edits=[(Q, "            for m in args[1:]:\n                masks = np.logical_and(masks, m)  # method from this module\n",
              "            for m in args[1:]:\n                masks = np.logical_and(args[0], m)  # method from this module\n")],
      needs="selection by three or more conditions",
      breaks="all but the first and the last condition are ignored",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[float(i)], [0.]] for i in range(10)])], f)
    q = scalar(make_root_quantity(s, f))
    v = estimate_mean(q.select(q > 1, q < 6, q != 3)).mean
    assert v == np.mean([2, 4, 5]), v

run(main)
'''),
 dict(id="select-fine-only", prop="C15",
      edits=[(Q, "        return mask.all(axis=tuple(range(mask.ndim - 2))).all(axis=1)\n",
              "        return mask.all(axis=tuple(range(mask.ndim - 2)))[:, 0]\n")],
      needs="a sample on level 1 or higher whose coarse part alone does not meet the condition",
      breaks="samples whose coarse part does not meet the condition are kept",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[1.], [0.]], [[2.], [0.]]]), np.array([[[1.], [9.]], [[1.], [2.]]])], f)
    q = scalar(make_root_quantity(s, f))
    e = estimate_mean(q.select(q < 5))
    assert list(e.n_samples) == [2, 1], e.n_samples

run(main)
'''),
 dict(id="nan-chunk-stops", prop="C16",
      edits=[(QE, "        if chunk.shape[1] == 0:\n            continue\n", "        if chunk.shape[1] == 0:\n            break\n")],
      needs="a chunk of a level in which all samples have NaN, followed by other chunks or levels",
      breaks="samples after that chunk are left out of the estimate",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[1.], [0.]], [[2.], [0.]]]), np.array([[[np.nan], [2.]], [[3.], [np.nan]]]),
                np.array([[[5.], [2.]], [[6.], [2.]]])], f)
    q = scalar(make_root_quantity(s, f))
    e = estimate_mean(q)
    assert list(e.n_samples) == [2, 0, 2] and e.l_means[2] == 3.5, (e.n_samples, e.l_means)

run(main)
'''),
 dict(id="nan-fine-only", prop="C16",
      edits=[(QE, "    mask = np.any(np.isnan(chunk), axis=0).any(axis=1)\n",
              "    mask = np.isnan(chunk[:, :, 0]).any(axis=0) | np.isnan(chunk[0, :, -1])\n")],
      needs="a vector quantity with NaN in the coarse part of other than the first component",
      breaks="such samples are used and the estimate is NaN",
      demo=QPRE + '''
def main():
    f = [fmt(shape=(2, 1))]
    s = filled([np.array([[[1., 2.], [0., 0.]], [[2., 4.], [0., 0.]]]),
                np.array([[[1., 2.], [3., np.nan]], [[2., 4.], [1., 1.]], [[2., 5.], [1., 1.]]])], f)
    e = estimate_mean(make_root_quantity(s, f)["q"][0]["a"])
    assert list(e.n_rm_samples) == [0, 1] and np.all(np.isfinite(e.mean)), e.mean

run(main)
'''),
 dict(id="cov-coarse-mixed", prop="C17",
      edits=[(QE, "            cov_coarse = np.einsum('...i,...j', mom_coarse, mom_coarse)\n",
              "            cov_coarse = np.einsum('...i,...j', mom_coarse, mom_fine if cov_at_bottom and len(x) > 2 else mom_coarse)\n")],
      needs="covariance of a quantity with three or more components on more than one level",
      breaks="the coarse part of the covariance is wrong",
      demo=QPRE + '''
def main():
    f = [fmt(shape=(3, 1))]
    rng = np.random.RandomState(0)
    a, b = rng.rand(4, 2, 3), rng.rand(5, 2, 3)
    q = make_root_quantity(filled([a, b], f), f)["q"][0]["a"]
    m = mlmc.moments.Monomial(2, (0, 1))
    c = estimate_mean(covariance(q, m)).mean
    for k in range(3):
        ref = np.mean(a[:, 0, k]) + np.mean(b[:, 0, k] - b[:, 1, k])
        ref2 = np.mean(a[:, 0, k] ** 2) + np.mean(b[:, 0, k] ** 2 - b[:, 1, k] ** 2)
        assert np.allclose(np.ravel(c).reshape(3, 2, 2)[k], [[1, ref], [ref, ref2]])

run(main)
'''),
 dict(id="mean-var-cached-shape", prop="C17",
      edits=[(Q, "        self._mean = np.sum(self._l_means, axis=0)\n        self._var = np.sum(self._l_vars / self._n_samples[:, None], axis=0)\n",
              "        self._mean = np.sum(self._l_means, axis=0)\n"
              "        self._var = np.sum(self._l_vars[self._n_samples > 1] / self._n_samples[self._n_samples > 1, None], axis=0)\n")],
      needs="an estimate with a level having one usable sample",
      breaks="the variance of the estimate is finite although a level has a single sample",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[1.], [0.]], [[2.], [0.]]]), np.array([[[5.], [2.]]])], f)
    e = estimate_mean(scalar(make_root_quantity(s, f)))
    assert np.isinf(e.var), e.var

run(main)
'''),
 dict(id="cached-item-count", prop="C18",
      edits=[(H, "            dataset = hdf_file[\"/\".join([self.level_group_path, \"collected_values\"])]\n"
                 "            collected_n_items = len(dataset[()])\n        return collected_n_items\n",
              "            dataset = hdf_file[\"/\".join([self.level_group_path, \"collected_values\"])]\n"
              "            if self._n_items_in_chunk is None or self._n_items_in_chunk < dataset.chunks[0]:\n"
              "                self._n_items_in_chunk = len(dataset[()])\n        return self._n_items_in_chunk\n")],
      needs="more samples on a level than one storage chunk holds and reading before and after adding",
      breaks="samples added later are not read",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    filled([np.zeros((3000, 2, 1))], f, s)
    assert s.get_n_collected() == [3000]
    add(s, [np.ones((1000, 2, 1))])
    assert list(s.get_n_collected()) == [4000], s.get_n_collected()
    assert s.sample_pairs()[0].shape[1] == 4000

run(main)
'''),
 dict(id="cache-key-size", prop="C18",
      edits=[(Q, "            chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start\n",
              "            chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start if chunk_spec.chunk_id else None\n")],
      needs="reading samples of a quantity, then of the same quantity with another number of samples in the first chunk",
      breaks="a read returns the samples of an earlier read",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[float(i)], [0.]] for i in range(6)])], f)
    q = scalar(make_root_quantity(s, f)) * 2
    a = q.samples(next(s.chunks(level_id=0, n_samples=2)))
    b = q.samples(next(s.chunks(level_id=0, n_samples=5)))
    assert a.shape[1] == 2 and b.shape[1] == 5, (a.shape, b.shape)

run(main)
'''),
 dict(id="const-cache-kept", prop="C19",
      edits=[(QE, "    mlmc.quantity.quantity.QuantityConst.samples.cache_clear()\n", "")],
      needs="estimating a subsampled quantity twice (or constants in several estimates with level dependent values)",
      breaks="the second estimate does not draw the requested numbers of samples",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    filled([np.random.RandomState(0).rand(3000, 2, 1)], f, s)
    q = scalar(make_root_quantity(s, f)).subsample([40])
    for i in range(4):
        e = estimate_mean(q)
        assert list(e.n_samples) == [40], e.n_samples

run(main)
'''),
 dict(id="subsample-fixed-hyper", prop="C19",
      edits=[(Q, "        out = RNG.choice(chunk, size=size, axis=1)\n",
              "        out = RNG.choice(chunk[:, :max(int(size[0]), 64)], size=size, axis=1)\n")],
      needs="a level with more samples than requested and more than 64",
      breaks="samples at the end of a chunk are never drawn",
      demo=QPRE + '''
def main():
    f = [fmt()]
    s = filled([np.array([[[float(i)], [0.]] for i in range(200)])], f)
    q = scalar(make_root_quantity(s, f))
    seen = max(estimate_mean(q.subsample([50])).mean for i in range(30))
    assert seen > 60, seen

run(main)
'''),
]
