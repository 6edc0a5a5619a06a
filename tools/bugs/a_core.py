S = "mlmc/sampler.py"
P = "mlmc/sampling_pool.py"
H = "mlmc/tool/hdf5.py"
SH = "mlmc/sample_storage_hdf.py"
M = "mlmc/sample_storage.py"
PB = "mlmc/sampling_pool_pbs.py"
PJ = "mlmc/tool/pbs_job.py"

PRE = '''
import os, sys, shutil, tempfile, warnings
warnings.simplefilter("ignore")
import numpy as np
from mlmc.sample_storage import Memory
from mlmc.sample_storage_hdf import SampleStorageHDF
from mlmc.sampling_pool import SamplingPool, OneProcessPool, ProcessPool, ThreadPool
from mlmc.sampler import Sampler
from mlmc.level_simulation import LevelSimulation
from mlmc.sim.simulation import Simulation
from mlmc.quantity.quantity_spec import QuantitySpec

TMP = tempfile.mkdtemp()
START = os.getcwd()
FMT = [QuantitySpec(name="q", unit="m", shape=(1, 1), times=[0], locations=["a"])]


def store(n_levels, fmt=FMT, name="s.hdf5"):
    s = SampleStorageHDF(os.path.join(TMP, name))
    s.save_global_data(level_parameters=[[1.0 / (i + 1)] for i in range(n_levels)], result_format=fmt)
    return s


class Sim(Simulation):
    fail = staticmethod(lambda level, seed: False)
    workspace = False

    def __init__(self):
        super(Simulation, self).__init__()

    def level_instance(self, fine, coarse):
        return LevelSimulation(config_dict=dict(fine=fine[0], coarse=coarse[0]), task_size=0.4,
                               need_sample_workspace=self.workspace)

    @staticmethod
    def calculate(config, seed):
        if Sim.fail(config, seed):
            raise ValueError("failed")
        return np.array([float(seed)]), np.array([config["coarse"]])

    @staticmethod
    def result_format():
        return FMT


def run(main):
    try:
        main()
    finally:
        os.chdir(START)
        shutil.rmtree(TMP, ignore_errors=True)
    print("ok")

'''

BUGS = [
 dict(id="unfinished-by-count", prop="C01",
      edits=[(H, "        return list(set(scheduled_ids) - set(self.get_finished_ids()))\n",
              "        # Keep the order of scheduling\n        return scheduled_ids[len(self.get_finished_ids()):]\n")],
      needs="samples of one level finishing in a different order than they were scheduled, then asking for unfinished ids",
      breaks="the HDF5 storage reports finished samples as unfinished and forgets really unfinished ones",
      demo=PRE + '''
def main():
    s = store(1)
    ids = ["L00_S%07d" % i for i in range(4)]
    s.save_scheduled_samples(0, ids)
    s.save_samples({0: [(ids[3], (np.array([1.]), np.array([0.])))]}, {0: [(ids[1], "err")]})
    assert sorted(s.unfinished_ids()) == [ids[0], ids[2]], s.unfinished_ids()

run(main)
'''),
 dict(id="memory-merge-ids", prop="C01",
      edits=[(M, "            self._failed.setdefault(level_id, []).extend(res)\n",
              "            known = {sample_id for sample_id, _ in self._failed.setdefault(level_id, [])}\n"
              "            res = [item for item in res if item[1] and item[0] not in known]\n"
              "            self._failed[level_id].extend(res)\n")],
      needs="a failed sample with an empty error message",
      breaks="the in-memory storage does not count failed samples without a message as finished",
      demo=PRE + '''
def main():
    s = Memory()
    s.save_global_data(FMT, [[1.0]])
    s.save_scheduled_samples(0, ["L00_S0000000", "L00_S0000001"])
    s.save_samples({}, {0: [("L00_S0000000", ""), ("L00_S0000001", "e")]})
    assert list(s.n_finished()) == [2], s.n_finished()

run(main)
'''),
 dict(id="reopen-levels-sorted", prop="C02",
      edits=[(SH, "                for i_level in range(len(self._hdf_object.level_parameters)):\n"
                  "                    self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))\n\n"
                  "    def _hdf",
              "                for level_id in sorted(map(str, range(len(self._hdf_object.level_parameters)))):\n"
              "                    self._level_groups.append(self._hdf_object.add_level_group(level_id))\n\n"
              "    def _hdf")],
      needs="a file with more than ten levels, reopened and written or read by level",
      breaks="after reopening, levels 2.. of a storage with eleven or more levels are those of other ids",
      demo=PRE + '''
def main():
    s = store(12)
    s.save_samples({2: [("L02_S0000000", (np.array([5.]), np.array([4.])))]}, {})
    before = s.get_n_collected()
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    assert list(s.get_n_collected()) == list(before)
    s.save_samples({2: [("L02_S0000001", (np.array([6.]), np.array([4.])))]}, {})
    assert list(s.get_n_collected())[2] == 2, s.get_n_collected()
    assert np.allclose(s.sample_pairs()[2][0, :, 0], [5, 6])

run(main)
'''),
 dict(id="reopen-nops-lost", prop="C02",
      edits=[(SH, "        # Create file structure\n        self._hdf_object.create_file_structure(level_parameters)\n",
              "        # Create file structure\n        if len(self._hdf_object.load_level_parameters()) != len(level_parameters):\n"
              "            self._hdf_object.create_file_structure(level_parameters)\n")] if False else
            [(H, "            if 'n_ops_estimate' not in hdf_file[self.level_group_path].attrs:\n"
                 "                hdf_file[self.level_group_path].attrs['n_ops_estimate'] = [0., 0.]\n"
                 "            hdf_file[self.level_group_path].attrs['n_ops_estimate'] = n_ops_estimate\n",
              "            hdf_file[self.level_group_path].attrs['n_ops_estimate'] = \\\n"
              "                np.asarray(n_ops_estimate, dtype=np.float32)\n")],
      needs="many polls with small times after a large total, the stored total is rounded to single precision",
      breaks="cost per sample kept in the file differs from total time over number of samples",
      demo=PRE + '''
def main():
    s = store(1)
    s.save_n_ops([(0, [1e5, 1])])
    for i in range(200):
        s.save_n_ops([(0, [1e-3, 1])])
    assert abs(s.get_n_ops()[0] * 201 - 100000.2) < 1e-6, s.get_n_ops()

run(main)
'''),
 dict(id="store-only-with-success", prop="C03",
      edits=[(S, "        self.sample_storage.save_samples(successful_samples, failed_samples)\n"
                 "        self.sample_storage.save_n_ops(n_ops)\n",
              "        if successful_samples:\n"
              "            self.sample_storage.save_samples(successful_samples, failed_samples)\n"
              "            self.sample_storage.save_n_ops(n_ops)\n")],
      needs="a poll in which only failed samples are handed out",
      breaks="failed samples are lost, they are neither collected nor failed",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    Sim.fail = staticmethod(lambda config, seed: config["fine"] == 1.0)
    sampler.set_initial_n_samples([3, 3])
    sampler.set_level_target_n_samples([3, 0])
    sampler._n_target_samples = np.array([3, 0])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    assert s.unfinished_ids() == [], s.unfinished_ids()
    assert len(s.failed_samples()["0"]) == 3

run(main)
'''),
 dict(id="target-lowered", prop="C03",
      edits=[(S, "            self._n_target_samples[level] = max(self._n_target_samples[level], n)\n",
              "            self._n_target_samples[level] = max(self._n_scheduled_samples[level], n)\n")],
      needs="two settings of targets before scheduling, the second one lower",
      breaks="fewer samples than the largest target are created",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5], [0.2]])
    sampler.set_initial_n_samples([5, 4, 3])
    sampler.set_level_target_n_samples([2, 6, 1])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    assert list(s.get_n_collected()) == [5, 6, 3], s.get_n_collected()

run(main)
'''),
 dict(id="adding-rounds", prop="C04",
      edits=[(S, "        n_scheduled = np.ceil(np.where(n_estimated < n_scheduled,\n",
              "        n_scheduled = np.rint(np.where(n_estimated < n_scheduled,\n")],
      needs="a small estimated number with a small fraction, so that the step is below one half",
      breaks="repeating the call never reaches the estimate",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    sampler.set_initial_n_samples([2, 2])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    est = np.array([6., 5.])
    for i in range(60):
        if sampler.process_adding_samples(est, 0, 0.1):
            break
    assert list(sampler.l_scheduled_samples()) == [6, 5], sampler.l_scheduled_samples()

run(main)
'''),
 dict(id="adding-done-early", prop="C04",
      edits=[(S, "        return np.all(n_estimated[greater_items] == n_scheduled[greater_items])\n",
              "        return np.allclose(n_estimated[greater_items], n_scheduled[greater_items], rtol=1e-2)\n")],
      needs="estimates of more than a hundred samples of a level and a fraction below one percent",
      breaks="process_adding_samples reports that adding is complete while a level is below its estimate",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    sampler.set_initial_n_samples([10, 2])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    est = np.array([10., 300.])
    assert not sampler.process_adding_samples(est, 0, 0.005)
    for i in range(2000):
        if sampler.process_adding_samples(est, 0, 0.005):
            break
    assert list(sampler.l_scheduled_samples()) == [10, 300], sampler.l_scheduled_samples()

run(main)
'''),
 dict(id="restart-counts-finished", prop="C05",
      edits=[(S, "        self._n_scheduled_samples = [len(level_scheduled) for level_id, level_scheduled in\n"
                 "                                     sample_storage.load_scheduled_samples().items()]\n",
              "        self._n_scheduled_samples = list(sample_storage.n_finished())\n")],
      needs="a restart after an interruption that left scheduled samples unfinished",
      breaks="the restarted sampler creates ids that were used before",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    sampler._n_target_samples = np.array([4, 3])
    sampler.schedule_samples(timeout=-1)            # interrupted before collecting
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    sampler._n_target_samples = np.array([6, 3])
    sampler.schedule_samples()
    ids = sum(s.load_scheduled_samples().values(), [])
    assert len(ids) == len(set(ids)) == 9, ids

run(main)
'''),
 dict(id="renew-clears-after-collect", prop="C05",
      edits=[(S, "                self._sampling_pool.schedule_sample(sample_id, level_sim)\n"
                 "                samples.append(sample_id)\n\n        self.sample_storage.clear_failed()\n",
              "                self._sampling_pool.schedule_sample(sample_id, level_sim)\n"
              "                samples.append(sample_id)\n"
              "            self.ask_sampling_pool_for_samples(timeout=1e-9)\n\n"
              "        self.sample_storage.clear_failed()\n")],
      needs="a renewed sample that fails again before the record of failed samples is cleared",
      breaks="samples failing again during renewing are forgotten",
      demo=PRE + '''
def main():
    s = SampleStorageHDF(os.path.join(TMP, "s.hdf5"))
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [0.5]])
    Sim.fail = staticmethod(lambda config, seed: config["fine"] == 1.0)
    sampler._n_target_samples = np.array([4, 3])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    sampler.renew_failed_samples()
    sampler.ask_sampling_pool_for_samples()
    assert len(s.failed_samples()["0"]) == 4, s.failed_samples()
    assert s.unfinished_ids() == []

run(main)
'''),
 dict(id="running-counted-at-end", prop="C06",
      edits=[(P, "            self._n_running -= len(results[level_id])\n\n", ""),
             (P, "        # Save running time for n_ops\n        self._save_running_time(level_sim._level_id, running_time)\n",
              "        self._n_running -= 1\n        # Save running time for n_ops\n"
              "        self._save_running_time(level_sim._level_id, running_time)\n")],
      needs="a poll between the decrement of the counter and the insertion of the last finished sample to its queue",
      breaks="the pool reports nothing running although a sample was not delivered yet",
      demo=PRE + '''
import threading
def main():
    gate, inside = threading.Event(), threading.Event()
    pool = OneProcessPool()
    orig = SamplingPool.move_failed_rm
    sim = LevelSimulation(config_dict={}, calculate=None, level_id=0, result_format=lambda: FMT)
    # the callback of a worker is held between its steps
    save = pool._save_running_time
    def slow(*a):
        inside.set(); gate.wait(5)
        return save(*a)
    pool._save_running_time = slow
    pool._n_running += 1
    t = threading.Thread(target=pool._process_result, args=("L00_S0000000", (np.ones(1), np.ones(1)), "", 0.1, sim))
    t.start(); inside.wait(5)
    ok, fail, n, _ = pool.get_finished()
    gate.set(); t.join()
    assert n == 1 and not ok, (n, ok)
    ok, fail, n, _ = pool.get_finished()
    assert n == 0 and len(ok[0]) == 1

run(main)
'''),
 dict(id="poll-drops-queues", prop="C06",
      edits=[(P, "        failed = self._queues_to_list(list(self._failed_queues.items()))\n",
              "        failed = self._queues_to_list(list(self._failed_queues.items()))\n"
              "        self._queues, self._failed_queues = {}, {}\n")],
      needs="a sample put to its queue after the queue was read and before the queues are replaced",
      breaks="that sample is lost and the pool waits for it forever",
      demo=PRE + '''
import threading
def main():
    # a sample finishes in another thread while the failed ones are read
    sim = LevelSimulation(config_dict={}, level_id=0, result_format=lambda: FMT)
    pool = OneProcessPool()
    pool._n_running = 2
    pool._process_result("L00_S0000000", (None, None), "error", 0, sim)
    orig = pool._queues_to_list
    calls = []
    def reading(*a):
        out = orig(*a)
        if not calls:
            t = threading.Thread(target=pool._process_result, args=("L00_S0000001", (np.ones(1), np.ones(1)), "", 0.1, sim))
            t.start(); t.join()
        calls.append(1)
        return out
    pool._queues_to_list = reading
    got = []
    for _ in range(3):
        ok, bad, n, _ = pool.get_finished()
        got += [i for part in (ok, bad) for lst in part.values() for i, _ in lst]
    assert sorted(got) == ["L00_S0000000", "L00_S0000001"] and n == 0, (got, n)

run(main)
'''),
 dict(id="coarse-params-second-level", prop="C07",
      edits=[(S, "                level_sim = sim_factory.level_instance(level_parameters[level_id], level_parameters[level_id - 1])\n",
              "                level_sim = sim_factory.level_instance(level_parameters[level_id],\n"
              "                                                       max([p for p in level_parameters if p < level_parameters[level_id - 1]]\n"
              "                                                           or [level_parameters[level_id - 1]])\n"
              "                                                       if level_parameters[0] < level_parameters[-1] and level_id > 1\n"
              "                                                       else level_parameters[level_id - 1])\n")],
      needs="at least three levels whose parameters increase with the level (number of elements instead of step)",
      breaks="the coarse simulation of a level uses other parameters than the fine one of the previous level",
      demo=PRE + '''
def main():
    s = Memory()
    sampler = Sampler(s, OneProcessPool(), Sim(), [[1.0], [2.0], [4.0]])
    sampler._n_target_samples = np.array([1, 1, 1])
    sampler.schedule_samples()
    sampler.ask_sampling_pool_for_samples()
    assert s.sample_pairs()[2][0, 0, 1] == 2.0, s.sample_pairs()[2]

run(main)
'''),
 dict(id="coarse-length-unchecked", prop="C08",
      edits=[(P, "                assert len(flatten_fine_res) == len(flatten_coarse_res) == res_expected_len, \\\n",
              "                assert len(flatten_fine_res) == res_expected_len, \\\n")],
      needs="a simulation whose coarse result alone has a wrong length",
      breaks="a wrong result is accepted and storing of all samples of the batch breaks",
      demo=PRE + '''
def main():
    sim = LevelSimulation(config_dict={}, calculate=lambda c, s: (np.ones(1), np.ones(2)), level_id=1,
                          result_format=lambda: FMT)
    pool = OneProcessPool()
    pool.schedule_sample("L01_S0000000", sim)
    ok, failed, n, _ = pool.get_finished()
    assert not ok and len(failed[1]) == 1

run(main)
'''),
 dict(id="error-without-text", prop="C08",
      edits=[(P, "            str_list = traceback.format_exception(*sys.exc_info())\n            err_msg = \"\".join(str_list)\n",
              "            err_msg = str(sys.exc_info()[1])\n")],
      needs="a simulation raising an exception without text",
      breaks="the failed sample is reported as successful with an empty result",
      demo=PRE + '''
def main():
    def calc(c, s):
        raise RuntimeError()
    sim = LevelSimulation(config_dict={}, calculate=calc, level_id=0, result_format=lambda: FMT)
    pool = OneProcessPool()
    pool.schedule_sample("L00_S0000000", sim)
    ok, failed, n, _ = pool.get_finished()
    assert not ok and len(failed[0]) == 1 and "RuntimeError" in failed[0][0][1]

run(main)
'''),
 dict(id="keeps-every-tenth", prop="C09",
      edits=[(P, "        if int(sample_id[-7:]) < SamplingPool.N_SUCCESSFUL:\n",
              "        if int(sample_id[-1:]) < SamplingPool.N_SUCCESSFUL:\n")],
      needs="more than ten samples on a level of a simulation with workspace",
      breaks="directories of more than the first five samples are kept",
      demo=PRE + '''
def main():
    os.chdir(TMP)
    sim = LevelSimulation(config_dict=dict(coarse=0), calculate=Sim.calculate, level_id=0,
                          result_format=lambda: FMT, need_sample_workspace=True)
    pool = OneProcessPool(work_dir=TMP)
    for i in range(12):
        pool.schedule_sample("L00_S%07d" % i, sim)
    kept = sorted(os.listdir(os.path.join(TMP, "output", "several_successful")))
    assert kept == ["L00_S%07d" % i for i in range(5)], kept

run(main)
'''),
 dict(id="failed-copy-not-refreshed", prop="C09",
      edits=[(P, "            if os.path.exists(os.path.join(destination_dir, sample_id)):\n"
                 "                shutil.rmtree(os.path.join(destination_dir, sample_id), ignore_errors=True)\n"
                 "            shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id))\n",
              "            if not os.path.exists(os.path.join(destination_dir, sample_id)):\n"
              "                shutil.copytree(sample_dir, os.path.join(destination_dir, sample_id))\n")],
      needs="the same sample failing again (renewed) with other content of its directory",
      breaks="the directory of failed samples keeps the content of the older run",
      demo=PRE + '''
def main():
    os.chdir(TMP)
    n = [0]
    def calc(config, seed):
        n[0] += 1
        open("out_%d" % n[0], "w").close()
        raise ValueError("x")
    sim = LevelSimulation(config_dict={}, calculate=calc, level_id=0, result_format=lambda: FMT,
                          need_sample_workspace=True)
    pool = OneProcessPool(work_dir=TMP)
    for i in range(2):
        pool.schedule_sample("L00_S0000000", sim)
    kept = sorted(os.listdir(os.path.join(TMP, "output", "failed", "L00_S0000000")))
    assert kept == ["out_2"], kept

run(main)
'''),
 dict(id="pbs-level-times-replaced", prop="C10",
      edits=[(PB, "                    if level_id in times:\n"
                  "                        times[level_id][0] += results[-1][0]\n"
                  "                        times[level_id][1] += results[-1][1]\n"
                  "                    else:\n"
                  "                        times[level_id] = list(results[-1])\n",
              "                    times[level_id] = list(results[-1])\n")],
      needs="two PBS jobs with samples of one level finished before one poll",
      breaks="running times of all but one of the jobs are lost",
      demo=PRE + '''
import stat
from mlmc.sampling_pool_pbs import SamplingPoolPBS
def main():
    b = os.path.join(TMP, "bin"); os.mkdir(b)
    open(os.path.join(b, "qsub"), "w").write("#!/bin/bash\\nN=$(ls %s/q_* 2>/dev/null | wc -l)\\ntouch %s/q_$N\\nbash $1 >/dev/null 2>&1\\necho $((100+N)).srv\\n" % (TMP, TMP))
    open(os.path.join(b, "qstat"), "w").write("#!/bin/bash\\nshift\\nfor i in \\"$@\\"; do echo \\"$i.srv name user 00:00:01 F q\\"; done\\n")
    for f in os.listdir(b): os.chmod(os.path.join(b, f), 0o755)
    os.environ["PATH"] = b + ":" + os.environ["PATH"]
    shutil.copy(os.path.abspath(__file__), os.path.join(TMP, "demosim.py"))
    os.environ["PYTHONPATH"] = START
    from mlmc.sim.synth_simulation import SynthSimulation
    import scipy.stats as st
    sim = SynthSimulation(dict(distr=st.norm(), complexity=2, nan_fraction=0))
    pool = SamplingPoolPBS(work_dir=TMP, debug=False)
    pool.pbs_common_setting(n_cores=1, n_nodes=1, select_flags=[], mem="1gb", queue="q", pbs_name="n", walltime="1",
                            python=sys.executable, optional_pbs_requests=[], env_setting=["cd " + TMP])
    ls = sim.level_instance([0.5], [0]); ls.task_size = 2; ls._calculate = sim.calculate
    ls._result_format = sim.result_format; ls._level_id = 0
    for i in range(3):
        pool.schedule_sample("L00_S%07d" % i, ls)
    ok, failed, n, times = pool.get_finished()
    assert len(ok[0]) == 3, (ok, failed)
    assert dict(times)[0][1] == 3, times

run(main)
'''),
]
