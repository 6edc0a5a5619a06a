From 60d45e0bb7214d6deedb8100b55dda485e622de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:17 +0000
Subject: [PATCH 01/51] fix: Memory storage counts failed samples and levels
 without results correctly

---
 mlmc/sample_storage.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..e8c1a0e 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
@@ -215,7 +215,7 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_finished = np.zeros(self.get_n_levels())
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,7 +247,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(self.get_n_levels())]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
@@ -322,7 +322,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = [0] * self.get_n_levels()
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
@@ -332,7 +332,8 @@ class Memory(SampleStorage):
         Get number of levels
         :return: int
         """
-        return len(self._results)
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        return max([n_levels, *(int(level_id) + 1 for level_id in self._n_finished)])
 
     def get_level_parameters(self):
         return self._level_parameters
-- 
2.43.0


From cf23d2bb1b6a6abc5de9747beefb482243362205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:17 +0000
Subject: [PATCH 02/51] fix: cost per sample is total time over number of
 samples in both storages

---
 mlmc/sample_storage.py     | 14 ++++++++------
 mlmc/sample_storage_hdf.py |  5 +++--
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index e8c1a0e..c5f8d0a 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -292,19 +292,21 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0.]
 
-            if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+            if n_samples > 0:
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = list(np.zeros(self.get_n_levels()))
+        for level, (time, n_samples) in self._n_ops.items():
+            if n_samples > 0:
+                n_ops[level] = time / n_samples
         return n_ops
 
     def unfinished_ids(self):
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..a5224ca 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -243,8 +243,9 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
-                n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
+            n_ops_estimate = level.n_ops_estimate
+            if n_ops_estimate is not None and n_ops_estimate[1] > 0:
+                n_ops[int(level.level_id)] = n_ops_estimate[0] / n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
         return n_ops
-- 
2.43.0


From 8250dbd8af5baeb25860c32bbf619a58b8fb7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:16 +0000
Subject: [PATCH 03/51] fix: HDF storage reports levels without results as
 empty

---
 mlmc/estimator.py          | 6 ++----
 mlmc/sample_storage_hdf.py | 3 +++
 mlmc/tool/hdf5.py          | 2 +-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..de8814b 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -286,11 +286,9 @@ class Estimate:
             quantile = 0.01
 
         for level_id in range(sample_storage.get_n_levels()):
-            try:
-                sample_storage.get_n_collected()[level_id]
-            except AttributeError:
+            if sample_storage.get_n_collected()[level_id] == 0:
                 print("No collected values for level {}".format(level_id))
-                break
+                continue
             chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
             fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
 
diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index a5224ca..57279b7 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -157,6 +157,9 @@ class SampleStorageHDF(SampleStorage):
         levels_results = list(np.empty(len(self._level_groups)))
 
         for level in self._level_groups:
+            if level.collected_n_items() == 0:
+                levels_results[int(level.level_id)] = []
+                continue
             chunk_spec = next(self.chunks(level_id=int(level.level_id),
                                           n_samples=self.get_n_collected()[int(level.level_id)]))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From 4d2aa93b6863ccf4593518476d12941ffa0bccd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:35 +0000
Subject: [PATCH 04/51] fix: HDF storage accepts error messages with non-ASCII
 characters

---
 mlmc/tool/hdf5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 810dcae..1ad13fe 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -325,7 +325,8 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
-        self._append_dataset(self.failed_dset, failed_samples)
+        self._append_dataset(self.failed_dset, [(sample_id, str(message).encode(errors="replace"))
+                                                for sample_id, message in failed_samples])
 
     def _append_dataset(self, dataset_name, values):
         """
-- 
2.43.0


From 0361b36fb585e4942beefa597f9ca0626008e7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:04 +0000
Subject: [PATCH 05/51] fix: HDF storage keeps result formats with different
 numbers of times and locations, coordinates and three character names; a
 different order or set of locations is a different format

---
 mlmc/sample_storage_hdf.py | 32 +++++++++++++++++++-------------
 mlmc/tool/hdf5.py          |  6 +++++-
 2 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 57279b7..b436525 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -33,22 +33,22 @@ class SampleStorageHDF(SampleStorage):
                 for i_level in range(len(self._hdf_object.level_parameters)):
                     self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-    def _hdf_result_format(self, locations, times):
+    def _hdf_result_format(self, locations):
         """
         QuantitySpec data type, necessary for hdf storage
+        Number of times and locations can differ between quantities, coordinates of locations are stored flattened
         :return:
         """
-        if len(locations[0]) == 3:
-            tuple_dtype = np.dtype((np.float, (3,)))
-            loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
+        if isinstance(locations[0], str):
+            loc_dtype = hdf.vlen_dtype(np.dtype('S50'))
         else:
-            loc_dtype = np.dtype(('S50', (len(locations),)))
+            loc_dtype = hdf.vlen_dtype(np.dtype(np.float))
 
         result_dtype = {'names': ('name', 'unit', 'shape', 'times', 'locations'),
                         'formats': ('S50',
                                     'S50',
                                     np.dtype((np.int32, (2,))),
-                                    np.dtype((np.float, (len(times),))),
+                                    hdf.vlen_dtype(np.dtype(np.float)),
                                     loc_dtype
                                     )
                         }
@@ -62,7 +62,7 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
-        res_dtype = self._hdf_result_format(result_format[0].locations, result_format[0].times)
+        res_dtype = self._hdf_result_format(result_format[0].locations)
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
@@ -92,11 +92,14 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
-                raise ValueError('You are setting a new different result format for an existing sample storage')
+            stored_format = self.load_result_format()
         except AttributeError:
-            pass
-        self._hdf_object.save_result_format(result_format, res_dtype)
+            self._hdf_object.save_result_format(result_format, res_dtype)
+            return
+        same_locations = all(np.array_equal(stored.locations, new.locations)
+                             for stored, new in zip(stored_format, result_format))
+        if not same_locations or stored_format != result_format:
+            raise ValueError('You are setting a new different result format for an existing sample storage')
 
     def load_result_format(self) -> List[QuantitySpec]:
         """
@@ -105,8 +108,11 @@ class SampleStorageHDF(SampleStorage):
         results_format = self._hdf_object.load_result_format()
         quantities = []
         for res_format in results_format:
-            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+            if res_format[4].dtype.kind == 'f':
+                locations = [tuple(loc) for loc in res_format[4].reshape(-1, 3)]
+            else:
+                locations = [loc.decode() for loc in res_format[4]]
+            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3], locations)
 
             quantities.append(spec)
 
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 1ad13fe..16c23e8 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -1,5 +1,6 @@
 import numpy as np
 import h5py
+from h5py import vlen_dtype
 from mlmc.quantity.quantity_spec import ChunkSpec
 
 
@@ -152,7 +153,10 @@ class HDF5:
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
             for attribute in list(quantity_spec.__dict__.keys()):
-                if isinstance(getattr(quantity_spec, attribute), (tuple, list)):
+                base_dtype = h5py.check_vlen_dtype(result_array.dtype[attribute])
+                if base_dtype is not None:
+                    res[attribute] = np.array(getattr(quantity_spec, attribute), dtype=base_dtype).ravel()
+                elif isinstance(getattr(quantity_spec, attribute), (tuple, list)):
                     res[attribute][:] = getattr(quantity_spec, attribute)
                 else:
                     res[attribute] = getattr(quantity_spec, attribute)
-- 
2.43.0


From 8aabb814f9ffc8542a103ac24410983f411b83de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:19 +0000
Subject: [PATCH 06/51] fix: samples finished during polling of the pool are
 not lost

---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..ed01d89 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Thread safe read and clear
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From f8cd1f206cdd2f457f8675ca871d53f8c43e2434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:53 +0000
Subject: [PATCH 07/51] fix: pools report running time of each successful
 sample once

---
 mlmc/sampling_pool.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index ed01d89..7cfaea5 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -3,6 +3,7 @@ import sys
 import shutil
 import queue
 import time
+import threading
 import hashlib
 import numpy as np
 from typing import List
@@ -122,6 +123,7 @@ class SamplingPool(ABC):
         except Exception:
             str_list = traceback.format_exception(*sys.exc_info())
             err_msg = "".join(str_list)
+            running_time = 0
 
         return sample_id, res, err_msg, running_time
 
@@ -215,6 +217,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._times_lock = threading.Lock()
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -259,12 +262,13 @@ class OneProcessPool(SamplingPool):
         :return: None
         """
         # Save sample times [total time, number of samples]
-        if level_id not in self.times:
-            self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        with self._times_lock:
+            if level_id not in self.times:
+                self.times[level_id] = [0, 0]
+            # Failed samples have running time equal 0 by default
+            if running_time != 0:
+                self.times[level_id][0] += running_time
+                self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
@@ -276,7 +280,11 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        # Report each running time just once, sample storage sums them up
+        with self._times_lock:
+            times, self.times = self.times, {}
+
+        return successful, failed, self._n_running, list(times.items())
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From 3638bc5034c35f5fb84b97d0e29f43e7109fd818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:53 +0000
Subject: [PATCH 08/51] fix: failed preparation of a sample or passing of its
 result fails just that sample

---
 mlmc/sampling_pool.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 7cfaea5..1e9a60b 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -100,9 +100,9 @@ class SamplingPool(ABC):
         err_msg = ""
         running_time = 0
 
-        if level_sim.need_sample_workspace:
-            SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
         try:
+            if level_sim.need_sample_workspace:
+                SamplingPool.handle_sim_files(work_dir, sample_id, level_sim)
             start = time.time()
             res = level_sim._calculate(level_sim.config_dict, seed)
             running_time = time.time() - start
@@ -328,7 +328,8 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.res_callback((sample_id, (None, None), repr(err), 0),
+                                                                            level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From 3d5fc2e7e15e4624ea7cf30ecc0ccd274c88a044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:24 +0000
Subject: [PATCH 09/51] fix: PBS pool counts all samples of unfinished jobs and
 samples waiting for qsub as running

---
 mlmc/sampling_pool_pbs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..ea5a4e1 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
@@ -331,8 +331,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, including samples waiting for successful qsub
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From 374cce52989ffa6be2fc9ad31fc6e6aac33ddd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:36 +0000
Subject: [PATCH 10/51] fix: restarted PBS pool reports failed samples, watches
 jobs that are still alive and never reuses job ids

---
 mlmc/sampling_pool_pbs.py | 44 ++++++++++++++++++++++++++++++++-------
 mlmc/tool/pbs_job.py      |  6 ++++--
 2 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index ea5a4e1..f4d8f38 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,8 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        # glob returns files in arbitrary order
+        return max(int(re.findall(r'(\d+)_job.sh', file)[0]) for file in files) + 1
 
     def _save_structure(self):
         """
@@ -389,6 +389,8 @@ class SamplingPoolPBS(SamplingPool):
                 continue
 
             job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+            if job_id is None:  # sample has not been put to any job
+                continue
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
@@ -398,17 +400,16 @@ class SamplingPoolPBS(SamplingPool):
                         already_collected.add(res[0])
                         successful_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in failed_results.items():
+            for level_id, results in failed.items():
                 for res in results:
                     if res[0] in self._unfinished_sample_ids:
                         already_collected.add(res[0])
                         failed_results.setdefault(level_id, []).append(res)
 
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
+            for level_id, results in time.items():
+                level_time = times.setdefault(level_id, [0, 0])
+                level_time[0] += results[-1][0]
+                level_time[1] += results[-1][1]
 
             # Delete pbsID file - it means job is finished
             # SamplingPoolPBS.delete_pbs_id_file(file)
@@ -422,6 +423,33 @@ class SamplingPoolPBS(SamplingPool):
         List of unfinished sample ids, the corresponding samples are collecting in next get_finished() call .
         """
         self._unfinished_sample_ids = set(sample_ids)
+        # Jobs which are not over yet are watched in the same way as new jobs
+        for file in glob.glob(os.path.join(self._jobs_dir, "*_*")):
+            ids = re.fullmatch(r'(\d+)_(\d+)', os.path.basename(file))
+            if ids is None:
+                continue
+            job_id, pbs_id = ids.groups()
+            job_samples = {sid for _, sid, _ in PbsJob.get_scheduled_sample_ids(job_id, self._jobs_dir)}
+            if pbs_id not in self._pbs_ids and job_samples & self._unfinished_sample_ids and self._is_alive(pbs_id):
+                self._pbs_ids.append(pbs_id)
+            if pbs_id in self._pbs_ids:
+                self._unfinished_sample_ids -= job_samples
+
+    @staticmethod
+    def _is_alive(pbs_id):
+        """
+        Find out whether the job is still queued or running
+        :param pbs_id: str
+        :return: bool
+        """
+        try:
+            process = subprocess.run(["qstat", "-x", pbs_id], stderr=subprocess.PIPE, stdout=subprocess.PIPE)
+        except FileNotFoundError:  # no PBS here
+            return False
+        if process.returncode != 0:
+            # Job terminated long ago is unknown, otherwise try it again in get_finished()
+            return b"Unknown Job Id" not in process.stderr
+        return pbs_id not in re.findall(r"(\d+)\..*\d+ F", process.stdout.decode("ascii"))
 
     @staticmethod
     def delete_pbs_id_file(file_path):
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..71cc24f 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -253,12 +253,14 @@ class PbsJob:
         Get job ID for given sample ID
         :param sample_id: str
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: str, job id; None if the sample has not been put to any job
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return None
         with open(sample_id_job_id_file, "r") as file:
             saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return saved_ids.get(sample_id)
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From 83709af1ea452c1e79447e050722e7274adb2476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:12 +0000
Subject: [PATCH 11/51] fix: cached samples of a deleted quantity are not
 returned for another quantity

---
 mlmc/quantity/quantity.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..b479955 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,9 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _cache_ids = itertools.count()
+    # Unique identifiers of quantities for caching of their samples
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +125,9 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        # id() of a quantity can be reused once the quantity is deleted
+        quantity_id = self.__dict__.setdefault('_cache_id', next(Quantity._cache_ids))
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, quantity_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From c0179ef919a07fd3eff4e97d9628f3b0a947a7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 12/51] fix: array of structured quantities can be indexed

---
 mlmc/quantity/quantity_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..b744105 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -128,9 +128,9 @@ class ArrayType(QType):
         :param key: slice
         :return:
         """
-        # Reshape M to original shape to allow access
+        # Reshape M to original shape to allow access, items of the array are vectors of the size of their type
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
+        chunk = chunk.reshape((*self._shape, chunk.shape[0] // np.prod(self._shape), chunk.shape[-2], chunk.shape[-1]))
         return QType.keep_dims(chunk[key])
 
     def reshape(self, data):
-- 
2.43.0


From 6e56e9684ca2a236d3d6309abb75ff67e779cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:36 +0000
Subject: [PATCH 13/51] fix: quantities of equal types can be put together to
 an array, time series or field

---
 mlmc/quantity/quantity_types.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index b744105..cf85c07 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -10,6 +10,15 @@ class QType(metaclass=abc.ABCMeta):
     def __init__(self, qtype):
         self._qtype = qtype
 
+    def __eq__(self, other):
+        """
+        Types with the same structure are equal
+        """
+        return type(self) is type(other) and self._structure() == other._structure()
+
+    def _structure(self):
+        return self._qtype
+
     def size(self) -> int:
         """
         Size of type
@@ -97,6 +106,9 @@ class ArrayType(QType):
         self._shape = shape
         self._qtype = qtype
 
+    def _structure(self):
+        return tuple(self._shape), self._qtype
+
     def size(self) -> int:
         return np.prod(self._shape) * self._qtype.size()
 
@@ -147,6 +159,9 @@ class TimeSeriesType(QType):
         self._times = times
         self._qtype = qtype
 
+    def _structure(self):
+        return list(self._times), self._qtype
+
     def size(self) -> int:
         return len(self._times) * self._qtype.size()
 
@@ -184,6 +199,9 @@ class FieldType(QType):
         self._qtype = args[0][1]
         assert all(q_type.size() == self._qtype.size() for _, q_type in args)
 
+    def _structure(self):
+        return list(self._dict.items())
+
     def size(self) -> int:
         return len(self._dict.keys()) * self._qtype.size()
 
@@ -202,6 +220,9 @@ class DictType(QType):
         self._dict = dict(args)  # Be aware we it is ordered dictionary
         self._check_base_type()
 
+    def _structure(self):
+        return list(self._dict.items())
+
     def _check_base_type(self):
         qtypes = list(self._dict.values())
         qtype_0_base_type = qtypes[0].base_qtype()
-- 
2.43.0


From 286156fe762dad65476f024a1a39be36036d5b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 14/51] fix: constants combined with constants and arrays of
 more dimensions behave as their values

---
 mlmc/quantity/quantity.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index b479955..52f634a 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -439,6 +439,8 @@ class Quantity:
         for arg in args:
             quantities.append(Quantity.wrap(arg))
         result_qtype = Quantity._result_qtype(_ufunc_call, quantities)
+        if all(isinstance(quantity, QuantityConst) for quantity in quantities):
+            return QuantityConst(result_qtype, value=_ufunc_call(*[quantity._value for quantity in quantities]))
         return Quantity(quantity_type=result_qtype, input_quantities=list(quantities), operation=_ufunc_call)
 
     @staticmethod
@@ -542,7 +544,7 @@ class QuantityConst(Quantity):
         """
         if isinstance(value, (int, float, bool)):
             value = np.array([value])
-        return value[:, np.newaxis, np.newaxis]
+        return np.ravel(value)[:, np.newaxis, np.newaxis]
 
     def selection_id(self):
         """
-- 
2.43.0


From 122b6d5bf4a23b5914a166bc96af2297f350ab00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:25 +0000
Subject: [PATCH 15/51] fix: estimate_diff_vars uses moment functions of the
 estimate by default

---
 mlmc/estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index de8814b..82d7ecc 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -81,6 +81,9 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
+
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From e129efed2b87fd6c5b945e85b10460683ea9ba6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:30 +0000
Subject: [PATCH 16/51] fix: indexing of an estimate by a tuple selects the
 same items on all levels

---
 mlmc/quantity/quantity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 52f634a..8464349 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -651,8 +651,9 @@ class QuantityMean:
             key = slice(start, start + new_qtype.size())
 
         # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        key = (slice(None), *key) if isinstance(key, tuple) else (slice(None), key)  # the first axis are levels
+        l_means = self.l_means[key]
+        l_vars = self.l_vars[key]
 
         return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
                             l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
-- 
2.43.0


From d2b128e4a45a4b38de227c463ce3a15f4ffca289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:46 +0000
Subject: [PATCH 17/51] fix: reading of more samples than stored in HDF is not
 cached under the number asked for

---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 16c23e8..c3558fa 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -362,7 +362,7 @@ class LevelGroup:
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
 
             if n_samples is not None:
-                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, n_samples, 1), level_id=int(self.level_id))
+                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, min(n_samples, len(dataset)), 1), level_id=int(self.level_id))
             else:
                 for chunk_id, chunk in enumerate(dataset.iter_chunks()):
                     yield ChunkSpec(chunk_id=chunk_id, chunk_slice=chunk[0], level_id=int(self.level_id))  # slice, level_id
-- 
2.43.0


From b92781762dd5e42d4013c169422da0f8ac2d0ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:11 +0000
Subject: [PATCH 18/51] fix: subsampling over chunks gives the requested number
 of samples, bootstrap uses the subsamples

---
 mlmc/estimator.py         |  2 +-
 mlmc/quantity/quantity.py | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 82d7ecc..2e21bfe 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -186,7 +186,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 8464349..7895c9b 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -354,20 +354,22 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, chunk_spec):
             """
             Custom implementation of QuantityConst.adjust_value()
             It allows us to get different parameters for different levels
             """
-            subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            subsample_l_params_obj = subsample_level_params[chunk_spec.level_id]
+            # The following chunks continue with what remains from the previous ones
+            if not chunk_spec.chunk_id:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
-        return Quantity(quantity_type=self.qtype.replace_scalar(qt.BoolType()),
-                        input_quantities=[self, quantity_subsample_params], operation=Quantity.pick_samples)
+        return Quantity(quantity_type=self.qtype, input_quantities=[self, quantity_subsample_params],
+                        operation=Quantity.pick_samples)
 
     def __getitem__(self, key):
         """
@@ -553,12 +555,12 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, chunk_spec=None):
         """
         Allows process value based on chunk_epc params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
-        :param level_id: int
+        :param chunk_spec: ChunkSpec
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -570,7 +572,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec)
 
 
 class QuantityMean:
-- 
2.43.0


From a91ff5696e5d5a328f44a4803a6b645d86e2ec34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:02 +0000
Subject: [PATCH 19/51] fix: single Fourier moments, moments of arrays, changed
 size, fewer derivatives and equality of moments

---
 mlmc/moments.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..5d97ecb 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -45,6 +45,7 @@ class Moments:
         return type(self) is type(other) \
                 and self.size == other.size \
                 and np.all(self.domain == other.domain) \
+                and np.all(self.ref_domain == other.ref_domain) \
                 and self._is_log == other._is_log \
                 and self._is_clip == other._is_clip
 
@@ -53,7 +54,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
@@ -76,7 +77,7 @@ class Moments:
         return self._eval_all(value, self.size)
 
     def eval(self, i, value):
-        return self._eval_all(value, i+1)[:, -1]
+        return self._eval_all(value, i+1)[..., -1]
 
     def eval_single_moment(self, i, value):
         """
@@ -150,25 +151,25 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., None] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty(t.shape + (size,))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
     def eval(self, i, value):
         t = self.transform(np.atleast_1d(value))
         if i == 0:
-            return 1
+            return np.ones(t.shape)
         elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
+            return np.cos((i + 1) / 2 * t)
         else:
-            return np.cos(i / 2 * t)
+            return np.sin(i / 2 * t)
 
 
 class Legendre(Moments):
@@ -215,18 +216,18 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff_mat
+        return P_n @ self.diff_mat[:size, :size]
 
     def _eval_diff2(self, value, size):
         t = self.transform(np.atleast_1d(value))
         P_n = np.polynomial.legendre.legvander(t, deg=size - 1)
-        return P_n @ self.diff2_mat
+        return P_n @ self.diff2_mat[:size, :size]
 
 
 class TransformedMoments(Moments):
-- 
2.43.0


From 3b0dc1c56103d3c2686a912e9672384a1806b3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:03 +0000
Subject: [PATCH 20/51] fix: reconstructed densities are normalised, cdf does
 not depend on order and distance of its arguments

---
 mlmc/tool/distribution.py        | 10 +++++-----
 mlmc/tool/simple_distribution.py |  8 ++++----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index e377607..4bd2d8d 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -147,8 +147,8 @@ class Distribution:
                    self.approx_size, result.nit, approx_tol, jac_norm, result.message))
 
         # Fix normalization
-        gradient, _ = self._calculate_exact_moment(self.multipliers, m=0, full_output=0)
-        self.multipliers /= gradient
+        moment_0, _ = self._calculate_exact_moment(self.multipliers, m=0, full_output=0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
@@ -195,18 +195,18 @@ class Distribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
                 last_y = 0
             elif val >= self.domain[1]:
                 last_y = 1
             else:
-                dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
+                dy = integrate.quad(self.density, last_x, val)[0]
                 last_x = val
                 last_y = last_y + dy
             cdf_y[i] = last_y
diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..199c48c 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,7 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
@@ -107,18 +107,18 @@ class SimpleDistribution:
 
     def cdf(self, values):
         values = np.atleast_1d(values)
-        np.sort(values)
         last_x = self.domain[0]
         last_y = 0
         cdf_y = np.empty(len(values))
 
-        for i, val in enumerate(values):
+        for i in np.argsort(values):
+            val = values[i]
             if val <= self.domain[0]:
                 last_y = 0
             elif val >= self.domain[1]:
                 last_y = 1
             else:
-                dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
+                dy = integrate.quad(self.density, last_x, val)[0]
                 last_x = val
                 last_y = last_y + dy
             cdf_y[i] = last_y
-- 
2.43.0


From fac6c25dae6c9ab8ce53c31876d7e489fff3438a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:05 +0000
Subject: [PATCH 21/51] fix: domain is estimated from samples of all levels

---
 mlmc/estimator.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 2e21bfe..047f0f0 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -292,8 +292,9 @@ class Estimate:
             if sample_storage.get_n_collected()[level_id] == 0:
                 print("No collected values for level {}".format(level_id))
                 continue
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id,
+                                                    n_samples=sample_storage.get_n_collected()[level_id]))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
@@ -350,18 +351,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From d99fc90a6b318ddcbd004b23450f5a3238023119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:22 +0000
Subject: [PATCH 22/51] fix: correlated field samples belong to the last
 points, covariance is approximated up to the requested precision

---
 mlmc/random/correlated_field.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..745fb0b 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -339,7 +339,9 @@ class RandomFieldBase:
         if sigma is not None:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+
+        self._set_points()
 
     def _set_points(self):
         pass
@@ -466,16 +468,15 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5)))
 
             m = max(m, range[0])
-            threshold = 2 * precision
             # TODO: Test if we should cut eigen values by relative (like now) or absolute value
-            while threshold >= precision and m <= range[1]:
-                #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
+            while True:
                 U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
-                threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
+                if ev[-1] / ev[0] < precision or m >= range[1]:
+                    break
+                m = min(int(np.ceil(1.5 * m)), range[1])
 
             m = len(ev)
             m = min(m, range[1])
-- 
2.43.0


From a98f9431c7f5ca191d3bf78f6371e7919c8da153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:22 +0000
Subject: [PATCH 23/51] fix: random field shared by several fields, order of
 regions of dependent fields and points without regions

---
 mlmc/random/correlated_field.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 745fb0b..5055efc 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # A random field can be shared by fields on different regions, i.e. with different points.
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
@@ -198,7 +200,7 @@ class Fields:
         :return:
         """
         self.n_elements = len(points)
-        assert len(points) == len(region_ids)
+        assert len(region_ids) == 0 or len(points) == len(region_ids)
         reg_points = {}
         for i, reg_id in enumerate(region_ids):
             reg_list = reg_points.get(reg_id, [])
@@ -211,6 +213,7 @@ class Fields:
                 for reg in field.regions:
                     reg_id = region_map[reg]
                     point_ids.extend(reg_points.get(reg_id, []))
+                point_ids.sort()    # Same order of points for all fields on the same regions.
                 field.set_points(points[point_ids])
                 field.full_sample_ids = point_ids
             else:
-- 
2.43.0


From 5d758ca2336ada4bfa57e042ad2e61fff21da251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:38 +0000
Subject: [PATCH 24/51] fix: fields on regions without points, samples of
 Fourier field reproducible from NumPy seed

---
 mlmc/random/correlated_field.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 5055efc..9c7d24f 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -87,7 +87,7 @@ class Field:
             self._sample = self.const * np.ones(len(points))
         elif self.correlated_field is not None:
             self.correlated_field.set_points(points)
-            if type(self.correlated_field) is  SpatialCorrelatedField:
+            if type(self.correlated_field) is  SpatialCorrelatedField and len(points) > 0:
                 # TODO: make n_terms_range an optianal parmater for SpatialCorrelatedField
                 self.correlated_field.svd_dcmp(n_terms_range=(10, 100))
         else:
@@ -496,6 +496,8 @@ class SpatialCorrelatedField(RandomFieldBase):
         :param uncorelated: Random samples from standard normal distribution.
         :return: Random field evaluated in points given by 'set_points'.
         """
+        if self.n_points == 0:
+            return np.zeros(0)
         if self._cov_l_factor is None:
             self.svd_dcmp()
         uncorelated = np.random.normal(0, 1, self.n_approx_terms)
@@ -642,7 +644,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
             k[0] = np.tan(k_u) / self.len_scale
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
@@ -675,6 +677,8 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         return k
 
     def _get_random_stream(self, seed=None):
+        if seed is None:
+            return rand.RandomState(rand.randint(2 ** 16 - 1))
         return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
 
     def random_field(self):
-- 
2.43.0


From c246acc0d5bf7800c7398efbb00c4a38ac08fae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:18 +0000
Subject: [PATCH 25/51] fix: reading of region names, elements with few tags,
 element data with many components and format 1.0 of mesh files

---
 mlmc/tool/gmsh_io.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..19edd3e 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -81,6 +81,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0   # ASCII, format 1.0 has no $MeshFormat section
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
@@ -117,8 +118,9 @@ class GmshIO:
                     self.current_elem_data[ele_idx] = comp_values
 
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        self.physical[columns[2].strip('"')] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
@@ -143,7 +145,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 3:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
@@ -295,7 +297,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From 125365e9a27c55015a859baf2a4bbfc2fd5d69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:32 +0000
Subject: [PATCH 26/51] fix: random fields of flow sample are given by its seed

---
 mlmc/tool/flow_mc.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..3b30d3d 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -248,11 +248,14 @@ class FlowSim(Simulation):
                 "common_files_dir"]  # Directory with coarse simulation common files
             coarse_mesh_data = FlowSim.extract_mesh(os.path.join(coarse_common_files_dir, FlowSim.MESH_FILE))
 
+        # Set random seed, seed is calculated from sample id, so it is not user defined
+        np.random.seed(seed)
         # Create fields both fine and coarse
         fields = FlowSim.make_fields(fields, fine_mesh_data, coarse_mesh_data)
+        for field in fields.fields:
+            if isinstance(field.correlated_field, cf.GSToolsSpatialCorrelatedField):
+                field.correlated_field.change_srf(np.random.randint(2**31 - 1))  # gstools has its own generator
 
-        # Set random seed, seed is calculated from sample id, so it is not user defined
-        np.random.seed(seed)
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From e990249947fadb58ecc262400654b81bbc3c38cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:32 +0000
Subject: [PATCH 27/51] fix: flow simulation can continue with existing common
 files

---
 mlmc/tool/flow_mc.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 3b30d3d..5211918 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -171,6 +171,7 @@ class FlowSim(Simulation):
         force_mkdir(common_files_dir, force=self.clean)
 
         self.mesh_file = os.path.join(common_files_dir, self.MESH_FILE)
+        yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
 
         if self.clean:
             # Prepare mesh
@@ -179,10 +180,14 @@ class FlowSim(Simulation):
             self._make_mesh(geo_file, self.mesh_file, fine_step)  # Common computational mesh for all samples.
 
             # Prepare main input YAML
-            yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Common files are kept, just find out which fields they use
+            with open(yaml_template, 'r') as f:
+                template = f.read()
+            self._fields_used_params = [name for name in self._fields.names if '<%s>' % name in template]
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From 9e2a3dbeddbdc9da4db6f79c34743fb1f93a96af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:40 +0000
Subject: [PATCH 28/51] fix: refuse a condition among numbers in a dictionary
 quantity whatever comes first

---
 mlmc/quantity/quantity_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index cf85c07..2aa58ac 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -227,7 +227,7 @@ class DictType(QType):
         qtypes = list(self._dict.values())
         qtype_0_base_type = qtypes[0].base_qtype()
         for qtype in qtypes[1:]:
-            if not isinstance(qtype.base_qtype(), type(qtype_0_base_type)):
+            if type(qtype.base_qtype()) is not type(qtype_0_base_type):
                 raise TypeError("qtype {} has base QType {}, expecting {}. "
                                 "All QTypes must have same base QType, either SacalarType or BoolType".
                                 format(qtype, qtype.base_qtype(), qtype_0_base_type))
-- 
2.43.0


From 59ffbd8e7c6598eef62e58f56e659ee1be83a8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:27 +0000
Subject: [PATCH 29/51] fix: quadrature of the density is refined also for
 symmetric densities with odd last moment

---
 mlmc/tool/simple_distribution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 199c48c..46d77c7 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -154,19 +154,20 @@ class SimpleDistribution:
     def eval_moments(self, x):
         return self.moments_fn.eval_all(x, self.approx_size)
 
-    def _calculate_exact_moment(self, multipliers, m=0, full_output=0):
+    def _calculate_exact_moment(self, multipliers, m=0, full_output=0, exponent=1):
         """
         Compute moment 'm' using adaptive quadrature to machine precision.
         :param multipliers:
         :param m:
         :param full_output:
+        :param exponent: integrate this power of the moment function
         :return:
         """
         def integrand(x):
             moms = self.eval_moments(x)
             power = -np.sum(moms * multipliers / self._moment_errs, axis=1)
             power = np.minimum(np.maximum(power, -200), 200)
-            return np.exp(power) * moms[:, m]
+            return np.exp(power) * moms[:, m] ** exponent
 
         result = sc.integrate.quad(integrand, self.domain[0], self.domain[1],
                                    epsabs=self._quad_tolerance, full_output=full_output)
@@ -211,7 +212,8 @@ class SimpleDistribution:
             if quad_err_estimate < self._quad_tolerance:
                 return
 
-        val, result = self._calculate_exact_moment(multipliers, m=self.approx_size-1, full_output=1)
+        # Square of the moment, the error estimate of an odd moment vanishes for a symmetric density.
+        val, result = self._calculate_exact_moment(multipliers, m=self.approx_size-1, full_output=1, exponent=2)
 
         if len(result) > 3:
             y, abserr, info, message = result
-- 
2.43.0


From ba54ad968ca78fec70447bf9f156861e91c5a101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:47 +0000
Subject: [PATCH 30/51] fix: semi-exact moments are accurate also for symmetric
 densities

---
 mlmc/tool/simple_distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 46d77c7..5041a3b 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -352,9 +352,10 @@ def compute_semiexact_moments(moments_fn, density, tol=1e-10):
     a, b = moments_fn.domain
     m = moments_fn.size - 1
 
+    # Square of the moment, the error estimate of an odd moment vanishes for a symmetric density.
     def integrand(x):
         moms = moments_fn.eval_all(x)[0, :]
-        return density(x) * moms[m]
+        return density(x) * moms[m] * moms[m]
 
     result = sc.integrate.quad(integrand, a, b,
                                epsabs=tol, full_output=True)
-- 
2.43.0


From 4f1ca6f56622e0df53fb5944cff4401fdf72766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:15 +0000
Subject: [PATCH 31/51] fix: semi-exact moments and covariance see peaks where
 the last moment vanishes

---
 mlmc/tool/simple_distribution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 5041a3b..1123589 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -352,10 +352,10 @@ def compute_semiexact_moments(moments_fn, density, tol=1e-10):
     a, b = moments_fn.domain
     m = moments_fn.size - 1
 
-    # Square of the moment, the error estimate of an odd moment vanishes for a symmetric density.
+    # Density and square of the last moment, the error estimate of an odd moment vanishes for a symmetric density.
     def integrand(x):
         moms = moments_fn.eval_all(x)[0, :]
-        return density(x) * moms[m] * moms[m]
+        return density(x) * (1 + moms[m] * moms[m])
 
     result = sc.integrate.quad(integrand, a, b,
                                epsabs=tol, full_output=True)
@@ -413,9 +413,11 @@ def compute_semiexact_cov(moments_fn, density, tol=1e-10):
 
     a, b = moments_fn.domain
     m = moments_fn.size - 1
+
+    # Density and square of the last moment, a peak where the last moment vanishes would be missed.
     def integrand(x):
         moms = moments_fn.eval_all(x)[0, :]
-        return density(x) * moms[m] * moms[m]
+        return density(x) * (1 + moms[m] * moms[m])
 
     result = sc.integrate.quad(integrand, a, b,
                                epsabs=tol, full_output=True)
-- 
2.43.0


From c30df95aa44e577c8fbb9ecbd1132e72274b8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 32/51] fix: variance plots with fewer moments than asked for

---
 mlmc/plot/plots.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 9a6053d..e9d0161 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -50,6 +50,7 @@ def moments_subset(n_moments, moments=None):
         subset =  np.arange(1, n_moments)
     else:
         assert type(moments) is int
+        moments = min(moments, n_moments - 1)
         subset =  np.round(np.geomspace(1, n_moments-1, moments)).astype(int)
         # make indices unique by increasing
         for i in range(1,len(subset)):
-- 
2.43.0


From 14506b59b348d1f864815b50ef64c350f0da4e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:57 +0000
Subject: [PATCH 33/51] fix: eigenvalue plots with errors, increasing or
 non-positive values

---
 mlmc/plot/plots.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index e9d0161..6e2aeb9 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -317,17 +317,18 @@ class Eigenvalues:
         :param threshold: horizontal line marking noise level or cut-off eigen value
         :return:
         """
-        assert not errors or len(values) == len(errors)
+        assert errors is None or len(values) == len(errors)
         if values[0] < values[-1]:
             values = np.flip(values)
             if errors is not None:
                 errors = np.flip(errors)
-            threshold = len(values) - 1 - threshold
 
         if self.log_y:
             # plot only positive values
-            i_last_positive = len(values) - np.argmax(np.flip(values) > 0)
-            values = values[:i_last_positive + 1]
+            n_positive = np.sum(np.array(values) > 0)
+            values = values[:n_positive]
+            if errors is not None:
+                errors = errors[:n_positive]
             a, b = np.min(values), np.max(values)
             self.adjust_ylim( (a / ((b/a)**0.05), b * (b/a)**0.05) )
         else:
-- 
2.43.0


From 73a898ccf45e2c3d0a35f75901fa38da5b43a92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:23 +0000
Subject: [PATCH 34/51] fix: HDF storage keeps result formats with both named
 and coordinate locations

---
 mlmc/sample_storage_hdf.py | 19 +++++++++++++------
 mlmc/tool/hdf5.py          | 15 ++++++++++-----
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index b436525..d712a89 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -33,13 +33,15 @@ class SampleStorageHDF(SampleStorage):
                 for i_level in range(len(self._hdf_object.level_parameters)):
                     self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-    def _hdf_result_format(self, locations):
+    def _hdf_result_format(self, result_format):
         """
         QuantitySpec data type, necessary for hdf storage
-        Number of times and locations can differ between quantities, coordinates of locations are stored flattened
+        Number of times and locations can differ between quantities, coordinates of locations are stored flattened,
+        in a separate field if other quantities have named locations
         :return:
         """
-        if isinstance(locations[0], str):
+        named = [isinstance(spec.locations[0], str) for spec in result_format]
+        if any(named):
             loc_dtype = hdf.vlen_dtype(np.dtype('S50'))
         else:
             loc_dtype = hdf.vlen_dtype(np.dtype(np.float))
@@ -52,6 +54,9 @@ class SampleStorageHDF(SampleStorage):
                                     loc_dtype
                                     )
                         }
+        if any(named) and not all(named):
+            result_dtype['names'] += ('coordinates',)
+            result_dtype['formats'] += (hdf.vlen_dtype(np.dtype(np.float)),)
 
         return result_dtype
 
@@ -62,7 +67,7 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
-        res_dtype = self._hdf_result_format(result_format[0].locations)
+        res_dtype = self._hdf_result_format(result_format)
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
@@ -108,8 +113,10 @@ class SampleStorageHDF(SampleStorage):
         results_format = self._hdf_object.load_result_format()
         quantities = []
         for res_format in results_format:
-            if res_format[4].dtype.kind == 'f':
-                locations = [tuple(loc) for loc in res_format[4].reshape(-1, 3)]
+            # Coordinates have its own field if other quantities have named locations
+            coordinates = res_format[-1]
+            if coordinates.dtype.kind == 'f' and len(coordinates) > 0:
+                locations = [tuple(loc) for loc in coordinates.reshape(-1, 3)]
             else:
                 locations = [loc.decode() for loc in res_format[4]]
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3], locations)
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index c3558fa..5994d53 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -152,14 +152,19 @@ class HDF5:
         # Format data
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
-            for attribute in list(quantity_spec.__dict__.keys()):
+            values = dict(quantity_spec.__dict__)
+            if 'coordinates' in result_array.dtype.names:
+                values['coordinates'] = []
+                if not isinstance(quantity_spec.locations[0], str):
+                    values['coordinates'], values['locations'] = quantity_spec.locations, []
+            for attribute, value in values.items():
                 base_dtype = h5py.check_vlen_dtype(result_array.dtype[attribute])
                 if base_dtype is not None:
-                    res[attribute] = np.array(getattr(quantity_spec, attribute), dtype=base_dtype).ravel()
-                elif isinstance(getattr(quantity_spec, attribute), (tuple, list)):
-                    res[attribute][:] = getattr(quantity_spec, attribute)
+                    res[attribute] = np.array(value, dtype=base_dtype).ravel()
+                elif isinstance(value, (tuple, list)):
+                    res[attribute][:] = value
                 else:
-                    res[attribute] = getattr(quantity_spec, attribute)
+                    res[attribute] = value
 
         # Write to file
         with h5py.File(self.file_name, 'a') as hdf_file:
-- 
2.43.0


From 215a4b3f3fdc695ccad0258978418d2e3e9acc41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:07 +0000
Subject: [PATCH 35/51] fix: HDF storage keeps long and non-ASCII names of the
 result format

---
 mlmc/sample_storage_hdf.py | 10 +++++++---
 mlmc/tool/hdf5.py          |  4 ++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index d712a89..afc849f 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -41,14 +41,18 @@ class SampleStorageHDF(SampleStorage):
         :return:
         """
         named = [isinstance(spec.locations[0], str) for spec in result_format]
+        # All names have to fit
+        names = [name for spec in result_format for name in (spec.name, spec.unit, *spec.locations)
+                 if isinstance(name, str)]
+        str_dtype = 'S{}'.format(max([50, *(len(name.encode()) for name in names)]))
         if any(named):
-            loc_dtype = hdf.vlen_dtype(np.dtype('S50'))
+            loc_dtype = hdf.vlen_dtype(np.dtype(str_dtype))
         else:
             loc_dtype = hdf.vlen_dtype(np.dtype(np.float))
 
         result_dtype = {'names': ('name', 'unit', 'shape', 'times', 'locations'),
-                        'formats': ('S50',
-                                    'S50',
+                        'formats': (str_dtype,
+                                    str_dtype,
                                     np.dtype((np.int32, (2,))),
                                     hdf.vlen_dtype(np.dtype(np.float)),
                                     loc_dtype
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 5994d53..8645e98 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -159,6 +159,10 @@ class HDF5:
                     values['coordinates'], values['locations'] = quantity_spec.locations, []
             for attribute, value in values.items():
                 base_dtype = h5py.check_vlen_dtype(result_array.dtype[attribute])
+                if isinstance(value, str):
+                    value = value.encode()
+                elif len(value) > 0 and isinstance(value[0], str):
+                    value = [name.encode() for name in value]
                 if base_dtype is not None:
                     res[attribute] = np.array(value, dtype=base_dtype).ravel()
                 elif isinstance(value, (tuple, list)):
-- 
2.43.0


From 308a2cc2cd313356ec718d50b31fe05d1b38566c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:40:14 +0000
Subject: [PATCH 36/51] fix: ends of the domain are not taken as outliers of
 Fourier moments

---
 mlmc/moments.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 5d97ecb..a090122 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -24,6 +24,9 @@ class Moments:
         diff = max(diff, 1e-15)
         self._linear_scale = (self.ref_domain[1] - self.ref_domain[0]) / diff
         self._linear_shift = lin_domain[0]
+        # Ends of the domain belong to it also if their images are rounded out of the reference domain
+        self._clip_domain = (min(self.ref_domain[0], self.linear(lin_domain[0])),
+                             max(self.ref_domain[1], self.linear(lin_domain[1])))
 
         if safe_eval and log:
             self.transform = lambda val: self.clip(self.linear(np.log(val)))
@@ -63,7 +66,7 @@ class Moments:
         :return: masked_array, out
         """
         # Masked array
-        out = ma.masked_outside(value, self.ref_domain[0], self.ref_domain[1])
+        out = ma.masked_outside(value, self._clip_domain[0], self._clip_domain[1])
         # Replace outliers with NaN
         return ma.filled(out, np.nan)
 
-- 
2.43.0


From d4a0f48dc65011696c34164daafb9903d29abcdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:14 +0000
Subject: [PATCH 37/51] fix: synthetic simulation gives the right samples in a
 thread pool

---
 mlmc/sim/synth_simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sim/synth_simulation.py b/mlmc/sim/synth_simulation.py
index 5341721..4708602 100644
--- a/mlmc/sim/synth_simulation.py
+++ b/mlmc/sim/synth_simulation.py
@@ -82,8 +82,8 @@ class SynthSimulation(Simulation):
         :return: fine sample, coarse sample
         """
         SynthSimulation.len_results += 1
-        distr.random_state = np.random.RandomState(seed)
-        y = distr.rvs(size=size)
+        # The distribution object can be shared by threads
+        y = distr.rvs(size=size, random_state=np.random.RandomState(seed))
 
         if SynthSimulation.n_nans / (1e-10 + SynthSimulation.len_results) < SynthSimulation.nan_fraction:
             SynthSimulation.n_nans += 1
-- 
2.43.0


From c4c272d51fb58308fe4819119437e537105f25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:21 +0000
Subject: [PATCH 38/51] fix: attaching to an HDF storage keeps its samples and
 refuses other levels

---
 mlmc/sample_storage_hdf.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index afc849f..792c2c4 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -73,11 +73,17 @@ class SampleStorageHDF(SampleStorage):
         """
         res_dtype = self._hdf_result_format(result_format)
 
-        # Create file structure
-        self._hdf_object.create_file_structure(level_parameters)
+        if len(self._level_groups) > 0:
+            # Existing levels are kept
+            stored_parameters = self.get_level_parameters()
+            if np.shape(stored_parameters) != np.shape(level_parameters) \
+                    or not np.allclose(stored_parameters, level_parameters, rtol=1e-9, atol=0):
+                raise ValueError('You are setting different level parameters for an existing sample storage')
+        else:
+            # Create file structure
+            self._hdf_object.create_file_structure(level_parameters)
 
-        # Create group for each level
-        if len(self._level_groups) != len(level_parameters):
+            # Create group for each level
             for i_level in range(len(level_parameters)):
                 self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-- 
2.43.0


From e2908583bcb3a2825344be1b2949c3d0036f61ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:30 +0000
Subject: [PATCH 39/51] fix: target numbers of samples are not shared with the
 caller's array

---
 mlmc/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampler.py b/mlmc/sampler.py
index 6a55072..c31bd2c 100644
--- a/mlmc/sampler.py
+++ b/mlmc/sampler.py
@@ -98,7 +98,7 @@ class Sampler:
         if n_samples is None:
             n_samples = [100, 10]
         # Num of samples to ndarray
-        n_samples = np.atleast_1d(n_samples)
+        n_samples = np.array(n_samples, ndmin=1)
 
         # Just maximal number of samples is set
         if len(n_samples) == 1:
-- 
2.43.0


From 8395958f3e8fb86becf93cd27eb628d0cc018993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:05 +0000
Subject: [PATCH 40/51] fix: one process pool stays in the working directory of
 the caller

---
 mlmc/sampling_pool.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 1e9a60b..c315e6c 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -225,8 +225,12 @@ class OneProcessPool(SamplingPool):
         if self._output_dir is None and level_sim.need_sample_workspace:
             self._output_dir = os.getcwd()
 
+        # Sample calculation changes the working directory, which is removed afterwards
+        caller_dir = os.getcwd() if level_sim.need_sample_workspace else None
         sample_id, result, err_msg, running_time = SamplingPool.calculate_sample(sample_id, level_sim,
                                                                                  work_dir=self._output_dir)
+        if caller_dir is not None:
+            os.chdir(caller_dir)
 
         self._process_result(sample_id, result, err_msg, running_time, level_sim)
 
-- 
2.43.0


From 959a752c78a8fa1c00476f0570cd09c2202dcb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:13 +0000
Subject: [PATCH 41/51] fix: main process of the PBS pool killed at any point
 leaves files which a restart can read, no sample is collected twice

---
 mlmc/sampling_pool_pbs.py | 24 ++++++++++++++++++------
 mlmc/tool/pbs_job.py      | 35 +++++++++++++++++++++++++++++++----
 2 files changed, 49 insertions(+), 10 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index f4d8f38..84645b1 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -7,7 +7,7 @@ import json
 import glob
 from mlmc.level_simulation import LevelSimulation
 from mlmc.sampling_pool import SamplingPool
-from mlmc.tool.pbs_job import PbsJob
+from mlmc.tool.pbs_job import PbsJob, replaced_file
 
 """
 SamplingPoolPBS description
@@ -79,6 +79,8 @@ class SamplingPoolPBS(SamplingPool):
         # List of scheduled samples
         self._pbs_ids = []
         # List of pbs job ids which should run
+        self._adopted_jobs = {}
+        # Dict[pbs job id, set of sample ids], unfinished samples of jobs submitted before the restart
         self._unfinished_sample_ids = set()
         # List of sample id which are not collected - collection attempts are done in the get_finished()
         self._debug = debug
@@ -192,7 +194,7 @@ class SamplingPoolPBS(SamplingPool):
         file_path = os.path.join(self._output_dir, SamplingPoolPBS.LEVEL_SIM_CONFIG.format(level_sim._level_id))
 
         if not os.path.exists(file_path):
-            with open(file_path, "wb") as f:
+            with replaced_file(file_path, "wb") as f:
                 pickle.dump(level_sim, f)
 
     def execute(self):
@@ -206,9 +208,9 @@ class SamplingPoolPBS(SamplingPool):
             pbs_process = PbsJob.create_job(self._output_dir, self._jobs_dir, job_id,
                                             SamplingPoolPBS.LEVEL_SIM_CONFIG, self._debug)
 
-            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
             # Write scheduled samples to file
             pbs_process.save_scheduled(self._scheduled)
+            pbs_process.save_sample_id_job_id(job_id, self._scheduled)
 
             # Format pbs script
             self._create_script()
@@ -354,6 +356,14 @@ class SamplingPoolPBS(SamplingPool):
                 # Get sample results
                 successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
+                if pbs_id in self._adopted_jobs:
+                    # Other samples of the job are not known to the storage, they are going to be scheduled again
+                    sample_ids = self._adopted_jobs.pop(pbs_id)
+                    successful = {level_id: [res for res in results if res[0] in sample_ids]
+                                  for level_id, results in successful.items()}
+                    failed = {level_id: [res for res in results if res[0] in sample_ids]
+                              for level_id, results in failed.items()}
+
                 # Split results to levels
                 for level_id, results in successful.items():
                     successful_results.setdefault(level_id, []).extend(results)
@@ -392,17 +402,18 @@ class SamplingPoolPBS(SamplingPool):
             if job_id is None:  # sample has not been put to any job
                 continue
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
+            job_samples = PbsJob.job_sample_ids(job_id, self._jobs_dir) & self._unfinished_sample_ids
 
             # Split results to levels
             for level_id, results in successful.items():
                 for res in results:
-                    if res[0] in self._unfinished_sample_ids:
+                    if res[0] in job_samples:
                         already_collected.add(res[0])
                         successful_results.setdefault(level_id, []).append(res)
 
             for level_id, results in failed.items():
                 for res in results:
-                    if res[0] in self._unfinished_sample_ids:
+                    if res[0] in job_samples:
                         already_collected.add(res[0])
                         failed_results.setdefault(level_id, []).append(res)
 
@@ -429,9 +440,10 @@ class SamplingPoolPBS(SamplingPool):
             if ids is None:
                 continue
             job_id, pbs_id = ids.groups()
-            job_samples = {sid for _, sid, _ in PbsJob.get_scheduled_sample_ids(job_id, self._jobs_dir)}
+            job_samples = PbsJob.job_sample_ids(job_id, self._jobs_dir)
             if pbs_id not in self._pbs_ids and job_samples & self._unfinished_sample_ids and self._is_alive(pbs_id):
                 self._pbs_ids.append(pbs_id)
+                self._adopted_jobs[pbs_id] = job_samples & self._unfinished_sample_ids
             if pbs_id in self._pbs_ids:
                 self._unfinished_sample_ids -= job_samples
 
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index 71cc24f..ee63bd5 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -5,12 +5,27 @@ import warnings
 import json
 import ruamel.yaml as yaml
 import pickle
+from contextlib import contextmanager
 from mlmc.sampling_pool import SamplingPool
 from ruamel.yaml.error import ReusedAnchorWarning, UnsafeLoaderWarning
 warnings.simplefilter("ignore", UnsafeLoaderWarning)
 warnings.simplefilter("ignore", ReusedAnchorWarning)
 
 
+@contextmanager
+def replaced_file(path, mode="w"):
+    """
+    Open file for writing, the content of an existing one is replaced at once when everything is written.
+    An interrupted process leaves the previous state.
+    :param path: file path
+    :param mode: "w" or "wb"
+    """
+    tmp_path = path + ".tmp"
+    with open(tmp_path, mode) as file:
+        yield file
+    os.replace(tmp_path, path)
+
+
 class PbsJob:
     SCHEDULED = "{}_scheduled.yaml"
     # Store scheduled samples as List[(level_sim._level_id, sample_id, seed)]
@@ -82,7 +97,7 @@ class PbsJob:
         :return: None
         """
         if not os.path.exists(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)):
-            with open(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE), "w") as writer:
+            with replaced_file(os.path.join(pbs_process._output_dir, PbsJob.CLASS_FILE)) as writer:
                 writer.write(pbs_process._jobs_dir + ";")
                 writer.write(pbs_process._level_sim_file + ";")
                 writer.write(str(pbs_process._debug) + ";")
@@ -243,8 +258,8 @@ class PbsJob:
             with open(sample_id_job_id_file, "r") as file:
                 saved_ids = json.load(file)
 
-        with open(sample_id_job_id_file, "w") as file:
-            saved_ids.update(new_ids)
+        saved_ids.update(new_ids)
+        with replaced_file(sample_id_job_id_file) as file:
             json.dump(saved_ids, file)
 
     @staticmethod
@@ -262,6 +277,18 @@ class PbsJob:
             saved_ids = json.load(file)
         return saved_ids.get(sample_id)
 
+    @staticmethod
+    def job_sample_ids(job_id, jobs_dir):
+        """
+        Get samples of the job which have not been put to any later job
+        :param job_id: str
+        :param jobs_dir: jobs directory with results
+        :return: set of sample ids
+        """
+        with open(os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID), "r") as file:
+            saved_ids = json.load(file)
+        return {sample_id for sample_id, sample_job_id in saved_ids.items() if sample_job_id == job_id}
+
     def _append_file(self, data, path):
         """
         Append result files, it works on read - update - write basis
@@ -368,7 +395,7 @@ class PbsJob:
         :return: None
         """
         try:
-            with open(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id)), "w") as file:
+            with replaced_file(os.path.join(self._jobs_dir, PbsJob.SCHEDULED.format(self._job_id))) as file:
                 yaml.dump(scheduled, file)
         except FileNotFoundError:
             print("Make sure you call _create_files method previously")
-- 
2.43.0


From cdc8ee1efbdcbe6e090a952a38da7f6e7791cd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:24 +0000
Subject: [PATCH 42/51] fix: a PBS job ended in the middle of writing loses
 just the sample being written

---
 mlmc/tool/pbs_job.py | 43 +++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index ee63bd5..0938b33 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -42,6 +42,8 @@ class PbsJob:
     SAMPLE_ID_JOB_ID = "sample_id_job_id.json"
     # Sample id with corresponding job id,
     # used to indicate that sample is stored in _successful_results.yaml or _failed_results.yaml
+    RECORD_END = "# end of record\n"
+    # Mark in the files with results, anything after the last one comes from a job ended in the middle of writing
 
     def __init__(self, output_dir, jobs_dir, job_id, level_sim_file, debug):
         """
@@ -296,8 +298,26 @@ class PbsJob:
         :param path: file path
         :return: None
         """
+        record = yaml.dump(data) + PbsJob.RECORD_END
         with open(path, "a") as f:
-            yaml.dump(data, f)
+            if f.tell() == 0:
+                f.write(PbsJob.RECORD_END)
+            f.write(record)
+
+    @staticmethod
+    def _read_file(path):
+        """
+        Read all whole records of the file with results
+        :param path: file path
+        :return: list
+        """
+        if not os.path.exists(path):
+            return []
+        with open(path, "r") as reader:
+            content = reader.read()
+        if PbsJob.RECORD_END in content:
+            content = content[:content.rindex(PbsJob.RECORD_END)]
+        return yaml.load(content) or []
 
     def _handle_sim_files(self, sample_id, level_sim):
         """
@@ -326,25 +346,16 @@ class PbsJob:
         time = {}
 
         # Save successful results
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id)), "r") as reader:
-                successful_samples = yaml.load(reader)
-                for level_id, sample_id, result in successful_samples:
-                    successful.setdefault(level_id, []).append((sample_id, result))
+        for level_id, sample_id, result in PbsJob._read_file(os.path.join(jobs_dir, PbsJob.SUCCESSFUL_RESULTS.format(job_id))):
+            successful.setdefault(level_id, []).append((sample_id, result))
 
         # Save failed results
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id)), "r") as reader:
-                failed_samples = yaml.load(reader)
-                for level_id, sample_id, err_msg in failed_samples:
-                    failed.setdefault(level_id, []).append((sample_id, err_msg))
+        for level_id, sample_id, err_msg in PbsJob._read_file(os.path.join(jobs_dir, PbsJob.FAILED_RESULTS.format(job_id))):
+            failed.setdefault(level_id, []).append((sample_id, err_msg))
 
         # Save time
-        if os.path.exists(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
-            with open(os.path.join(jobs_dir, PbsJob.TIME.format(job_id)), "r") as reader:
-                times = yaml.load(reader)
-                for level_id, n_samples, t in times:
-                    time.setdefault(level_id, []).append((n_samples, t))
+        for level_id, n_samples, t in PbsJob._read_file(os.path.join(jobs_dir, PbsJob.TIME.format(job_id))):
+            time.setdefault(level_id, []).append((n_samples, t))
 
         # Deal with not finished (failed) samples in finished job
         level_id_sample_id_seed = PbsJob.get_scheduled_sample_ids(job_id, jobs_dir)
-- 
2.43.0


From abd407ab7f65b38c38ae7c9ee2819e488f8018c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:09 +0000
Subject: [PATCH 43/51] fix: interrupted saving to the HDF storage does not
 leave finished samples without results

---
 mlmc/tool/hdf5.py | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 8645e98..8a0f8f1 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -319,18 +319,19 @@ class LevelGroup:
         :param samples: np.ndarray
         :return: None
         """
-        self._append_dataset(self.collected_ids_dset, samples[:, 0])
-
         values = samples[:, 1]
         result_type = np.dtype((np.float, np.array(values[0]).shape))
 
-        # Create dataset for failed samples
-        self._make_dataset(name='collected_values', shape=(0,),
-                           dtype=result_type, maxshape=(None,),
-                           chunks=True)
+        # Ids and results are stored within one opening of the file, interrupted process stores both or nothing
+        with h5py.File(self.file_name, 'a') as hdf_file:
+            level_group = hdf_file[self.level_group_path]
+            # Create dataset for results
+            d_name = 'collected_values'
+            if d_name not in level_group:
+                level_group.create_dataset(d_name, shape=(0,), dtype=result_type, maxshape=(None,), chunks=True)
 
-        d_name = 'collected_values'
-        self._append_dataset(d_name, [val for val in values])
+            self._extend_dataset(level_group[self.collected_ids_dset], samples[:, 0])
+            self._extend_dataset(level_group[d_name], [val for val in values])
 
     def append_failed(self, failed_samples):
         """
@@ -349,11 +350,20 @@ class LevelGroup:
         :return: None
         """
         with h5py.File(self.file_name, 'a') as hdf_file:
-            dataset = hdf_file[self.level_group_path][dataset_name]
-            # Resize dataset
-            dataset.resize(dataset.shape[0] + len(values), axis=0)
-            # Append new values to the end of dataset
-            dataset[-len(values):] = values
+            self._extend_dataset(hdf_file[self.level_group_path][dataset_name], values)
+
+    @staticmethod
+    def _extend_dataset(dataset, values):
+        """
+        Append values to opened dataset
+        :param dataset: h5py.Dataset
+        :param values: list of values (tuple, NumPy array or single value)
+        :return: None
+        """
+        # Resize dataset
+        dataset.resize(dataset.shape[0] + len(values), axis=0)
+        # Append new values to the end of dataset
+        dataset[-len(values):] = values
 
     def scheduled(self):
         """
-- 
2.43.0


From e09bca6fa97e1b0af8fc4f83247fb6563cd40dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:58 +0000
Subject: [PATCH 44/51] fix: variance estimates are not lost by rounding for
 samples large against their differences, never negative

---
 mlmc/quantity/quantity_estimate.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mlmc/quantity/quantity_estimate.py b/mlmc/quantity/quantity_estimate.py
index 2436d7b..d3430e5 100644
--- a/mlmc/quantity/quantity_estimate.py
+++ b/mlmc/quantity/quantity_estimate.py
@@ -32,6 +32,9 @@ def estimate_mean(quantity):
     quantity_vec_size = quantity.size()
     sums = None
     sums_of_squares = None
+    shifts = None
+    # Sums are over samples shifted to be around zero, otherwise the variance of samples that are large
+    # in comparison with their differences is lost by rounding
 
     # initialization
     quantity_storage = quantity.get_quantity_storage()
@@ -55,12 +58,18 @@ def estimate_mean(quantity):
         if sums is None:
             sums = [np.zeros(chunk.shape[0]) for _ in range(n_levels)]
             sums_of_squares = [np.zeros(chunk.shape[0]) for _ in range(n_levels)]
+            shifts = [None] * n_levels
 
         if chunk_spec.level_id == 0:
             chunk_diff = chunk[:, :, 0]
         else:
             chunk_diff = chunk[:, :, 0] - chunk[:, :, 1]
 
+        if shifts[chunk_spec.level_id] is None:
+            chunk_mean = np.mean(chunk_diff, axis=1)
+            shifts[chunk_spec.level_id] = np.where(np.isfinite(chunk_mean), chunk_mean, 0)
+        chunk_diff = chunk_diff - shifts[chunk_spec.level_id][:, None]
+
         sums[chunk_spec.level_id] += np.sum(chunk_diff, axis=1)
         sums_of_squares[chunk_spec.level_id] += np.sum(chunk_diff**2, axis=1)
 
@@ -69,10 +78,10 @@ def estimate_mean(quantity):
 
     l_means = []
     l_vars = []
-    for s, sp, n in zip(sums, sums_of_squares, n_samples):
-        l_means.append(s / n)
+    for s, sp, n, shift in zip(sums, sums_of_squares, n_samples, shifts):
+        l_means.append(s / n + (0 if shift is None else shift))
         if n > 1:
-            l_vars.append((sp - (s ** 2 / n)) / (n-1))
+            l_vars.append(np.maximum(sp - (s ** 2 / n), 0) / (n-1))
         else:
             l_vars.append(np.full(len(s), np.inf))
 
-- 
2.43.0


From e59744b8e03513e3fd6a6915b257cdeec068d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:38 +0000
Subject: [PATCH 45/51] fix: variance regression of levels with zero variance
 is finite, small variances are regressed too

---
 mlmc/estimator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 047f0f0..4b54880 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -107,7 +107,8 @@ class Estimate:
         """
         L, = raw_vars.shape
         L1 = L - 1
-        if L < 3 or np.allclose(raw_vars, 0):
+        # Zero variance has no logarithm
+        if L < 3 or np.any(raw_vars[1:] <= 0):
             return raw_vars
 
         # estimate of variances of variances, compute scaling
-- 
2.43.0


From c3363e6f4d025f5a4b0b0caf104c62f1f4b38840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:46 +0000
Subject: [PATCH 46/51] fix: plots of bootstrap estimates, histogram of few
 samples

---
 mlmc/estimator.py  |  2 +-
 mlmc/plot/plots.py | 16 +++++++++-------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 4b54880..d45303b 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -245,7 +245,7 @@ class Estimate:
 
         bs_plot.plot_means_and_vars(self.mean_bs_mean[1:], self.mean_bs_var[1:], n_levels=self._sample_storage.get_n_levels())
 
-        bs_plot.plot_bs_variances(self.mean_bs_l_vars)
+        bs_plot.plot_bs_variances(np.concatenate((self.mean_bs_var[None, :], self.mean_bs_l_vars), axis=0))
         #bs_plot.plot_bs_var_log_var()
 
         bs_plot.plot_var_regression(self, self._sample_storage.get_n_levels(), self._moments_fn)
diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 6e2aeb9..6fc0d69 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -165,7 +165,7 @@ class Distribution:
         domain = (np.min(samples), np.max(samples))
         self.adjust_domain(domain)
         N = len(samples)
-        bins = self._grid(int(0.5 * np.sqrt(N)))
+        bins = self._grid(max(2, int(0.5 * np.sqrt(N))))   # at least one bin
         self.ax_pdf.hist(samples, density=True, bins=bins, alpha=0.3, label='samples', color='red')
 
         # # Ecdf
@@ -665,7 +665,7 @@ class BSplots:
 
         fig = plt.figure(figsize=(8, 5))
         ax = fig.add_subplot(1, 1, 1)
-        self._moments_cmap = self.set_moments_color_bar(len(variances[0]), "moments")
+        self._moments_cmap = self.set_moments_color_bar(len(variances[0]), "moments", ax=ax)
         self._scatter_level_moment_data(ax, variances, marker='.')
 
         lbls = ['Total'] + ['L{:2d}\n{}\n{}'.format(l + 1, nsbs, ns)
@@ -750,17 +750,19 @@ class BSplots:
         x = x - 0.3
         default_x = x
 
-        self._moments_cmap = self.set_moments_color_bar(len(moments_mean), "moments")
+        fig = plt.figure(figsize=(15, 10))
+        ax = fig.add_subplot(1, 1, 1)
+        self._moments_cmap = self.set_moments_color_bar(len(moments_mean), "moments", ax=ax)
 
         for index, means in enumerate(moments_mean):
             if index == int(len(moments_mean) / 2) and exact_moments is not None:
-                plt.plot(default_x, exact_moments, 'ro', label="Exact moments")
+                ax.plot(default_x, exact_moments, 'ro', label="Exact moments")
             else:
                 x = x + (1 / ((index+1) * 1.5))
-                plt.errorbar(x, means, yerr=moments_var[index], fmt='o', capsize=3, color=self._moments_cmap(index),
+                ax.errorbar(x, means, yerr=moments_var[index], fmt='o', capsize=3, color=self._moments_cmap(index),
                              label="%dLMC" % n_levels)
 
-        plt.legend()
+        ax.legend()
         plt.show()
 
     def plot_var_regression(self, estimator, n_levels, moments_fn, i_moments=None):
@@ -782,7 +784,7 @@ class BSplots:
         self._moments_cmap = self.set_moments_color_bar(range=moments_fn.size, label="moments", ax=ax)
 
         est_diff_vars, n_samples = estimator.estimate_diff_vars(moments_fn)
-        reg_diff_vars, _ = estimator.estimate_diff_vars_regression(moments_fn) #/ self.n_samples[:, None]
+        reg_diff_vars, _ = estimator.estimate_diff_vars_regression(n_samples, moments_fn) #/ self.n_samples[:, None]
         ref_diff_vars = self._ref_level_var #/ self.n_samples[:, None]
 
         self._scatter_level_moment_data(ax,  ref_diff_vars, i_moments, marker='o')
-- 
2.43.0


From 028542b67b6b8e1c1e0c19118a14a04464c33e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 47/51] fix: Gaussian Fourier field on a line has the given
 correlation length

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 9c7d24f..c087630 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -622,7 +622,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
             rng = self._get_random_stream()
-- 
2.43.0


From 06317c3eef20ac99a5bd4cae7dbc52f956ed3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:42 +0000
Subject: [PATCH 48/51] fix: reference level variances of a bootstrap with
 given numbers of samples

---
 mlmc/estimator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index d45303b..47cbbbb 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -206,7 +206,7 @@ class Estimate:
         self.var_bs_l_means = np.var(bs_l_means, axis=0, ddof=1)
         self.var_bs_l_vars = np.var(bs_l_vars, axis=0, ddof=1)
 
-        self._bs_level_mean_variance = self.var_bs_l_means * np.array(self._sample_storage.get_n_collected())[:, None]
+        self._bs_level_mean_variance = self.var_bs_l_means * sample_vector[:, None]
 
     def bs_target_var_n_estimated(self, target_var, sample_vec=None):
         sample_vec = determine_sample_vec(n_collected_samples=self._sample_storage.get_n_collected(),
-- 
2.43.0


From ba915a3016aa9e387930184e69b8f0df0ad77802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:26 +0000
Subject: [PATCH 49/51] fix: plots of errors with current matplotlib, means
 next to exact moments are all shown

---
 mlmc/plot/plots.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/mlmc/plot/plots.py b/mlmc/plot/plots.py
index 6fc0d69..35f3f41 100644
--- a/mlmc/plot/plots.py
+++ b/mlmc/plot/plots.py
@@ -1045,21 +1045,21 @@ def plot_n_sample_est_distributions(cost, total_std, n_samples):
 
     fig = plt.figure(figsize=(30,10))
     ax1 = fig.add_subplot(1, 3, 1)
-    ax1.hist(cost, normed=1)
+    ax1.hist(cost, density=True)
     ax1.set_xlabel("cost")
     cost_99 = np.percentile(cost, [99])
     ax1.axvline(x=cost_99, label=str(cost_99), c='red')
     ax1.legend()
 
     ax2 = fig.add_subplot(1, 3, 2)
-    ax2.hist(total_std, normed=1)
+    ax2.hist(total_std, density=True)
     ax2.set_xlabel("total var")
     tstd_99 = np.percentile(total_std, [99])
     ax2.axvline(x=tstd_99, label=str(tstd_99), c='red')
     ax2.legend()
 
     ax3 = fig.add_subplot(1, 3, 3)
-    ax3.hist(n_samples, normed=1)
+    ax3.hist(n_samples, density=True)
     ax3.set_xlabel("n_samples")
     ns_99 = np.percentile(n_samples, [99])
     ax3.axvline(x=ns_99, label=str(ns_99), c='red')
@@ -1119,9 +1119,8 @@ def plot_vars(moments_mean, moments_var, n_levels, exact_moments=None, ex_moment
     for index, means in enumerate(moments_mean):
         if index == int(len(moments_mean)/2) and exact_moments is not None:
             plt.plot(default_x, exact_moments, 'ro', label="Exact moments")
-        else:
-            x = x + (1 / (len(moments_mean)*1.5))
-            plt.errorbar(x, means, yerr=moments_var[index], fmt='o', capsize=3, color=next(colors), label="%dLMC" % n_levels[index])
+        x = x + (1 / (len(moments_mean)*1.5))
+        plt.errorbar(x, means, yerr=moments_var[index], fmt='o', capsize=3, color=next(colors), label="%dLMC" % n_levels[index])
 
     if ex_moments is not None:
         plt.plot(default_x-0.125, ex_moments, 'ko', label="Exact moments")
@@ -1270,7 +1269,7 @@ def plot_n_sample_est_distributions(title, cost, total_std, n_samples, rel_momen
 
 
 def plot_error(arr, ax, label):
-    ax.hist(arr, normed=1)
+    ax.hist(arr, density=True)
     ax.set_xlabel(label)
     prc = np.percentile(arr, [99])
     ax.axvline(x=prc, label=str(prc), c='red')
-- 
2.43.0


From 8f295e05afd16b93db3d3338dc9060c8b7dde34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 50/51] fix: reconstruct densities on domains of unit length

---
 mlmc/tool/distribution.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index 4bd2d8d..b1707a7 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -233,7 +233,9 @@ class Distribution:
 
     def extend_size(self, new_size):
         self._last_solved_multipliers = self.multipliers
-        self._stab_penalty = self._reg_param / np.linalg.norm(self.multipliers)
+        # Penalty relative to size of the last solution, zero solution (e.g. of the domain of unit length) sets no scale.
+        norm = np.linalg.norm(self.multipliers)
+        self._stab_penalty = self._reg_param / norm if norm > 0 else 0.0
         #self._stab_penalty = 0.0
 
         self.approx_size = new_size
-- 
2.43.0


From 8a8c2cc194e1aa58d5ab279428ef733c1533d5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:19 +0000
Subject: [PATCH 51/51] fix: density by nonlinear iterations

---
 mlmc/tool/distribution.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index b1707a7..518664f 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -156,14 +156,16 @@ class Distribution:
         result.fun_norm = jac_norm
         return result
 
-    def estimate_density(self, tol=None):
+    def estimate_density(self, tol=1e-5):
         """
         Run nonlinear iterative solver to estimate density, use previous solution as initial guess.
         Faster, but worse stability.
         :return: None
         """
         # Initialize domain, multipliers, ...
-        self._initialize_params(tol)
+        self._reg_param = 0.0
+        self._initialize_params(self.approx_size, tol)
+        self.extend_size(self.approx_size)
 
         result = sc.optimize.root(
             fun=self._calculate_gradient,
-- 
2.43.0

