From bd780be92c2f59750bfa1cb94af313bd449c2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:09 +0000
Subject: [PATCH 01/41] fix: Memory storage counts failures that are the first
 event on a level

---
 mlmc/sample_storage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 01be908..8ef330c 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -199,8 +199,8 @@ class Memory(SampleStorage):
 
             if level_id not in self._n_finished:
                 self._n_finished[level_id] = 0
-            else:
-                self._n_finished[level_id] += len(res)
+
+            self._n_finished[level_id] += len(res)
 
     def save_result_format(self, res_spec: List[QuantitySpec]):
         """
-- 
2.43.0


From e7eacbfa06a74a3f61b0a4aab9ad0872f62ec261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 02/41] fix: Memory storage readers cope with levels that have
 no results yet

---
 mlmc/sample_storage.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 8ef330c..4cf2eb8 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -215,7 +215,8 @@ class Memory(SampleStorage):
         Number of finished samples on each level
         :return: List
         """
-        n_finished = np.empty(max(self._n_finished.items(), key=lambda k: k[0])[0]+1)
+        n_levels = 0 if self._level_parameters is None else len(self._level_parameters)
+        n_finished = np.zeros(max([n_levels, *(level_id + 1 for level_id in self._n_finished)]))
         for level_id, n_fin in self._n_finished.items():
             n_finished[level_id] = n_fin
 
@@ -247,7 +248,7 @@ class Memory(SampleStorage):
         Sample results split to numpy arrays
         :return: List[Array[M, N, 2]]
         """
-        levels_results = list(np.empty(len(self._results)))
+        levels_results = [[] for _ in range(max(self._results, default=-1) + 1)]
 
         for level_id in self.get_level_ids():
             results = self.sample_pairs_level(ChunkSpec(level_id=level_id))
@@ -322,7 +323,7 @@ class Memory(SampleStorage):
         Number of collected samples at each level
         :return: List
         """
-        n_collected = list(np.zeros(len(self._results)))
+        n_collected = [0] * (max(self._results, default=-1) + 1)
         for level_id in self.get_level_ids():
             n_collected[int(level_id)] = len(self._results[int(level_id)])
         return n_collected
-- 
2.43.0


From 24ecc75ebac98dfccdec8e3c9d418cbbf64cfb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 03/41] fix: Memory storage averages the cost over all timed
 samples instead of summing averages

---
 mlmc/sample_storage.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mlmc/sample_storage.py b/mlmc/sample_storage.py
index 4cf2eb8..dbe333e 100644
--- a/mlmc/sample_storage.py
+++ b/mlmc/sample_storage.py
@@ -293,19 +293,20 @@ class Memory(SampleStorage):
         """
         for level, (time, n_samples) in n_ops:
             if level not in self._n_ops:
-                self._n_ops[level] = 0
+                self._n_ops[level] = [0., 0]
 
-            if n_samples != 0:
-                self._n_ops[level] += time/n_samples
+            if n_samples > 0:
+                self._n_ops[level][0] += time
+                self._n_ops[level][1] += n_samples
 
     def get_n_ops(self):
         """
         Get number of operations on each level
         :return: List[float]
         """
-        n_ops = list(np.empty(len(np.max(self._n_ops.keys()))))
-        for level, time in self._n_ops.items():
-            n_ops[level] = time
+        n_ops = [0] * (max(self._n_ops, default=-1) + 1)
+        for level, (time, n_samples) in self._n_ops.items():
+            n_ops[level] = time / n_samples if n_samples > 0 else 0
         return n_ops
 
     def unfinished_ids(self):
-- 
2.43.0


From 1cf381e8515754a5bada9020a95974d464437c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 04/41] fix: HDF storage readers cope with levels that have no
 results yet

---
 mlmc/sample_storage_hdf.py | 9 ++++++---
 mlmc/tool/hdf5.py          | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index 7e5fbef..ea9ac94 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -157,8 +157,11 @@ class SampleStorageHDF(SampleStorage):
         levels_results = list(np.empty(len(self._level_groups)))
 
         for level in self._level_groups:
-            chunk_spec = next(self.chunks(level_id=int(level.level_id),
-                                          n_samples=self.get_n_collected()[int(level.level_id)]))
+            n_collected = level.collected_n_items()
+            if n_collected == 0:
+                levels_results[int(level.level_id)] = []
+                continue
+            chunk_spec = next(self.chunks(level_id=int(level.level_id), n_samples=n_collected))
             results = self.sample_pairs_level(chunk_spec)  # return all samples no chunks
             if results is None or len(results) == 0:
                 levels_results[int(level.level_id)] = []
@@ -243,7 +246,7 @@ class SampleStorageHDF(SampleStorage):
         """
         n_ops = list(np.zeros(len(self._level_groups)))
         for level in self._level_groups:
-            if level.n_ops_estimate[1] > 0:
+            if level.n_ops_estimate is not None and level.n_ops_estimate[1] > 0:
                 n_ops[int(level.level_id)] = level.n_ops_estimate[0] / level.n_ops_estimate[1]
             else:
                 n_ops[int(level.level_id)] = 0
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index f6f3219..810dcae 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -382,7 +382,7 @@ class LevelGroup:
         """
         with h5py.File(self.file_name, 'r') as hdf_file:
             if 'collected_values' not in hdf_file[self.level_group_path]:
-                return AttributeError("collected_values dataset not in HDF file for level {}".format(self.level_id))
+                return 0
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
             collected_n_items = len(dataset[()])
         return collected_n_items
-- 
2.43.0


From e6a3af79a2521177d551c315019806d1f051a711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 05/41] fix: HDF storage accepts error messages with non-ASCII
 characters

---
 mlmc/tool/hdf5.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 810dcae..477d96d 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -325,6 +325,8 @@ class LevelGroup:
         :param failed_samples: set; Level sample ids
         :return: None
         """
+        # HDF strings are bytes, an error message may contain any characters
+        failed_samples = [(sample_id, message.encode("utf-8", "replace")) for sample_id, message in failed_samples]
         self._append_dataset(self.failed_dset, failed_samples)
 
     def _append_dataset(self, dataset_name, values):
-- 
2.43.0


From 860a935400efa8878ffd871ca2237bc65249f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:10 +0000
Subject: [PATCH 06/41] fix: HDF result format with point locations and with
 three character location names

---
 mlmc/sample_storage_hdf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index ea9ac94..eb1f0b7 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -38,7 +38,7 @@ class SampleStorageHDF(SampleStorage):
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
-        if len(locations[0]) == 3:
+        if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
@@ -106,7 +106,7 @@ class SampleStorageHDF(SampleStorage):
         quantities = []
         for res_format in results_format:
             spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() for loc in res_format[4]])
+                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
 
             quantities.append(spec)
 
-- 
2.43.0


From 921534f3edbbcf7b377c957237a6f48ad15fa078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 07/41] fix: samples finished while the pool queues are being
 read are not lost

---
 mlmc/sampling_pool.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 0d40232..67413b6 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -281,13 +281,13 @@ class OneProcessPool(SamplingPool):
     def _queues_to_list(self, queue_dict_list):
         results = {}
         for level_id, q in queue_dict_list:
-            queue_list = list(q.queue)
+            # Thread safe read and clear, results put in the queue in between must not be lost
+            with q.mutex:
+                queue_list = list(q.queue)
+                q.queue.clear()
             if not queue_list:
                 continue
             results[level_id] = queue_list
-            # Thread safe clear
-            with q.mutex:
-                q.queue.clear()
 
             self._n_running -= len(results[level_id])
 
-- 
2.43.0


From fc070e8f9888656b1c158bcf81dcd1d82908eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 08/41] fix: a sample whose result cannot be delivered by the
 worker is a failed sample

---
 mlmc/sampling_pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index 67413b6..fc87f08 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -320,7 +320,8 @@ class ProcessPool(OneProcessPool):
 
         self._pool.apply_async(SamplingPool.calculate_sample, args=(sample_id, level_sim, self._output_dir),
                                callback=lambda res: self.res_callback(res, level_sim),
-                               error_callback=lambda res: self.res_callback(res, level_sim))
+                               error_callback=lambda err: self.res_callback((sample_id, (None, None), repr(err), 0),
+                                                                            level_sim))
 
 
 class ThreadPool(ProcessPool):
-- 
2.43.0


From c4cb7f05de8dcc07509dcb52f284ca22eaab727b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 09/41] fix: local pools report each running time once

---
 mlmc/sampling_pool.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/mlmc/sampling_pool.py b/mlmc/sampling_pool.py
index fc87f08..b26a949 100644
--- a/mlmc/sampling_pool.py
+++ b/mlmc/sampling_pool.py
@@ -4,6 +4,7 @@ import shutil
 import queue
 import time
 import hashlib
+import threading
 import numpy as np
 from typing import List
 import traceback
@@ -215,6 +216,7 @@ class OneProcessPool(SamplingPool):
         self._queues = {}
         self._n_running = 0
         self.times = {}
+        self._times_lock = threading.Lock()
 
     def schedule_sample(self, sample_id, level_sim):
         self._n_running += 1
@@ -258,13 +260,14 @@ class OneProcessPool(SamplingPool):
         :param running_time: float
         :return: None
         """
-        # Save sample times [total time, number of samples]
-        if level_id not in self.times:
-            self.times[level_id] = [0, 0]
-        # Failed samples have running time equal 0 by default
-        if running_time != 0:
-            self.times[level_id][0] += running_time
-            self.times[level_id][1] += 1
+        with self._times_lock:
+            # Save sample times [total time, number of samples]
+            if level_id not in self.times:
+                self.times[level_id] = [0, 0]
+            # Failed samples have running time equal 0 by default
+            if running_time != 0:
+                self.times[level_id][0] += running_time
+                self.times[level_id][1] += 1
 
     def have_permanent_samples(self, sample_ids):
         return False
@@ -276,7 +279,11 @@ class OneProcessPool(SamplingPool):
         successful = self._queues_to_list(list(self._queues.items()))
         failed = self._queues_to_list(list(self._failed_queues.items()))
 
-        return successful, failed, self._n_running, list(self.times.items())
+        # Storage accumulates running times, each of them must be handed over just once
+        with self._times_lock:
+            times, self.times = self.times, {}
+
+        return successful, failed, self._n_running, list(times.items())
 
     def _queues_to_list(self, queue_dict_list):
         results = {}
-- 
2.43.0


From 98faff816ecfddbe61b8ca359818ea4f2c2b8791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 10/41] fix: PBS jobs finished at once are all removed from the
 polled ones and none of the others is skipped

---
 mlmc/sampling_pool_pbs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 01c4128..58e519f 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -306,7 +306,7 @@ class SamplingPoolPBS(SamplingPool):
 
         # Get unfinished as diff between planned and finished
         unfinished_pbs_jobs = []
-        for pbs_id in self._pbs_ids:
+        for pbs_id in list(self._pbs_ids):
             if pbs_id not in finished_pbs_jobs:
                 unfinished_pbs_jobs.append(pbs_id)
             else:
-- 
2.43.0


From 42cae65ea1add31af9aa97d51ee3b2370453b6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 11/41] fix: PBS job numbers of a previous run are not used
 again

---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index 58e519f..e228eab 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -101,8 +101,8 @@ class SamplingPoolPBS(SamplingPool):
         if not files:
             return 0
 
-        job_id = re.findall(r'(\d+)_job.sh', files[-1])[0]
-        return int(job_id) + 1
+        # Files are not listed in any particular order
+        return max(int(re.findall(r'(\d+)_job.sh', file)[0]) for file in files) + 1
 
     def _save_structure(self):
         """
-- 
2.43.0


From b704537fc6376655d99d026747f2c5a8593a10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 12/41] fix: PBS samples waiting for submission count as
 running

---
 mlmc/sampling_pool_pbs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index e228eab..e3d4c7d 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -331,8 +331,8 @@ class SamplingPoolPBS(SamplingPool):
         """
         os.chdir(self._jobs_dir)
 
-        # Get number of running samples
-        n_running = 0
+        # Get number of running samples, including those waiting for a successful qsub call
+        n_running = len(self._scheduled)
         for pbs_id in unfinished_pbs_jobs:
             reg = "*_{}".format(pbs_id)
             file = glob.glob(reg)
-- 
2.43.0


From db6392869c0eb7302ed75e68f6b7ecd1355c8ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:59 +0000
Subject: [PATCH 13/41] fix: PBS samples of an interrupted run are collected
 when their job is over, failed ones included

---
 mlmc/sampling_pool_pbs.py | 79 ++++++++++++++++++++++++++-------------
 mlmc/tool/pbs_job.py      |  6 ++-
 2 files changed, 57 insertions(+), 28 deletions(-)

diff --git a/mlmc/sampling_pool_pbs.py b/mlmc/sampling_pool_pbs.py
index e3d4c7d..63b2c2d 100644
--- a/mlmc/sampling_pool_pbs.py
+++ b/mlmc/sampling_pool_pbs.py
@@ -90,6 +90,8 @@ class SamplingPoolPBS(SamplingPool):
         self._qsub_failed_n = 0
         self._qstat_failed_n = 0
         # Number of failed execution of commands qsub, qstat
+        self._qstat_unfinished_failed_n = 0
+        # Number of failed execution of command qstat for jobs submitted before main process crashed
 
     def _get_job_count(self):
         """
@@ -370,8 +372,7 @@ class SamplingPoolPBS(SamplingPool):
                 SamplingPoolPBS.delete_pbs_id_file(file)
 
         if self._unfinished_sample_ids:
-            successful_results, failed_results, times = self._collect_unfinished(successful_results,
-                                                                                 failed_results, times)
+            n_running += self._collect_unfinished(successful_results, failed_results, times)
 
         return successful_results, failed_results, n_running, list(times.items())
 
@@ -381,41 +382,67 @@ class SamplingPoolPBS(SamplingPool):
         :param successful_results: dict
         :param failed_results: dict
         :param times: dict
-        :return: all input dictionaries
+        :return: int, number of samples of jobs which are still running
         """
-        already_collected = set()
+        unfinished_jobs = {}
         for sample_id in self._unfinished_sample_ids:
-            if sample_id in already_collected:
+            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
+            # Main process could crash before the sample became part of any job
+            if job_id is not None:
+                unfinished_jobs.setdefault(job_id, set()).add(sample_id)
+
+        pbs_id_files = {job_id: glob.glob(os.path.join(self._jobs_dir, "{}_[0-9]*".format(job_id)))
+                        for job_id in unfinished_jobs}
+        running_pbs_jobs = self._running_pbs_jobs([file.rsplit("_", 1)[1] for files in pbs_id_files.values()
+                                                   for file in files])
+
+        n_running = 0
+        self._unfinished_sample_ids = set()
+        for job_id, sample_ids in unfinished_jobs.items():
+            if any(file.rsplit("_", 1)[1] in running_pbs_jobs for file in pbs_id_files[job_id]):
+                # Try it again in the next get_finished() call
+                self._unfinished_sample_ids |= sample_ids
+                n_running += len(sample_ids)
                 continue
 
-            job_id = PbsJob.job_id_from_sample_id(sample_id, self._jobs_dir)
             successful, failed, time = PbsJob.read_results(job_id, self._jobs_dir)
 
             # Split results to levels
-            for level_id, results in successful.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        successful_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in failed_results.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        already_collected.add(res[0])
-                        failed_results.setdefault(level_id, []).append(res)
-
-            for level_id, results in times.items():
-                for res in results:
-                    if res[0] in self._unfinished_sample_ids:
-                        times.setdefault(level_id, []).append(res)
-                times[level_id] = results
+            for collected, job_results in ((successful_results, successful), (failed_results, failed)):
+                for level_id, results in job_results.items():
+                    results = [res for res in results if res[0] in sample_ids]
+                    if results:
+                        collected.setdefault(level_id, []).extend(results)
+
+            for level_id, results in time.items():
+                level_times = times.setdefault(level_id, [0, 0])
+                level_times[0] += results[-1][0]
+                level_times[1] += results[-1][1]
 
             # Delete pbsID file - it means job is finished
-            # SamplingPoolPBS.delete_pbs_id_file(file)
+            for file in pbs_id_files[job_id]:
+                SamplingPoolPBS.delete_pbs_id_file(file)
 
-        self._unfinished_sample_ids = set()
+        return n_running
 
-        return successful_results, failed_results, times
+    def _running_pbs_jobs(self, pbs_ids):
+        """
+        Find jobs submitted before main process crashed which are still in the PBS,
+        qstat does not know jobs which finished long time ago
+        :param pbs_ids: List[str]
+        :return: List[str]
+        """
+        if not pbs_ids:
+            return []
+        process = subprocess.run(["qstat", "-x"] + pbs_ids, stderr=subprocess.PIPE, stdout=subprocess.PIPE)
+        output = process.stdout.decode("ascii")
+        known_jobs = re.findall(r"^\s*(\d+)\.", output, re.MULTILINE)
+        if process.returncode != 0 and not known_jobs:
+            self._qstat_unfinished_failed_n += 1
+            if self._qstat_unfinished_failed_n <= SamplingPoolPBS.QSTAT_FAILED_MAX_N:
+                return pbs_ids
+        finished_jobs = re.findall(r"(\d+)\..*\d+ F", output)
+        return [pbs_id for pbs_id in pbs_ids if pbs_id in known_jobs and pbs_id not in finished_jobs]
 
     def have_permanent_samples(self, sample_ids):
         """
diff --git a/mlmc/tool/pbs_job.py b/mlmc/tool/pbs_job.py
index a39b864..fd05dd0 100644
--- a/mlmc/tool/pbs_job.py
+++ b/mlmc/tool/pbs_job.py
@@ -253,12 +253,14 @@ class PbsJob:
         Get job ID for given sample ID
         :param sample_id: str
         :param jobs_dir: jobs directory with results
-        :return: str, job id
+        :return: str, job id, None if the sample has not become part of any job
         """
         sample_id_job_id_file = os.path.join(jobs_dir, PbsJob.SAMPLE_ID_JOB_ID)
+        if not os.path.exists(sample_id_job_id_file):
+            return None
         with open(sample_id_job_id_file, "r") as file:
             saved_ids = json.load(file)
-        return saved_ids[sample_id]
+        return saved_ids.get(sample_id)
 
     def _append_file(self, data, path):
         """
-- 
2.43.0


From 5f8d5c8b4d1124f94cedfb3704cb35c75ffcf0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 14/41] fix: indexing of arrays with tuple and ellipsis keys,
 of arrays of arrays and of their means

---
 mlmc/quantity/quantity.py       | 9 ++++-----
 mlmc/quantity/quantity_types.py | 7 ++++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index bdeddb9..74782c4 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -642,12 +642,11 @@ class QuantityMean:
         if not isinstance(self.qtype, qt.ArrayType):
             key = slice(start, start + new_qtype.size())
 
-        # Getting items, it performs reshape inside
-        l_means = self.l_means[:, key]
-        l_vars = self.l_vars[:, key]
+        # Getting items, levels stand for samples here
+        l_means = self.qtype._make_getitem_op(self._l_means.T[..., np.newaxis], key)[..., 0].T
+        l_vars = self.qtype._make_getitem_op(self._l_vars.T[..., np.newaxis], key)[..., 0].T
 
-        return QuantityMean(quantity_type=new_qtype, l_means=l_means.reshape((l_means.shape[0], -1)),
-                            l_vars=l_vars.reshape((l_vars.shape[0], -1)), n_samples=self._n_samples,
+        return QuantityMean(quantity_type=new_qtype, l_means=l_means, l_vars=l_vars, n_samples=self._n_samples,
                             n_rm_samples=self._n_rm_samples)
 
 
diff --git a/mlmc/quantity/quantity_types.py b/mlmc/quantity/quantity_types.py
index 41d6ea7..939670e 100644
--- a/mlmc/quantity/quantity_types.py
+++ b/mlmc/quantity/quantity_types.py
@@ -128,10 +128,11 @@ class ArrayType(QType):
         :param key: slice
         :return:
         """
-        # Reshape M to original shape to allow access
+        # Positions of selected items, an item consists of self._qtype.size() values
         assert self._shape is not None
-        chunk = chunk.reshape((*self._shape, chunk.shape[-2], chunk.shape[-1]))
-        return QType.keep_dims(chunk[key])
+        items = np.arange(np.prod(self._shape)).reshape(self._shape)[key]
+        chunk = chunk.reshape((np.prod(self._shape), self._qtype.size(), chunk.shape[-2], chunk.shape[-1]))
+        return QType.keep_dims(chunk[items])
 
     def reshape(self, data):
         if isinstance(self._qtype, ScalarType):
-- 
2.43.0


From 6c676d1b4bd43bcc90bd30a38a2fc7f5a844c793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 15/41] fix: cached samples of a dropped quantity are not
 returned for another one

---
 mlmc/quantity/quantity.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index 74782c4..ce287f1 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -1,3 +1,4 @@
+import itertools
 import operator
 import numpy as np
 import scipy.stats
@@ -33,6 +34,14 @@ def make_root_quantity(storage: SampleStorage, q_specs: List[QuantitySpec]):
 
 
 class Quantity:
+    _instances = itertools.count()
+
+    def __new__(cls, *args, **kwargs):
+        # Unlike id(), the number is never given to another quantity, so cached samples can't be mistaken
+        quantity = super().__new__(cls)
+        quantity._instance_id = next(Quantity._instances)
+        return quantity
+
     def __init__(self, quantity_type, operation, input_quantities=[]):
         """
         Quantity class represents real quantity and also provides operation that can be performed with stored values.
@@ -121,7 +130,7 @@ class Quantity:
         chunk_size = None
         if chunk_spec.chunk_slice is not None:
             chunk_size = chunk_spec.chunk_slice.stop - chunk_spec.chunk_slice.start
-        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, id(self))  # redundant parentheses needed due to py36, py37
+        return (chunk_spec.level_id, chunk_spec.chunk_id, chunk_size, self._instance_id)  # redundant parentheses needed due to py36, py37
 
     @cached(custom_key_maker=get_cache_key)
     def samples(self, chunk_spec):
-- 
2.43.0


From d3a45312f044f76eacad4f5580f03253301c0d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 16/41] fix: subsamples have the required size on levels read
 in several chunks

---
 mlmc/estimator.py         |  2 +-
 mlmc/quantity/quantity.py | 22 ++++++++++++----------
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index af4f6e0..9b0c615 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -183,7 +183,7 @@ class Estimate:
         bs_l_means = []
         bs_l_vars = []
         for i in range(n_subsamples):
-            quantity_subsample = self.quantity.select(self.quantity.subsample(sample_vec=sample_vector))
+            quantity_subsample = self.quantity.subsample(sample_vec=sample_vector)
             moments_quantity = qe.moments(quantity_subsample, moments_fn=moments_fn, mom_at_bottom=False)
             q_mean = qe.estimate_mean(moments_quantity)
 
diff --git a/mlmc/quantity/quantity.py b/mlmc/quantity/quantity.py
index ce287f1..693e11b 100644
--- a/mlmc/quantity/quantity.py
+++ b/mlmc/quantity/quantity.py
@@ -357,15 +357,17 @@ class Quantity:
         # Create a QuantityConst of dictionary in the sense of hashing dictionary items
         quantity_subsample_params = Quantity.wrap(hash(frozenset(subsample_level_params.items())))
 
-        def adjust_value(values, level_id):
+        def adjust_value(values, chunk_spec):
             """
             Custom implementation of QuantityConst.adjust_value()
-            It allows us to get different parameters for different levels
+            It allows us to get different parameters for different levels,
+            the parameters are shared by all chunks of the level
             """
-            subsample_l_params_obj = subsample_level_params[level_id]
-            subsample_l_params_obj.k = subsample_l_params_obj._orig_k
-            subsample_l_params_obj.n = subsample_l_params_obj._orig_n
-            subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
+            subsample_l_params_obj = subsample_level_params[chunk_spec.level_id]
+            if chunk_spec.chunk_id == 0:
+                subsample_l_params_obj.k = subsample_l_params_obj._orig_k
+                subsample_l_params_obj.n = subsample_l_params_obj._orig_n
+                subsample_l_params_obj.total_n = subsample_l_params_obj._orig_total_n
             return subsample_l_params_obj
         quantity_subsample_params._adjust_value = adjust_value
 
@@ -554,12 +556,12 @@ class QuantityConst(Quantity):
         """
         return self._selection_id
 
-    def _adjust_value(self, value, level_id=None):
+    def _adjust_value(self, value, chunk_spec=None):
         """
-        Allows process value based on chunk_epc params (such as level_id, ...).
+        Allows process value based on chunk_spec params (such as level_id, ...).
         The custom implementation is used in Qunatity.subsample method
         :param value: np.ndarray
-        :param level_id: int
+        :param chunk_spec: ChunkSpec
         :return: np.ndarray, particular type depends on implementation
         """
         return value
@@ -571,7 +573,7 @@ class QuantityConst(Quantity):
         :param chunk_spec: object containing chunk identifier level identifier and chunk_slice - slice() object
         :return: np.ndarray
         """
-        return self._adjust_value(self._value, chunk_spec.level_id)
+        return self._adjust_value(self._value, chunk_spec)
 
 
 class QuantityMean:
-- 
2.43.0


From c8b48989dec3e274d64ec73df204f9872e71b770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 17/41] fix: domain estimate reads the samples of every level

---
 mlmc/estimator.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index 9b0c615..fd4d350 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -291,8 +291,9 @@ class Estimate:
             except AttributeError:
                 print("No collected values for level {}".format(level_id))
                 break
-            chunk_spec = next(sample_storage.chunks(n_samples=sample_storage.get_n_collected()[level_id]))
-            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level 0
+            chunk_spec = next(sample_storage.chunks(level_id=level_id,
+                                                   n_samples=sample_storage.get_n_collected()[level_id]))
+            fine_samples = quantity.samples(chunk_spec)[..., 0]  # Fine samples at level level_id
 
             fine_samples = np.squeeze(fine_samples)
             fine_samples = fine_samples[~np.isnan(fine_samples)]  # remove NaN
@@ -349,18 +350,7 @@ def estimate_domain(quantity, sample_storage, quantile=None):
     :param quantile: float in interval (0, 1), None means whole sample range
     :return: lower_bound, upper_bound
     """
-    ranges = []
-    if quantile is None:
-        quantile = 0.01
-
-    for level_id in range(sample_storage.get_n_levels()):
-        fine_samples = quantity.samples(ChunkSpec(level_id=level_id, n_samples=sample_storage.get_n_collected()[0]))[..., 0]
-
-        fine_samples = np.squeeze(fine_samples)
-        ranges.append(np.percentile(fine_samples, [100 * quantile, 100 * (1 - quantile)]))
-
-    ranges = np.array(ranges)
-    return np.min(ranges[:, 0]), np.max(ranges[:, 1])
+    return Estimate.estimate_domain(quantity, sample_storage, quantile=quantile)
 
 
 def estimate_n_samples_for_target_variance(target_variance, prescribe_vars, n_ops, n_levels):
-- 
2.43.0


From ae52b7e6cf82ec415251bf4792fc46760164412c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 18/41] fix: moments of a changed size keep the domain,
 logarithm and clipping; reference domain takes part in equality

---
 mlmc/moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2329566..2705087 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -45,6 +45,7 @@ class Moments:
         return type(self) is type(other) \
                 and self.size == other.size \
                 and np.all(self.domain == other.domain) \
+                and np.all(self.ref_domain == other.ref_domain) \
                 and self._is_log == other._is_log \
                 and self._is_clip == other._is_clip
 
@@ -53,7 +54,7 @@ class Moments:
         Return moment object with different size.
         :param size: int, new number of _moments_fn
         """
-        return self.__class__(size, self.domain, self._is_log, self._is_clip)
+        return self.__class__(size, self.domain, ref_domain=self.ref_domain, log=self._is_log, safe_eval=self._is_clip)
 
     def clip(self, value):
         """
-- 
2.43.0


From 2177903d13d67d164d7881b28924d30c500b7ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 19/41] fix: Fourier moments of arrays of any dimension and of
 a single index

---
 mlmc/moments.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index 2705087..c978af0 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -151,26 +151,17 @@ class Fourier(Moments):
         R = int(size / 2)
         shorter_sin = 1 - int(size % 2)
         k = np.arange(1, R + 1)
-        kx = np.outer(t, k)
+        kx = t[..., np.newaxis] * k
 
-        res = np.empty((len(t), size))
-        res[:, 0] = 1
+        res = np.empty(t.shape + (size,))
+        res[..., 0] = 1
 
         # Odd column index
-        res[:, 1::2] = np.cos(kx[:, :])
+        res[..., 1::2] = np.cos(kx)
         # Even column index
-        res[:, 2::2] = np.sin(kx[:, : R - shorter_sin])
+        res[..., 2::2] = np.sin(kx[..., : R - shorter_sin])
         return res
 
-    def eval(self, i, value):
-        t = self.transform(np.atleast_1d(value))
-        if i == 0:
-            return 1
-        elif i % 2 == 1:
-            return np.sin( (i - 1) / 2 * t)
-        else:
-            return np.cos(i / 2 * t)
-
 
 class Legendre(Moments):
     """
-- 
2.43.0


From 93f5584c5ecf54d1720678b3b121bf2d6cb79a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:20 +0000
Subject: [PATCH 20/41] fix: derivatives of Legendre moments for arrays of any
 dimension

---
 mlmc/moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/moments.py b/mlmc/moments.py
index c978af0..8cf58cf 100644
--- a/mlmc/moments.py
+++ b/mlmc/moments.py
@@ -207,7 +207,7 @@ class Legendre(Moments):
                 coef[-1] = 1
 
             coef = np.polynomial.legendre.legder(coef, degree)
-            eval_values[:, s] = np.polynomial.legendre.legval(value, coef)
+            eval_values[..., s] = np.polynomial.legendre.legval(value, coef)
         return eval_values
 
     def _eval_diff(self, value, size):
-- 
2.43.0


From ecf378146b4fba53bb8df58a069614c751a76e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 21/41] fix: fields sharing one random field object keep their
 own points

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ba83e15..81accaf 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -141,6 +141,8 @@ class Fields:
         # and the given instances of Field can be used by an independent FieldSet instance.
         for field in self.fields_orig:
             new_field = copy.copy(field)
+            # A random field object may be shared by more fields, each of them has its own points.
+            new_field.correlated_field = copy.copy(field.correlated_field)
             if new_field.param_fields:
                 new_field.param_fields = [self._get_field_obj(field, new_field.regions) for field in new_field.param_fields]
             self.fields_dict[new_field.name] = new_field
-- 
2.43.0


From 16cab22f964593ea253b87300cdfb477087b7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 22/41] fix: order of the regions of a field does not permute
 values of its parameters

---
 mlmc/random/correlated_field.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 81accaf..ae36899 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -213,6 +213,8 @@ class Fields:
                 for reg in field.regions:
                     reg_id = region_map[reg]
                     point_ids.extend(reg_points.get(reg_id, []))
+                # Fields on the same regions have the same order of points.
+                point_ids.sort()
                 field.set_points(points[point_ids])
                 field.full_sample_ids = point_ids
             else:
-- 
2.43.0


From 724d3003fa93323dcb1d3a6081390be2be5f12e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 23/41] fix: random field with new points drops the factors of
 the previous points

---
 mlmc/random/correlated_field.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ae36899..6e2a903 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -343,7 +343,8 @@ class RandomFieldBase:
         if sigma is not None:
             self.sigma = sigma
         self.sigma = np.array(self.sigma, dtype=float)
-        assert self.sigma.shape == () or sigma.shape == (len(points),)
+        assert self.sigma.shape == () or self.sigma.shape == (len(points),)
+        self._set_points()
 
     def _set_points(self):
         pass
-- 
2.43.0


From 35c14daacc22dcf41811c84b6e9559ce4730033f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 24/41] fix: physical names are read without the quotes they
 are written with, and with spaces

---
 mlmc/tool/gmsh_io.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c5a3ad3..4ce5cb6 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -117,8 +117,9 @@ class GmshIO:
                     self.current_elem_data[ele_idx] = comp_values
 
                 if readmode == 5:
+                    columns = line.split(None, 2)
                     if len(columns) == 3:
-                        self.physical[str(columns[2])] = (int(columns[1]), int(columns[0]))
+                        self.physical[columns[2].strip('"')] = (int(columns[1]), int(columns[0]))
 
                 if readmode == 4:
                     if len(columns) == 3:
-- 
2.43.0


From e263c8a726a6e646cfa093c6bd39e86ac01f3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 25/41] fix: element data of more components and elements of
 few columns are read

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index 4ce5cb6..c91914c 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -144,7 +144,7 @@ class GmshIO:
                     except ValueError:
                         print('Node format error: ' + line, ERROR)
                         readmode = 0
-                elif ftype == 0 and readmode > 1 and len(columns) > 5:
+                elif ftype == 0 and readmode in (2, 3) and len(columns) > 1:
                     # Version 1.0 or 2.0 Elements
                     try:
                         columns = [int(col) for col in columns]
-- 
2.43.0


From 9082d52ce1f8ee514b8386df92e40da65db9c56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 26/41] fix: write_fields to the file of the mesh

---
 mlmc/tool/gmsh_io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index c91914c..ec68764 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -296,7 +296,7 @@ class GmshIO:
         :param fields: {'field_name' : values_array, ..}
         """
         if not msh_file:
-            msh_file = open(self.filename, 'w')
+            msh_file = self.filename
         with open(msh_file, "w") as fout:
             fout.write('$MeshFormat\n2.2 0 8\n$EndMeshFormat\n')
             for name, values in fields.items():
-- 
2.43.0


From 58685bf2ab4d898a705883fed2e3d78240eba9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:14 +0000
Subject: [PATCH 27/41] fix: mesh files of the format 1.0 are read

---
 mlmc/tool/gmsh_io.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mlmc/tool/gmsh_io.py b/mlmc/tool/gmsh_io.py
index ec68764..9d79782 100644
--- a/mlmc/tool/gmsh_io.py
+++ b/mlmc/tool/gmsh_io.py
@@ -81,6 +81,7 @@ class GmshIO:
             mshfile = open(self.filename, 'r')
 
         readmode = 0
+        ftype = 0  # The format 1.0 has no header and is always ASCII.
         print('Reading %s' % mshfile.name)
         line = 'a'
         while line:
-- 
2.43.0


From 8e06ca619ece916445b0651d7012a71fdf5d24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 28/41] fix: flow simulation on files prepared before knows the
 fields they use

---
 mlmc/tool/flow_mc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 09fc12d..9f278e3 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -172,6 +172,7 @@ class FlowSim(Simulation):
 
         self.mesh_file = os.path.join(common_files_dir, self.MESH_FILE)
 
+        yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
         if self.clean:
             # Prepare mesh
             geo_file = os.path.join(common_files_dir, self.GEO_FILE)
@@ -179,10 +180,12 @@ class FlowSim(Simulation):
             self._make_mesh(geo_file, self.mesh_file, fine_step)  # Common computational mesh for all samples.
 
             # Prepare main input YAML
-            yaml_template = os.path.join(common_files_dir, self.YAML_TEMPLATE)
             shutil.copyfile(self.base_yaml_file, yaml_template)
             yaml_file = os.path.join(common_files_dir, self.YAML_FILE)
             self._substitute_yaml(yaml_template, yaml_file)
+        else:
+            # Files are prepared, just find out which fields they use.
+            self._substitute_yaml(yaml_template, os.devnull)
 
         # Mesh is extracted because we need number of mesh points to determine task_size parameter (see return value)
         fine_mesh_data = self.extract_mesh(self.mesh_file)
-- 
2.43.0


From c397aca8918cebca91b46b7b06efd92578fd29c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:54 +0000
Subject: [PATCH 29/41] fix: fields of a flow sample are determined by the seed
 of the sample

---
 mlmc/random/correlated_field.py | 4 +++-
 mlmc/tool/flow_mc.py            | 4 ++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 6e2a903..02afdc8 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -676,7 +676,9 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         return k
 
     def _get_random_stream(self, seed=None):
-        return rand.RandomState(rand.RandomState(seed).randint(2 ** 16 - 1))
+        # Without a given seed the stream is determined by the global numpy random state.
+        rng = rand if seed is None else rand.RandomState(seed)
+        return rand.RandomState(rng.randint(2 ** 16 - 1))
 
     def random_field(self):
         """
diff --git a/mlmc/tool/flow_mc.py b/mlmc/tool/flow_mc.py
index 9f278e3..ba3d0f5 100644
--- a/mlmc/tool/flow_mc.py
+++ b/mlmc/tool/flow_mc.py
@@ -256,6 +256,10 @@ class FlowSim(Simulation):
 
         # Set random seed, seed is calculated from sample id, so it is not user defined
         np.random.seed(seed)
+        for field in fields.fields:
+            # GSTools fields do not use the numpy random state
+            if isinstance(field.correlated_field, cf.GSToolsSpatialCorrelatedField):
+                field.correlated_field.change_srf(seed)
         # Generate random samples
         fine_input_sample, coarse_input_sample = FlowSim.generate_random_sample(fields, coarse_step=coarse_step,
                                                                                 n_fine_elements=len(
-- 
2.43.0


From 08cb7f29da2b5b78cc104597a715488ab8b30ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 30/41] fix: distribution function at points in any order, also
 after points out of the domain

---
 mlmc/tool/distribution.py        | 4 ++--
 mlmc/tool/simple_distribution.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mlmc/tool/distribution.py b/mlmc/tool/distribution.py
index e377607..46091a3 100644
--- a/mlmc/tool/distribution.py
+++ b/mlmc/tool/distribution.py
@@ -202,9 +202,9 @@ class Distribution:
 
         for i, val in enumerate(values):
             if val <= self.domain[0]:
-                last_y = 0
+                last_x, last_y = self.domain[0], 0
             elif val >= self.domain[1]:
-                last_y = 1
+                last_x, last_y = self.domain[1], 1
             else:
                 dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
                 last_x = val
diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index 77513f6..a9959df 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -114,9 +114,9 @@ class SimpleDistribution:
 
         for i, val in enumerate(values):
             if val <= self.domain[0]:
-                last_y = 0
+                last_x, last_y = self.domain[0], 0
             elif val >= self.domain[1]:
-                last_y = 1
+                last_x, last_y = self.domain[1], 1
             else:
                 dy = integrate.fixed_quad(self.density, last_x, val, n=10)[0]
                 last_x = val
-- 
2.43.0


From c3efc1b2535a4152bea357cb05a988acffb47d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:48 +0000
Subject: [PATCH 31/41] fix: normalization of the estimated density divides by
 its integral

---
 mlmc/tool/simple_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/simple_distribution.py b/mlmc/tool/simple_distribution.py
index a9959df..252c029 100644
--- a/mlmc/tool/simple_distribution.py
+++ b/mlmc/tool/simple_distribution.py
@@ -83,7 +83,7 @@ class SimpleDistribution:
         m0 = sc.integrate.quad(self.density, self.domain[0], self.domain[1])[0]
         if self._verbose:
             print("moment[0]: {} m0: {}".format(moment_0, m0))
-        self.multipliers[0] -= np.log(moment_0)
+        self.multipliers[0] += np.log(moment_0) * self._moment_errs[0]
 
         if result.success or jac_norm < tol:
             result.success = True
-- 
2.43.0


From aa26a9e24e59611693963740765e6f2f7db251d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:01 +0000
Subject: [PATCH 32/41] fix: one-dimensional Fourier fields have the requested
 correlation

---
 mlmc/random/correlated_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 02afdc8..3320c10 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -621,7 +621,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k[0] = rng.normal(0., np.pi / 2.0 / len_scale ** 2, mode_no)
+            k[0] = rng.normal(0., np.sqrt(np.pi / 2.0) / len_scale, mode_no)
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
             rng = self._get_random_stream()
@@ -643,7 +643,7 @@ class FourierSpatialCorrelatedField(RandomFieldBase):
         if self.dim == 1:
             k = self._create_empty_k(mode_no)
             rng = self._get_random_stream()
-            k_u = rng.rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
+            k_u = rng.uniform(-np.pi / 2.0, np.pi / 2.0, mode_no)
             k[0] = np.tan(k_u) / self.len_scale
         elif self.dim == 2:
             coord = self._sample_sphere(mode_no)
-- 
2.43.0


From ff52f423ead4b047de7d09350ac3ef96ef45372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:49 +0000
Subject: [PATCH 33/41] fix: stored result format is compared including order
 and number of locations

---
 mlmc/sample_storage_hdf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index eb1f0b7..e137fd9 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -92,7 +92,11 @@ class SampleStorageHDF(SampleStorage):
         :return: None
         """
         try:
-            if self.load_result_format() != result_format:
+            stored_format = self.load_result_format()
+            # Equality of quantity specifications does not consider order and number of locations
+            if stored_format != result_format or \
+                    any([loc if isinstance(loc, str) else tuple(loc) for loc in spec.locations] != stored.locations
+                        for spec, stored in zip(result_format, stored_format)):
                 raise ValueError('You are setting a new different result format for an existing sample storage')
         except AttributeError:
             pass
-- 
2.43.0


From 5169e9963b776ea443b12c217ff6c840db494d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 34/41] fix: result format of quantities with different numbers
 of times or locations is stored in HDF

---
 mlmc/sample_storage_hdf.py | 11 ++++++++---
 mlmc/tool/hdf5.py          | 10 ++++++++--
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index e137fd9..b1473d4 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -62,7 +62,9 @@ class SampleStorageHDF(SampleStorage):
         :param result_format: simulation result format
         :return: None
         """
-        res_dtype = self._hdf_result_format(result_format[0].locations, result_format[0].times)
+        # Quantities may have different numbers of times and locations
+        res_dtype = self._hdf_result_format(max((spec.locations for spec in result_format), key=len),
+                                            max((spec.times for spec in result_format), key=len))
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
@@ -109,8 +111,11 @@ class SampleStorageHDF(SampleStorage):
         results_format = self._hdf_object.load_result_format()
         quantities = []
         for res_format in results_format:
-            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], res_format[3],
-                                [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]])
+            # Unused times and locations, see HDF5.save_result_format
+            times = res_format[3][~np.isnan(res_format[3])]
+            locations = [loc.decode() if isinstance(loc, bytes) else tuple(loc) for loc in res_format[4]
+                         if not (loc == hdf.HDF5.NO_LOCATION if isinstance(loc, bytes) else np.isnan(loc).all())]
+            spec = QuantitySpec(res_format[0].decode(), res_format[1].decode(), res_format[2], times, locations)
 
             quantities.append(spec)
 
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 477d96d..ba61ba0 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -44,6 +44,9 @@ class HDF5:
                                 mashape: (None, 1)
                                 chunks: True
     """
+    # Fills unused locations of quantities with fewer locations than others, it is not a valid string
+    NO_LOCATION = b"\xff"
+
     def __init__(self, file_path, load_from_file=False):
         """
         Create HDF5 class instance
@@ -152,8 +155,11 @@ class HDF5:
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
             for attribute in list(quantity_spec.__dict__.keys()):
-                if isinstance(getattr(quantity_spec, attribute), (tuple, list)):
-                    res[attribute][:] = getattr(quantity_spec, attribute)
+                if isinstance(getattr(quantity_spec, attribute), (tuple, list, np.ndarray)):
+                    # Rest of the row is unused, quantities may have different numbers of times and locations
+                    if attribute in ('times', 'locations'):
+                        res[attribute][:] = HDF5.NO_LOCATION if res[attribute].dtype.kind == 'S' else np.nan
+                    res[attribute][:len(getattr(quantity_spec, attribute))] = getattr(quantity_spec, attribute)
                 else:
                     res[attribute] = getattr(quantity_spec, attribute)
 
-- 
2.43.0


From 396d47799d3233cf3d75b12f0aaff504e2503aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 35/41] fix: names in a result format of any length and
 characters are stored in HDF

---
 mlmc/sample_storage_hdf.py | 14 +++++++++-----
 mlmc/tool/hdf5.py          |  8 ++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/mlmc/sample_storage_hdf.py b/mlmc/sample_storage_hdf.py
index b1473d4..a50a8b7 100644
--- a/mlmc/sample_storage_hdf.py
+++ b/mlmc/sample_storage_hdf.py
@@ -33,20 +33,21 @@ class SampleStorageHDF(SampleStorage):
                 for i_level in range(len(self._hdf_object.level_parameters)):
                     self._level_groups.append(self._hdf_object.add_level_group(str(i_level)))
 
-    def _hdf_result_format(self, locations, times):
+    def _hdf_result_format(self, locations, times, str_len=50):
         """
         QuantitySpec data type, necessary for hdf storage
         :return:
         """
+        str_dtype = 'S{}'.format(str_len)
         if not isinstance(locations[0], str) and len(locations[0]) == 3:
             tuple_dtype = np.dtype((np.float, (3,)))
             loc_dtype = np.dtype((tuple_dtype, (len(locations),)))
         else:
-            loc_dtype = np.dtype(('S50', (len(locations),)))
+            loc_dtype = np.dtype((str_dtype, (len(locations),)))
 
         result_dtype = {'names': ('name', 'unit', 'shape', 'times', 'locations'),
-                        'formats': ('S50',
-                                    'S50',
+                        'formats': (str_dtype,
+                                    str_dtype,
                                     np.dtype((np.int32, (2,))),
                                     np.dtype((np.float, (len(times),))),
                                     loc_dtype
@@ -64,7 +65,10 @@ class SampleStorageHDF(SampleStorage):
         """
         # Quantities may have different numbers of times and locations
         res_dtype = self._hdf_result_format(max((spec.locations for spec in result_format), key=len),
-                                            max((spec.times for spec in result_format), key=len))
+                                            max((spec.times for spec in result_format), key=len),
+                                            max([50] + [len(item.encode()) for spec in result_format
+                                                        for item in [spec.name, spec.unit, *spec.locations]
+                                                        if isinstance(item, str)]))
 
         # Create file structure
         self._hdf_object.create_file_structure(level_parameters)
diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index ba61ba0..4f3854b 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -154,14 +154,14 @@ class HDF5:
         # Format data
         result_array = np.empty((len(result_format),), dtype=result_format_dtype)
         for res, quantity_spec in zip(result_array, result_format):
-            for attribute in list(quantity_spec.__dict__.keys()):
-                if isinstance(getattr(quantity_spec, attribute), (tuple, list, np.ndarray)):
+            for attribute, value in quantity_spec.__dict__.items():
+                if isinstance(value, (tuple, list, np.ndarray)):
                     # Rest of the row is unused, quantities may have different numbers of times and locations
                     if attribute in ('times', 'locations'):
                         res[attribute][:] = HDF5.NO_LOCATION if res[attribute].dtype.kind == 'S' else np.nan
-                    res[attribute][:len(getattr(quantity_spec, attribute))] = getattr(quantity_spec, attribute)
+                    res[attribute][:len(value)] = [item.encode() if isinstance(item, str) else item for item in value]
                 else:
-                    res[attribute] = getattr(quantity_spec, attribute)
+                    res[attribute] = value.encode() if isinstance(value, str) else value
 
         # Write to file
         with h5py.File(self.file_name, 'a') as hdf_file:
-- 
2.43.0


From 6d8a66adde58163182cb9a56399c8609815c906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 36/41] fix: decomposition of a field uses all allowed terms
 before it gives up its precision

---
 mlmc/random/correlated_field.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index 3320c10..ed93423 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -480,7 +480,9 @@ class SpatialCorrelatedField(RandomFieldBase):
                 #print("treshold: {} m: {} precision: {} max_m: {}".format(threshold,  m, precision, range[1]))
                 U, ev, VT = randomized_svd(self.cov_mat, n_components=m, n_iter=3, random_state=None)
                 threshold = ev[-1] / ev[0]
-                m = int(np.ceil(1.5 * m))
+                if m == range[1]:
+                    break
+                m = min(int(np.ceil(1.5 * m)), range[1])
 
             m = len(ev)
             m = min(m, range[1])
-- 
2.43.0


From b111efb9bb1c76270b69a38694eaea8e2cd5fb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:45 +0000
Subject: [PATCH 37/41] fix: number of terms of a field of small deviation is
 found by bisection

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index ed93423..cd9d2e5 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -471,7 +471,7 @@ class SpatialCorrelatedField(RandomFieldBase):
                 m = range[1]
             else:
                 f = lambda m: self._eigen_value_estimate(m) - precision
-                m = sp.optmize.bisect(f, range[0], range[1], xtol=0.5, )
+                m = int(np.ceil(sp.optimize.bisect(f, range[0], range[1], xtol=0.5, )))
 
             m = max(m, range[0])
             threshold = 2 * precision
-- 
2.43.0


From 898c0038549214315fe8348ec6e72b02e61d327a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 38/41] fix: chunk of the first n samples ends with the samples
 collected

Asking an HDF storage for more samples than collected named a chunk that did
not change when further samples arrived, so values cached for it went stale.
---
 mlmc/tool/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/tool/hdf5.py b/mlmc/tool/hdf5.py
index 4f3854b..33d6682 100644
--- a/mlmc/tool/hdf5.py
+++ b/mlmc/tool/hdf5.py
@@ -365,7 +365,7 @@ class LevelGroup:
             dataset = hdf_file["/".join([self.level_group_path, "collected_values"])]
 
             if n_samples is not None:
-                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, n_samples, 1), level_id=int(self.level_id))
+                yield ChunkSpec(chunk_id=0, chunk_slice=slice(0, min(n_samples, len(dataset)), 1), level_id=int(self.level_id))
             else:
                 for chunk_id, chunk in enumerate(dataset.iter_chunks()):
                     yield ChunkSpec(chunk_id=chunk_id, chunk_slice=chunk[0], level_id=int(self.level_id))  # slice, level_id
-- 
2.43.0


From 1d8014faa41f25ed941ad2f6eeb097097c84684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:49 +0000
Subject: [PATCH 39/41] fix: t_test accepts samples whose mean is not rejected

The assertion was inverted (compare chi2_test): it failed for samples with the
tested mean and passed for all others.
---
 mlmc/tool/stats_tests.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlmc/tool/stats_tests.py b/mlmc/tool/stats_tests.py
index 8fe5625..9309c0e 100644
--- a/mlmc/tool/stats_tests.py
+++ b/mlmc/tool/stats_tests.py
@@ -8,13 +8,13 @@ def t_test(mu_0, samples, max_p_val=0.01):
     failures with probability max_p_val.
 
     Perform the two-tailed t-test and
-    Assert that p-val is smaller then given value.
+    Assert that p-val is greater than given value.
     :param mu_0: Exact mean.
     :param samples: Samples to test.
     :param max_p_val: Probability of failed t-test for correct samples.
     """
     T, p_val = st.ttest_1samp(samples, mu_0)
-    assert p_val < max_p_val
+    assert p_val > max_p_val
 
 
 def chi2_test(var_0, samples, max_p_val=0.01, tag=""):
-- 
2.43.0


From 72f68a7c022e9fff48d56c008278b03e20eae065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 40/41] fix: Estimate.estimate_diff_vars without moment
 functions uses those of the estimator

---
 mlmc/estimator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mlmc/estimator.py b/mlmc/estimator.py
index fd4d350..758a2be 100644
--- a/mlmc/estimator.py
+++ b/mlmc/estimator.py
@@ -81,6 +81,9 @@ class Estimate:
             diff_variance - shape LxR, variances of diffs of moments_fn
             n_samples -  shape L, num samples for individual levels.
         """
+        if moments_fn is None:
+            moments_fn = self._moments_fn
+
         moments_mean = qe.estimate_mean(qe.moments(self._quantity, moments_fn))
         return moments_mean.l_vars, moments_mean.n_samples
 
-- 
2.43.0


From ff5cf809eff35ce29ae570d8297d5139e2472e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:24 +0000
Subject: [PATCH 41/41] fix: Fields.set_points without regions of the points,
 as documented

---
 mlmc/random/correlated_field.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlmc/random/correlated_field.py b/mlmc/random/correlated_field.py
index cd9d2e5..38c741c 100644
--- a/mlmc/random/correlated_field.py
+++ b/mlmc/random/correlated_field.py
@@ -200,7 +200,7 @@ class Fields:
         :return:
         """
         self.n_elements = len(points)
-        assert len(points) == len(region_ids)
+        assert len(region_ids) in (0, len(points))
         reg_points = {}
         for i, reg_id in enumerate(region_ids):
             reg_list = reg_points.get(reg_id, [])
-- 
2.43.0

