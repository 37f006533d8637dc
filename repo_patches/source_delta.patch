From d80a8417d5baf91a9a9bbcd8bd10dcaf65710ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:45 +0000
Subject: [PATCH 01/36] fix: receive job results before joining the worker and
 reap killed workers

A result larger than the pipe buffer blocked the worker until the parent
read the queue, which it only did after joining the worker: without a
timeout the pool never finished, with a timeout the finished job was
reported as timed out. A killed worker was not waited for, so it could
still be running (and writing) while the timeout fallback was executed.
---
 smote_variants/evaluation/_parallelization.py | 64 ++++++++++++-------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 8fef4d7..4c5603f 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -89,6 +89,17 @@ def execute_job_object(job, queue, queue_lock):
     queue_lock.release()
 
 
+def execute_job_connection(job, connection):
+    """
+    Execute a job object and send the result through a connection
+
+    Args:
+        job: the job object
+        connection (multiprocessing.connection.Connection): the connection
+    """
+    connection.send(job.execute())
+
+
 def queue_get_default(queue, job):
     """
     Return the content of the queue if available, otherwise return
@@ -119,44 +130,49 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         timeout (float/None): the timeout time in seconds, None/negative
                                 means no timeout
     """
-    # creating the queue used to communicate with the process
-    queue = multiprocessing.Queue()
-
-    queue_lock = multiprocessing.Lock()
+    # creating the pipe used to communicate with the process
+    reader, writer = multiprocessing.Pipe(duplex=False)
 
     # creating and executing the process with timeout
     process = multiprocessing.Process(
-        target=execute_job_object,
-        kwargs={"job": job, "queue": queue, "queue_lock": queue_lock},
+        target=execute_job_connection,
+        kwargs={"job": job, "connection": writer},
     )
 
     process.start()
 
-    process_start_lock.release()
-
-    if timeout is not None and timeout > 0:
-        process.join(timeout)
-    else:
-        process.join()
+    # only the process holds the writing end, so its death is seen as the
+    # end of the stream
+    writer.close()
 
-    # if the process finished normally, the result is written into
-    # the results output argument
-    if not process.is_alive():
-        results[idx] = queue_get_default(queue, job)
+    process_start_lock.release()
 
-        return
+    if timeout is not None and timeout <= 0:
+        timeout = None
 
-    # remove anything from the queue to prevent deadlock
+    # the result needs to be received before waiting for the process, as
+    # large results can be written only if they are consumed
+    received = False
     try:
-        queue_lock.acquire()
-        results[idx] = queue.get(block=False)
-    except Empty:
+        if reader.poll(timeout):
+            results[idx] = reader.recv()
+            received = True
+    except EOFError:
         pass
+    finally:
+        reader.close()
 
-    # if the process is still running, the process is killed and
-    # the timeout function is executed for potential clean-up
+    # waiting for the process if it finished normally, otherwise killing
+    # it, and making sure it is gone before the clean-up
+    if received:
+        process.join(timeout)
     process.kill()
-    results[idx] = job.timeout()
+    process.join()
+
+    # if there is no result, the timeout function is executed for
+    # potential clean-up
+    if not received:
+        results[idx] = job.timeout()
 
 
 def wait_for_lock(lock):
-- 
2.43.0


From 3bbdd5f798be35d608dac820bb2eee2837996523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:09:35 +0000
Subject: [PATCH 02/36] fix: a failing process creation must not block the job
 pool forever

The lock serialising process creation was released only after a successful
start, so an OSError raised by the pipe or fork (EAGAIN, ENOMEM, EMFILE)
left every pooling thread waiting for it. The job is now given its timeout
fallback like any other job whose process died.
---
 smote_variants/evaluation/_parallelization.py | 33 ++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 4c5603f..3e722f7 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -130,22 +130,31 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         timeout (float/None): the timeout time in seconds, None/negative
                                 means no timeout
     """
-    # creating the pipe used to communicate with the process
-    reader, writer = multiprocessing.Pipe(duplex=False)
+    try:
+        # creating the pipe used to communicate with the process
+        reader, writer = multiprocessing.Pipe(duplex=False)
 
-    # creating and executing the process with timeout
-    process = multiprocessing.Process(
-        target=execute_job_connection,
-        kwargs={"job": job, "connection": writer},
-    )
+        # creating and executing the process with timeout
+        process = multiprocessing.Process(
+            target=execute_job_connection,
+            kwargs={"job": job, "connection": writer},
+        )
 
-    process.start()
+        process.start()
 
-    # only the process holds the writing end, so its death is seen as the
-    # end of the stream
-    writer.close()
+        # only the process holds the writing end, so its death is seen as the
+        # end of the stream
+        writer.close()
+    except OSError:
+        # the process could not be created, the job is treated like one
+        # with a process that died
+        process = None
+    finally:
+        process_start_lock.release()
 
-    process_start_lock.release()
+    if process is None:
+        results[idx] = job.timeout()
+        return
 
     if timeout is not None and timeout <= 0:
         timeout = None
-- 
2.43.0


From 990311c354e18961a6d9893c49fe46eef8ed5fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 03/36] fix: score the scaled test part, not the raw one

SamplingJob fitted the scaler on the training part and scaled both parts,
but then passed the unscaled test part to the oversampler's transformation,
so classifiers were trained on scaled and scored on raw features (only the
error and time-out paths used the scaled test part).
---
 smote_variants/evaluation/_sampling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index fbe1539..065b7a9 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -160,7 +160,7 @@ class SamplingJob(TimeoutJobBase):
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
-                X_test = oversampler_obj.preprocessing_transform(folding["X_test"])
+                X_test = oversampler_obj.preprocessing_transform(X_test)
                 oversampling = {
                     **oversampling,
                     "X_train": X_samp,
-- 
2.43.0


From aa2f9b32e687627fe7d765f98275fd003fb5d466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 04/36] fix: every fold carries its own descriptor

fold() yielded the same, mutated descriptor dictionary for all folds, so a
fold still waiting to be pickled for a worker reported the indices of a
later fold.
---
 smote_variants/evaluation/_folding.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 644ff9c..66501c7 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -126,7 +126,7 @@ class Folding:
                 "y_train": target[train],
                 "X_test": data[test],
                 "y_test": target[test],
-                "fold_descriptor": properties,
+                "fold_descriptor": properties.copy(),
             }
 
             yield folding
-- 
2.43.0


From 92b2e1d214f44a60aa9148b09572af5e33960534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:16 +0000
Subject: [PATCH 05/36] fix: a timed-out oversampling keeps its configuration's
 identity

The time-out path stored the bare get_params() where the normal path stores
get_params() coalesced with the requested parameters, so timed-out folds
were aggregated as a different configuration.
---
 smote_variants/evaluation/_sampling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 065b7a9..567ea4a 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -245,7 +245,9 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
-            "oversampler": oversampler_obj.get_params(),
+            "oversampler": coalesce_dict(
+                oversampler_obj.get_params(), self.oversampler_params
+            ),
         }
 
         oversampling = {
-- 
2.43.0


From aa5eeac7be8e85ff5d797038387f3b307dea5ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:41 +0000
Subject: [PATCH 06/36] fix: incomplete pickle files are damaged

check_if_damaged only recognised missing files and JSON errors; a truncated
pickle file left by an interrupted evaluation made every later call fail.
---
 smote_variants/base/_base.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5f93a8a..5a5b133 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -283,7 +283,18 @@ def check_if_damaged(filename, serialization="json"):
         load_dict(filename, serialization)
     except FileNotFoundError:
         damaged = True
-    except JSONDecodeError:
+    except (JSONDecodeError, UnicodeDecodeError):
+        damaged = True
+    except (
+        pickle.UnpicklingError,
+        EOFError,
+        AttributeError,
+        ImportError,
+        IndexError,
+        KeyError,
+        TypeError,
+    ):
+        # the errors unpickling an incomplete file can lead to
         damaged = True
 
     return damaged
-- 
2.43.0


From e056a9fff499f35dafb3f8145342b071b634a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:02 +0000
Subject: [PATCH 07/36] fix: store cache files atomically

A file was written under its final name, so a power loss between writing and
fsync could leave a pickle whose missing blocks read as zeros: it still
loads, passes the damage check, and silently changes the results of the
restarted evaluation. Write to a temporary file, synchronise it, and only
then move it to its name.
---
 smote_variants/base/_base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 5a5b133..edaec63 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -244,24 +244,27 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
     if serialization is None:
         serialization = filename.split(".")[-1]
 
+    # the file appears under its name only when it is complete
+    tmp_filename = f"{filename}.tmp"
+
     if serialization == "json":
         for key in array_to_list_map:
             obj[key] = obj[key].astype(float).tolist()
-        if os.path.exists(filename):
-            os.remove(filename)
 
-        with open(filename, "wt", encoding="UTF-8") as file:
+        with open(tmp_filename, "wt", encoding="UTF-8") as file:
             json_string = json.dumps(obj)
             file.write(json_string)
             file.flush()
             os.fsync(file)
             file.close()
+        os.replace(tmp_filename, filename)
     elif serialization == "pickle":
-        with open(filename, "wb") as file:
+        with open(tmp_filename, "wb") as file:
             pickle.dump(obj, file)
             file.flush()
             os.fsync(file)
             file.close()
+        os.replace(tmp_filename, filename)
     else:
         raise ValueError(f"serialization {serialization} is not supported")
 
-- 
2.43.0


From 3969ce3c67f48d2529d076e1faaf611df24735da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:28 +0000
Subject: [PATCH 08/36] fix: measure runtimes with a clock that cannot be set
 back

Runtimes were differences of the wall clock, so a clock adjustment during a
job made the reported runtime arbitrarily wrong, even negative (which marks
a time-out).
---
 smote_variants/evaluation/_evaluation.py | 4 ++--
 smote_variants/evaluation/_sampling.py   | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b6058c9..2a3c70b 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -131,7 +131,7 @@ class EvaluationJob:
             error = None
             warning_list = None
 
-            begin_timestamp = time.time()
+            begin_timestamp = time.perf_counter()
 
             with warnings.catch_warnings(record=True) as warning:
                 try:
@@ -158,7 +158,7 @@ class EvaluationJob:
                 "oversampling_filname": self.oversampling
                 if isinstance(self.oversampling, str)
                 else None,
-                "runtime": time.time() - begin_timestamp,
+                "runtime": time.perf_counter() - begin_timestamp,
                 "y_pred": y_pred[:, 1],
                 "y_test": oversampling["y_test"],
                 "scores": calculate_all_scores(oversampling["y_test"], y_pred[:, 1]),
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index 567ea4a..c3a2303 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -156,7 +156,7 @@ class SamplingJob(TimeoutJobBase):
             ),
         }
 
-        begin_timestamp = time.time()
+        begin_timestamp = time.perf_counter()
         with warnings.catch_warnings(record=True) as warning:
             try:
                 X_samp, y_samp = oversampler_obj.sample(X_train, y_train)
@@ -166,7 +166,7 @@ class SamplingJob(TimeoutJobBase):
                     "X_train": X_samp,
                     "y_train": y_samp,
                     "X_test": X_test,
-                    "runtime": time.time() - begin_timestamp,
+                    "runtime": time.perf_counter() - begin_timestamp,
                     "error": None,
                     "warning": None,
                 }
@@ -176,7 +176,7 @@ class SamplingJob(TimeoutJobBase):
                     "X_train": X_train,
                     "y_train": y_train,
                     "X_test": X_test,
-                    "runtime": time.time() - begin_timestamp,
+                    "runtime": time.perf_counter() - begin_timestamp,
                     "error": str(error),
                 }
             except RuntimeError as error:
@@ -185,7 +185,7 @@ class SamplingJob(TimeoutJobBase):
                     "X_train": X_train,
                     "y_train": y_train,
                     "X_test": X_test,
-                    "runtime": time.time() - begin_timestamp,
+                    "runtime": time.perf_counter() - begin_timestamp,
                     "error": str(error),
                 }
 
-- 
2.43.0


From 7d27991e2df1a720b796c8f7fd415491f5374644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:28 +0000
Subject: [PATCH 09/36] fix: cached results are only reused for the request
 they answer

The names of cached oversamplings and evaluations did not depend on the
scaler or on the data of the fold, so a later call on the same cache
directory with another scaler, another validator setting or other data under
the same dataset name silently returned the results of the earlier call.
---
 smote_variants/evaluation/_evaluation.py |  3 ++-
 smote_variants/evaluation/_sampling.py   | 27 ++++++++++++++++++++++--
 2 files changed, 27 insertions(+), 3 deletions(-)

diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index 2a3c70b..b12b937 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -82,8 +82,9 @@ class EvaluationJob:
 
         label0 = str(classifier).encode("utf-8")
         label1 = str((oversampling["oversampler"])).encode("utf-8")
+        label2 = str(oversampling.get("request_hash")).encode("utf-8")
 
-        hashcode = str(hashlib.md5(label0 + label1).hexdigest())
+        hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
 
         damaged = False
         if self.cache_path is not None:
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index c3a2303..a0bf2b5 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -7,6 +7,8 @@ import os
 import hashlib
 import warnings
 
+import numpy as np
+
 from ..base import (
     instantiate_obj,
     load_dict,
@@ -77,6 +79,26 @@ class SamplingJob(TimeoutJobBase):
             "reset": self.reset,
         }
 
+    def request_hash(self, folding):
+        """
+        Determine the hash of everything the oversampling depends on.
+
+        Args:
+            folding (obj): a folding
+
+        Returns:
+            str: the hash of the request
+        """
+        label = str((self.oversampler, self.oversampler_params, self.scaler))
+        hashcode = hashlib.md5(label.encode("utf-8"))
+
+        for key in ["X_train", "y_train", "X_test", "y_test"]:
+            array = np.asarray(folding[key]).astype(float)
+            hashcode.update(str(array.shape).encode("utf-8"))
+            hashcode.update(array.tobytes())
+
+        return hashcode.hexdigest()
+
     def target_filename_damaged(self, folding):
         """
         Determine the target filename and whether it is damaged.
@@ -89,8 +111,7 @@ class SamplingJob(TimeoutJobBase):
         """
         target_filename = None
 
-        label = str((self.oversampler, self.oversampler_params)).encode("utf-8")
-        hashcode = str(hashlib.md5(label).hexdigest())
+        hashcode = self.request_hash(folding)
 
         damaged = False
         if self.cache_path is not None:
@@ -151,6 +172,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "request_hash": self.request_hash(folding),
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
@@ -245,6 +267,7 @@ class SamplingJob(TimeoutJobBase):
         oversampling = {
             "fold_descriptor": folding["fold_descriptor"],
             "y_test": folding["y_test"],
+            "request_hash": self.request_hash(folding),
             "oversampler": coalesce_dict(
                 oversampler_obj.get_params(), self.oversampler_params
             ),
-- 
2.43.0


From bcc8c8d3cc55f4370bbf236fb55c365971eadfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:28 +0000
Subject: [PATCH 10/36] fix: the fold files are those of this folding

folding_files() returned every fold file of the directory, so the folds of an
earlier evaluation with more repeats or splits were evaluated again.
---
 smote_variants/evaluation/_folding.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 66501c7..0fc2f24 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -3,7 +3,6 @@ This module implements the folding abstraction.
 """
 
 import os
-import glob
 import shutil
 
 import numpy as np
@@ -88,15 +87,19 @@ class Folding:
         Returns:
             list: the list of fold filenames
         """
-        if self.serialization == "json":
-            path = os.path.join(self.folding_dir_path, "fold_*.json")
-        elif self.serialization == "pickle":
-            path = os.path.join(self.folding_dir_path, "fold_*.pickle")
+        files = [
+            os.path.join(
+                self.folding_dir_path,
+                f"fold_{repeat_idx:04}_{fold_idx:04}.{self.serialization}",
+            )
+            for repeat_idx in range(self.validator_params["n_repeats"])
+            for fold_idx in range(self.validator_params["n_splits"])
+        ]
 
-        if len(glob.glob(path)) == 0:
+        if not all(os.path.exists(file) for file in files):
             self.cache_foldings()
 
-        return sorted(glob.glob(path))
+        return files
 
     def fold(self):
         """
-- 
2.43.0


From 739ba5a60d11c185f1cabecca88cb4ceb20515a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 11/36] fix: cached results carry the fold description of their
 own request

The first folds of validators differing in the number of repeats hold the
same data, so a reused entry described the folding of the earlier call.
---
 smote_variants/evaluation/_sampling.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index a0bf2b5..d914807 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -89,7 +89,14 @@ class SamplingJob(TimeoutJobBase):
         Returns:
             str: the hash of the request
         """
-        label = str((self.oversampler, self.oversampler_params, self.scaler))
+        label = str(
+            (
+                self.oversampler,
+                self.oversampler_params,
+                self.scaler,
+                folding["fold_descriptor"],
+            )
+        )
         hashcode = hashlib.md5(label.encode("utf-8"))
 
         for key in ["X_train", "y_train", "X_test", "y_test"]:
-- 
2.43.0


From 3a29e00e74432eb19892007ccf98aa029c814b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 12/36] fix: E_SMOTE draws its initial mask from its own
 generator

The initial feature mask came from the process-wide generator, so a seeded
E_SMOTE depended on, and disturbed, the random state of the host program.
---
 smote_variants/oversampling/_e_smote.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index 68e8f0f..b5e5f0a 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -209,7 +209,7 @@ class E_SMOTE(OverSampling):
 
         # creating initial mask
         mask = np.repeat([False], X.shape[1])
-        mask[np.random.choice(np.arange(mask.shape[0]), 1)] = True
+        mask[self.random_state.choice(np.arange(mask.shape[0]), 1)] = True
 
         # generating initial population
         population = [[0, mask.copy()] for _ in range(n_population)]
-- 
2.43.0


From af9e5ffa54ae69a3311c99b5ebc4f17233b7533e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 13/36] fix: pass the random state on to LSML

The random state handed to _train_metric_learning was ignored for LSML, so
its constraints were drawn from the process-wide generator.
---
 smote_variants/base/_metrictensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 9fe6b85..7f76d57 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -571,7 +571,11 @@ class MetricTensor:
                     .get_mahalanobis_matrix()
                 )
             if method == "LSML":
-                return LSML_Supervised().fit(X, y).get_mahalanobis_matrix()
+                return (
+                    LSML_Supervised(random_state=random_state)
+                    .fit(X, y)
+                    .get_mahalanobis_matrix()
+                )
 
             return NCA().fit(X, y).get_mahalanobis_matrix()
 
-- 
2.43.0


From 30d278b215dfcc8cb5c40c1104e9b82995e0ce68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:58 +0000
Subject: [PATCH 14/36] fix: SVM_balance seeds its classifiers

The unseeded SVCs advanced the process-wide generator of the host program
even when SVM_balance itself was seeded.
---
 smote_variants/oversampling/_svm_balance.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_svm_balance.py b/smote_variants/oversampling/_svm_balance.py
index 5cb0bda..65c9838 100755
--- a/smote_variants/oversampling/_svm_balance.py
+++ b/smote_variants/oversampling/_svm_balance.py
@@ -149,13 +149,23 @@ class SVM_balance(OverSampling):
         for C in C_params:  # pylint: disable=invalid-name
             _logger.info("%s: Evaluating SVM with C=%f", self.__class__.__name__, C)
 
-            svc = SVC(C=C, kernel="rbf", gamma="auto")
+            svc = SVC(
+                C=C,
+                kernel="rbf",
+                gamma="auto",
+                random_state=self._random_state_init,
+            )
             score = np.mean(cross_val_score(svc, X_norm, y, cv=validator))
             if score > best_score:
                 best_score = score
                 best_C = C  # pylint: disable=invalid-name
 
-        svc = SVC(C=best_C, kernel="rbf", gamma="auto")
+        svc = SVC(
+            C=best_C,
+            kernel="rbf",
+            gamma="auto",
+            random_state=self._random_state_init,
+        )
 
         svc.fit(X_norm, y)
 
-- 
2.43.0


From d795d799a361e65d375e520307f517d2cbc65372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 15/36] fix: importing the package leaves the global random
 generator alone

---
 smote_variants/datasets/_datasets.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/smote_variants/datasets/_datasets.py b/smote_variants/datasets/_datasets.py
index 3772fa7..41ce69b 100644
--- a/smote_variants/datasets/_datasets.py
+++ b/smote_variants/datasets/_datasets.py
@@ -649,8 +649,7 @@ def load_alternating():
     return {"data": X_alternating, "target": y_alternating, "name": "alternating"}
 
 
-np.random.seed(42)
-X_high_dim = np.random.normal(size=(20, 40))
+X_high_dim = np.random.RandomState(42).normal(size=(20, 40))
 y_high_dim = np.hstack([np.repeat(1, 7), np.repeat(0, 13)])
 
 
-- 
2.43.0


From b0effda80acaa0ab227b23a849b40c8f4502ac00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 16/36] fix: SMOTE_AMSR returns copies when there is nothing to
 sample

---
 smote_variants/oversampling/_smote_amsr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_smote_amsr.py b/smote_variants/oversampling/_smote_amsr.py
index 342b56c..3b1ac69 100644
--- a/smote_variants/oversampling/_smote_amsr.py
+++ b/smote_variants/oversampling/_smote_amsr.py
@@ -427,7 +427,7 @@ class SMOTE_AMSR(OverSampling):
         )
         if n_to_sample == 0:
             _logger.warning("%s: Sampling is not needed", self.__class__.__name__)
-            return X, y
+            return X.copy(), y.copy()
 
         mda_scores, clf_anomaly = self._in_danger_iforest(X, y, self.min_label)
 
-- 
2.43.0


From b42fa8c82b258547dabb072c77a079b9e8c3edac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 17/36] fix: SMOTE_PSOBAT takes the neighborhood range from the
 current dataset only

---
 smote_variants/oversampling/_smote_psobat.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smote_psobat.py b/smote_variants/oversampling/_smote_psobat.py
index 7221c02..6ac1998 100755
--- a/smote_variants/oversampling/_smote_psobat.py
+++ b/smote_variants/oversampling/_smote_psobat.py
@@ -144,7 +144,8 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of proportions
         self.proportion_range = np.array([0.1, 2.0])
-        self.k_range = np.array([1, 10])
+        self.k_max = 10
+        self.k_range = np.array([1, self.k_max])
 
     @classmethod
     def parameter_combinations(cls, raw=False):
@@ -793,7 +794,7 @@ class SMOTE_PSOBAT(OverSampling):
 
         # a reasonable range of nearest neighbors to use with SMOTE
         self.k_range = np.array(
-            [1, np.min([np.sum(y == self.min_label), self.k_range[1]])]
+            [1, np.min([np.sum(y == self.min_label), self.k_max])]
         )
 
         if self.method == "pso":
-- 
2.43.0


From be61a50c29e49ce877449ccf16df9b58bcbc9712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 18/36] fix: E_SMOTE transforms new data the way the last
 sampling did

---
 smote_variants/oversampling/_e_smote.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/smote_variants/oversampling/_e_smote.py b/smote_variants/oversampling/_e_smote.py
index b5e5f0a..19593aa 100755
--- a/smote_variants/oversampling/_e_smote.py
+++ b/smote_variants/oversampling/_e_smote.py
@@ -177,6 +177,22 @@ class E_SMOTE(OverSampling):
 
         return mask
 
+    def sample(self, X, y):
+        """
+        Sampling interface function.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # the mask selected for an earlier dataset must not be applied
+        self.mask = None
+
+        return OverSampling.sample(self, X, y)
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -267,6 +283,10 @@ class E_SMOTE(OverSampling):
         Returns:
             np.array: transformed data
         """
+        if self.mask is None:
+            # no features were selected, the samples were returned unchanged
+            return X
+
         return X[:, self.mask]
 
     def get_params(self, deep=False):
-- 
2.43.0


From b9760b67f3fc2c4161fa2998e926eb8985393899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 19/36] fix: ISOMAP_Hybrid transforms new data the way the last
 sampling did

---
 smote_variants/oversampling/_isomap_hybrid.py | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/smote_variants/oversampling/_isomap_hybrid.py b/smote_variants/oversampling/_isomap_hybrid.py
index 0e23cec..4a43e59 100755
--- a/smote_variants/oversampling/_isomap_hybrid.py
+++ b/smote_variants/oversampling/_isomap_hybrid.py
@@ -5,6 +5,7 @@ import warnings
 
 import numpy as np
 
+from sklearn.base import clone
 from sklearn.manifold import Isomap
 
 from ..config import suppress_external_warnings
@@ -129,6 +130,22 @@ class ISOMAP_Hybrid(OverSampling):
         }
         return cls.generate_parameter_combinations(parameter_combinations, raw)
 
+    def sample(self, X, y):
+        """
+        Sampling interface function.
+
+        Args:
+            X (np.ndarray): training set
+            y (np.array): target labels
+
+        Returns:
+            (np.ndarray, np.array): the extended training set and target labels
+        """
+        # the embedding trained on an earlier dataset must not be applied
+        self.isomap = clone(self.isomap)
+
+        return OverSampling.sample(self, X, y)
+
     def sampling_algorithm(self, X, y):
         """
         Does the sample generation according to the class parameters.
@@ -180,6 +197,10 @@ class ISOMAP_Hybrid(OverSampling):
         Returns:
             np.array: the transformed data
         """
+        if not hasattr(self.isomap, "embedding_"):
+            # no embedding was trained, the samples were returned unchanged
+            return X
+
         return self.isomap.transform(X)
 
     def get_params(self, deep=False):
-- 
2.43.0


From 1bdb164cd8c3e4781cb982f045ffe52c38194e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:12 +0000
Subject: [PATCH 20/36] fix: OversamplingClassifier predicts in the space it
 was trained in

---
 .../classifiers/_oversamplingclassifier.py    | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/smote_variants/classifiers/_oversamplingclassifier.py b/smote_variants/classifiers/_oversamplingclassifier.py
index 94b2d4c..f1b340b 100755
--- a/smote_variants/classifiers/_oversamplingclassifier.py
+++ b/smote_variants/classifiers/_oversamplingclassifier.py
@@ -49,6 +49,21 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
 
         return self
 
+    def _transform(self, X):
+        """
+        Maps new data the way the oversampler mapped the training data.
+
+        Args:
+            X (np.ndarray): feature vectors
+
+        Returns:
+            np.ndarray: the transformed feature vectors
+        """
+        if hasattr(self.oversampler_obj, "preprocessing_transform"):
+            return self.oversampler_obj.preprocessing_transform(X)
+
+        return X
+
     def predict(self, X):
         """
         Carries out the predictions.
@@ -57,7 +72,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict(X)
+        return self.classifier_obj.predict(self._transform(X))
 
     def predict_proba(self, X):
         """
@@ -67,7 +82,7 @@ class OversamplingClassifier(BaseEstimator, ClassifierMixin):
             X (np.ndarray): feature vectors
         """
 
-        return self.classifier_obj.predict_proba(X)
+        return self.classifier_obj.predict_proba(self._transform(X))
 
     def get_params(self, deep=True):
         """
-- 
2.43.0


From 415f849323bc624f5cf2b930b195e67b42c15b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 21/36] fix: SOI_CJ sampling leaves the parameters of the
 object unchanged

---
 smote_variants/oversampling/_soi_cj.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/smote_variants/oversampling/_soi_cj.py b/smote_variants/oversampling/_soi_cj.py
index 7cccf90..3a9d86a 100755
--- a/smote_variants/oversampling/_soi_cj.py
+++ b/smote_variants/oversampling/_soi_cj.py
@@ -350,17 +350,21 @@ class SOI_CJ(OverSamplingSimplex):
             np.array: the generated samples
         """
 
-        self.gaussian_component = {"sigmas": std}
-
         nnmt = NearestNeighborsWithMetricTensor(
             n_neighbors=len(cluster), n_jobs=self.n_jobs, **nn_params
         )
         nnmt.fit(X[cluster])
         indices = nnmt.kneighbors(X[cluster], return_distance=False)
 
-        samples = self.sample_simplex(
-            X=X[cluster], indices=indices, n_to_sample=n_to_sample
-        )
+        # the cluster's deviations must not replace the parameter of the object
+        gaussian_component = self.gaussian_component
+        self.gaussian_component = {"sigmas": std}
+        try:
+            samples = self.sample_simplex(
+                X=X[cluster], indices=indices, n_to_sample=n_to_sample
+            )
+        finally:
+            self.gaussian_component = gaussian_component
 
         # indices = self.random_state.choice(np.arange(len(cluster)),
         #                                        n_to_sample)
-- 
2.43.0


From d7fbbf314789c0e84bb07a89b6184bf0d58b190f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 22/36] fix: multiclass oversampling equalizes to the majority
 class

---
 .../multiclassoversampling/_multiclassoversampling.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/multiclassoversampling/_multiclassoversampling.py b/smote_variants/multiclassoversampling/_multiclassoversampling.py
index cc41a20..5df2be3 100755
--- a/smote_variants/multiclassoversampling/_multiclassoversampling.py
+++ b/smote_variants/multiclassoversampling/_multiclassoversampling.py
@@ -28,7 +28,11 @@ def proportion_1_vs_many(stats, labels, maj_label, class_idx):
         float: the proportion
     """
     to_gen = stats[maj_label] - stats[labels[class_idx]]
-    to_gen_to_all = stats[maj_label] - stats[labels[class_idx]]
+    if to_gen == 0:
+        return 0.0
+
+    # the class is sampled against all samples of all other classes
+    to_gen_to_all = sum(stats.values()) - 2 * stats[labels[class_idx]]
 
     return to_gen / to_gen_to_all
 
@@ -49,6 +53,8 @@ def proportion_1_vs_many_succ(stats, labels, maj_label, class_idx):
     n_majority = stats[maj_label]
     n_class_i = stats[labels[class_idx]]
     num_to_generate = n_majority - n_class_i
+    if num_to_generate == 0:
+        return 0.0
 
     num_to_gen_to_all = class_idx * n_majority - n_class_i
 
-- 
2.43.0


From 97ad47b707eb0d484d0e88150385268c62a67094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:07 +0000
Subject: [PATCH 23/36] fix: SMOTEWB passes its random state to the fallback
 SMOTE

---
 smote_variants/oversampling/_smotewb.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/smote_variants/oversampling/_smotewb.py b/smote_variants/oversampling/_smotewb.py
index b4a6760..cac99b4 100644
--- a/smote_variants/oversampling/_smotewb.py
+++ b/smote_variants/oversampling/_smotewb.py
@@ -263,7 +263,11 @@ class SMOTEWB(OverSampling):
 
         # all data points are noise
         if len(X_not_noise) == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_neighbors = min([len(X_not_noise), k_max + 1])
@@ -305,7 +309,11 @@ class SMOTEWB(OverSampling):
         # prevent errors (missing from the original) no good or lonely
         # samples => give chance to the others
         if n_good_min + n_lonely_min == 0:
-            smote = SMOTE(proportion=self.proportion, nn_params=self.nn_params)
+            smote = SMOTE(
+                proportion=self.proportion,
+                nn_params=self.nn_params,
+                random_state=self._random_state_init,
+            )
             return smote.sample(X, y)
 
         n_to_sample_per_sample = math.ceil(n_to_sample / (n_good_min + n_lonely_min))
-- 
2.43.0


From ff98d69f05edf862da5e91b7b2e1e163543452df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:39 +0000
Subject: [PATCH 24/36] fix: seed the PCA solvers used inside the oversamplers

---
 smote_variants/oversampling/_adg.py             | 4 +++-
 smote_variants/oversampling/_adoms.py           | 2 +-
 smote_variants/oversampling/_assembled_smote.py | 8 ++++++--
 smote_variants/oversampling/_gazzah.py          | 5 ++++-
 smote_variants/oversampling/_kerneladasyn.py    | 4 +++-
 smote_variants/oversampling/_v_synth.py         | 4 +++-
 6 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/smote_variants/oversampling/_adg.py b/smote_variants/oversampling/_adg.py
index 808d9df..cf0125b 100755
--- a/smote_variants/oversampling/_adg.py
+++ b/smote_variants/oversampling/_adg.py
@@ -379,7 +379,9 @@ class ADG(OverSampling):
         # if n_components == 0:
         #    return None, None
 
-        pca = PCA(n_components=n_components).fit(X)
+        pca = PCA(
+            n_components=n_components, random_state=self._random_state_init
+        ).fit(X)
 
         x_trans = pca.transform(X)
 
diff --git a/smote_variants/oversampling/_adoms.py b/smote_variants/oversampling/_adoms.py
index caffa5d..181c27c 100755
--- a/smote_variants/oversampling/_adoms.py
+++ b/smote_variants/oversampling/_adoms.py
@@ -121,7 +121,7 @@ class ADOMS(OverSampling):
             np.array: the generated sample
         """
         # fitting the PCA
-        pca = PCA(n_components=1)
+        pca = PCA(n_components=1, random_state=self._random_state_init)
         pca.fit(neighbors)
 
         # extracting the principal direction
diff --git a/smote_variants/oversampling/_assembled_smote.py b/smote_variants/oversampling/_assembled_smote.py
index c81bd2a..1ecee48 100755
--- a/smote_variants/oversampling/_assembled_smote.py
+++ b/smote_variants/oversampling/_assembled_smote.py
@@ -229,8 +229,12 @@ class Assembled_SMOTE(OverSamplingSimplex):
                 with warnings.catch_warnings():
                     if suppress_external_warnings():
                         warnings.simplefilter("ignore")
-                    pca_a = PCA(n_components=1).fit(X_border[clusters[merge_a]])
-                    pca_b = PCA(n_components=1).fit(X_border[clusters[merge_b]])
+                    pca_a = PCA(
+                        n_components=1, random_state=self._random_state_init
+                    ).fit(X_border[clusters[merge_a]])
+                    pca_b = PCA(
+                        n_components=1, random_state=self._random_state_init
+                    ).fit(X_border[clusters[merge_b]])
                 # extract the angle of principal directions
                 numerator = np.dot(pca_a.components_[0], pca_b.components_[0])
                 denominator = np.linalg.norm(pca_a.components_[0])
diff --git a/smote_variants/oversampling/_gazzah.py b/smote_variants/oversampling/_gazzah.py
index 3c137db..e0a6280 100755
--- a/smote_variants/oversampling/_gazzah.py
+++ b/smote_variants/oversampling/_gazzah.py
@@ -131,7 +131,10 @@ class Gazzah(OverSampling):
         X_maj = X[y == self.maj_label]
 
         # fitting the PCA model
-        pca = PCA(n_components=min([len(X[0]), self.n_components]))
+        pca = PCA(
+            n_components=min([len(X[0]), self.n_components]),
+            random_state=self._random_state_init,
+        )
         X_maj_trans = pca.fit_transform(X_maj)  # pylint: disable=invalid-name
         R = np.sqrt(np.sum(np.var(X_maj_trans, axis=0)))  # pylint: disable=invalid-name
 
diff --git a/smote_variants/oversampling/_kerneladasyn.py b/smote_variants/oversampling/_kerneladasyn.py
index 986b411..227a302 100755
--- a/smote_variants/oversampling/_kerneladasyn.py
+++ b/smote_variants/oversampling/_kerneladasyn.py
@@ -213,7 +213,9 @@ class KernelADASYN(OverSampling):
 
             n_components = int(np.rint(len(covariance) / 2))
 
-            pca = PCA(n_components=n_components)
+            pca = PCA(
+                n_components=n_components, random_state=self._random_state_init
+            )
             X_trans = pca.fit_transform(X)  # pylint: disable=invalid-name
 
             kernela = KernelADASYN(
diff --git a/smote_variants/oversampling/_v_synth.py b/smote_variants/oversampling/_v_synth.py
index 3ad0169..3b751cd 100755
--- a/smote_variants/oversampling/_v_synth.py
+++ b/smote_variants/oversampling/_v_synth.py
@@ -212,7 +212,9 @@ class V_SYNTH(OverSampling):
         component_mask = np.array([True] * n_components)
 
         while np.sum(component_mask) > 1:
-            pca = PCA(n_components=n_components)
+            pca = PCA(
+                n_components=n_components, random_state=self._random_state_init
+            )
             X_pca = pca.fit_transform(X_bb)  # pylint: disable=invalid-name
             y_pca = np.hstack([y, np.repeat(-1, len(bounding_box))])
 
-- 
2.43.0


From 2a6314af818d4ffef65902c624d5561e723f0131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:09 +0000
Subject: [PATCH 25/36] fix: create_summary keeps techniques without simplex
 sampling parameters

---
 smote_variants/evaluation/_processing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index f38a219..99aa61e 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -160,7 +160,8 @@ def create_summary(data, scores=None, columns_to_serialize=None):
                 "classifier_module",
                 "classifier",
                 "deterministic",
-            ]
+            ],
+            dropna=False,
         )
         .apply(lambda x: _serialize_data(x, columns_to_serialize))
         .reset_index(drop=False)
-- 
2.43.0


From 0e6ac8f6e86770f1491e07df9cacfaf92e105e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:04 +0000
Subject: [PATCH 26/36] fix: load_dataset_data skips unfinished files

---
 smote_variants/evaluation/_processing.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index 99aa61e..7ece29b 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -47,7 +47,13 @@ def load_dataset_data(path):
     Returns:
         pd.DataFrame: all results of the dataset
     """
-    files = glob.glob(os.path.join(path, "evaluation*"))
+    # files still being written or left behind by an interrupted evaluation
+    # are not results
+    files = [
+        file
+        for file in glob.glob(os.path.join(path, "evaluation*"))
+        if not file.endswith(".tmp")
+    ]
     data = [load_dict(file) for file in files]
     return pd.DataFrame(data)
 
-- 
2.43.0


From dc67b11e919e33b8571ac54e1ff4bafa0efc669c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:40 +0000
Subject: [PATCH 27/36] fix: distance matrices with a memory budget below one
 row no longer recurse forever

---
 smote_variants/base/_metrictensor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/base/_metrictensor.py b/smote_variants/base/_metrictensor.py
index 7f76d57..5899753 100755
--- a/smote_variants/base/_metrictensor.py
+++ b/smote_variants/base/_metrictensor.py
@@ -60,7 +60,8 @@ def pairwise_distances_mahalanobis(X, *, Y=None, tensor=None, optimized=True):
 
     max_mem = distance_matrix_max_memory_chunk()
 
-    if X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
+    # one row is the smallest block the computation can be divided into
+    if X.shape[0] > 1 and X.shape[0] * X.shape[1] * Y.shape[0] > max_mem:
         row_block_size = int(
             np.floor(
                 X.shape[0]
-- 
2.43.0


From 6ffe7398ee9c507b32a6f6120e02c2eca34f6ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 28/36] fix: dataset names with glob characters in clean-up and
 when loading results

---
 smote_variants/evaluation/_functions.py  | 4 ++--
 smote_variants/evaluation/_processing.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index d7d095b..5ce64bf 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -149,11 +149,11 @@ def do_clean_up(cache_path, clean_up):
     """
 
     if clean_up in ["oversamplings", "all"]:
-        files = glob.glob(os.path.join(cache_path, "oversampling*"))
+        files = glob.glob(os.path.join(glob.escape(cache_path), "oversampling*"))
         for file in files:
             os.remove(file)
     if clean_up == "all":
-        files = glob.glob(os.path.join(cache_path, "fold*"))
+        files = glob.glob(os.path.join(glob.escape(cache_path), "fold*"))
         for file in files:
             os.remove(file)
 
diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index 7ece29b..eeac850 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -27,7 +27,7 @@ def datasets_in_cache(cache_path):
     Returns:
         dict: {dataset_name: path} dictionary
     """
-    pattern = os.path.join(cache_path, "*")
+    pattern = os.path.join(glob.escape(cache_path), "*")
     dataset_paths = glob.glob(pattern)
     dataset_dict = {}
     for dataset_path in dataset_paths:
@@ -51,7 +51,7 @@ def load_dataset_data(path):
     # are not results
     files = [
         file
-        for file in glob.glob(os.path.join(path, "evaluation*"))
+        for file in glob.glob(os.path.join(glob.escape(path), "evaluation*"))
         if not file.endswith(".tmp")
     ]
     data = [load_dict(file) for file in files]
-- 
2.43.0


From 9a375fb98f0d1d095b8ce62e8167ca0c52358ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 29/36] fix: NEATER gives new samples the labels of the dataset

---
 smote_variants/oversampling/_neater.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/smote_variants/oversampling/_neater.py b/smote_variants/oversampling/_neater.py
index 29ff7c5..2c9d73a 100755
--- a/smote_variants/oversampling/_neater.py
+++ b/smote_variants/oversampling/_neater.py
@@ -395,7 +395,9 @@ class NEATER(OverSampling):
             )
 
         # determining final labels
-        y_all[len(X) :] = np.argmax(prob[len(X) :], axis=1)
+        y_all[len(X) :] = np.where(
+            np.argmax(prob[len(X) :], axis=1) == 1, self.min_label, self.maj_label
+        )
 
         return X_all, y_all
 
-- 
2.43.0


From 93ff5ee3b936b24328b0b8eecc559ab89dc5774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:08 +0000
Subject: [PATCH 30/36] fix: processes storing the same file do not interfere

---
 smote_variants/base/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index edaec63..385e766 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -244,8 +244,9 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
     if serialization is None:
         serialization = filename.split(".")[-1]
 
-    # the file appears under its name only when it is complete
-    tmp_filename = f"{filename}.tmp"
+    # the file appears under its name only when it is complete, and processes
+    # writing the same file do not interfere
+    tmp_filename = f"{filename}.{os.getpid()}.tmp"
 
     if serialization == "json":
         for key in array_to_list_map:
-- 
2.43.0


From 6e2c9bc95fc9d2ba8d1f7de218c674eaeec153d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:54 +0000
Subject: [PATCH 31/36] fix: foldings by other requests do not share files

---
 smote_variants/evaluation/_folding.py | 46 +++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/smote_variants/evaluation/_folding.py b/smote_variants/evaluation/_folding.py
index 0fc2f24..8e2cd0a 100644
--- a/smote_variants/evaluation/_folding.py
+++ b/smote_variants/evaluation/_folding.py
@@ -2,6 +2,7 @@
 This module implements the folding abstraction.
 """
 
+import hashlib
 import os
 import shutil
 
@@ -66,6 +67,7 @@ class Folding:
 
         if self.cache_path is not None:
             self.folding_dir_path = os.path.join(self.cache_path, dataset["name"])
+            self.folding_hash = self.request_hash()
 
             # creating the folding directory
             os.makedirs(self.folding_dir_path, exist_ok=True)
@@ -73,6 +75,42 @@ class Folding:
             if reset:
                 self._do_reset()
 
+    def request_hash(self):
+        """
+        Determine the hash of everything the folding depends on.
+
+        Returns:
+            str: the hash of the request
+        """
+        hashcode = hashlib.md5(str(self.validator_params).encode("utf-8"))
+
+        for key in ["data", "target"]:
+            array = np.asarray(self.dataset[key])
+            if array.dtype == object:
+                array = array.astype(str)
+            hashcode.update(f"{array.shape} {array.dtype}".encode("utf-8"))
+            hashcode.update(array.tobytes())
+
+        return hashcode.hexdigest()
+
+    def folding_filename(self, repeat_idx, fold_idx):
+        """
+        Determine the name of the file of a fold, which is not shared with
+        other foldings of the dataset, as those can be in use.
+
+        Args:
+            repeat_idx (int): the index of the repetition
+            fold_idx (int): the index of the fold
+
+        Returns:
+            str: the full name of the file
+        """
+        return os.path.join(
+            self.folding_dir_path,
+            f"fold_{repeat_idx:04}_{fold_idx:04}"
+            f"_{self.folding_hash}.{self.serialization}",
+        )
+
     def _do_reset(self):
         """
         Remove all foldings
@@ -88,10 +126,7 @@ class Folding:
             list: the list of fold filenames
         """
         files = [
-            os.path.join(
-                self.folding_dir_path,
-                f"fold_{repeat_idx:04}_{fold_idx:04}.{self.serialization}",
-            )
+            self.folding_filename(repeat_idx, fold_idx)
             for repeat_idx in range(self.validator_params["n_repeats"])
             for fold_idx in range(self.validator_params["n_splits"])
         ]
@@ -141,8 +176,7 @@ class Folding:
         for folding in self.fold():
             repeat_idx = folding["fold_descriptor"]["repeat_idx"]
             fold_idx = folding["fold_descriptor"]["fold_idx"]
-            filename = f"fold_{repeat_idx:04}_{fold_idx:04}" f".{self.serialization}"
-            full_name = os.path.join(self.folding_dir_path, filename)
+            full_name = self.folding_filename(repeat_idx, fold_idx)
 
             dump_dict(
                 folding,
-- 
2.43.0


From 357fb3cbea605987ebf1259132b762435552616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:10 +0000
Subject: [PATCH 32/36] fix: threads storing the same file do not interfere

---
 smote_variants/base/_base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 385e766..94e7627 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -16,6 +16,8 @@ from .._logger import logger
 
 _logger = logger
 
+_dump_counter = itertools.count()
+
 __all__ = [
     "cov",
     "shuffle_training_set",
@@ -245,8 +247,8 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
         serialization = filename.split(".")[-1]
 
     # the file appears under its name only when it is complete, and processes
-    # writing the same file do not interfere
-    tmp_filename = f"{filename}.{os.getpid()}.tmp"
+    # and threads writing the same file do not interfere
+    tmp_filename = f"{filename}.{os.getpid()}.{next(_dump_counter)}.tmp"
 
     if serialization == "json":
         for key in array_to_list_map:
-- 
2.43.0


From 4070f563d03b8dea48ac291628c224e2e98a9962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 33/36] fix: results that cannot be rebuilt lead to the
 fallback of the job

---
 smote_variants/evaluation/_parallelization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 3e722f7..6596196 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -166,7 +166,8 @@ def process_manager(job, idx, results, process_start_lock, timeout=None):
         if reader.poll(timeout):
             results[idx] = reader.recv()
             received = True
-    except EOFError:
+    except Exception:  # pylint: disable=broad-except
+        # the process died, or its result cannot be rebuilt by unpickling
         pass
     finally:
         reader.close()
-- 
2.43.0


From e842f166dbf0d4703d8155f38ce84d6552176289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:21 +0000
Subject: [PATCH 34/36] fix: failing to create a thread does not block the job
 pool

---
 smote_variants/evaluation/_parallelization.py | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/smote_variants/evaluation/_parallelization.py b/smote_variants/evaluation/_parallelization.py
index 6596196..52dbf0c 100644
--- a/smote_variants/evaluation/_parallelization.py
+++ b/smote_variants/evaluation/_parallelization.py
@@ -234,7 +234,13 @@ def pooling_thread(pool_object):
         # the index indicating the next job to be done is updated, so the
         # lock can be released now
 
-        thread.start()
+        try:
+            thread.start()
+        except RuntimeError:
+            # no more threads can be created, the job is managed by this one
+            pool_object.lock.release()
+            thread.run()
+            continue
 
         process_start_lock.acquire()  # pylint: disable=consider-using-with
         process_start_lock.release()
@@ -292,10 +298,18 @@ class ThreadTimeoutProcessPool:
             for _ in range(self.n_jobs)
         ]
 
+        started = []
         for thread in pool:
-            thread.start()
-
-        for thread in pool:
+            try:
+                thread.start()
+            except RuntimeError:
+                # the threads that could be created execute all jobs
+                if not started:
+                    raise
+                break
+            started.append(thread)
+
+        for thread in started:
             thread.join()
 
         return self.results
-- 
2.43.0


From 8fa023357298cd5dc72b3f3d55e440550bbd3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 35/36] fix: MLPClassifierWrapper exposes the classes of the
 fitted model

---
 smote_variants/classifiers/_mlpclassifierwrapper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/smote_variants/classifiers/_mlpclassifierwrapper.py b/smote_variants/classifiers/_mlpclassifierwrapper.py
index 6344b20..24bf320 100755
--- a/smote_variants/classifiers/_mlpclassifierwrapper.py
+++ b/smote_variants/classifiers/_mlpclassifierwrapper.py
@@ -42,6 +42,7 @@ class MLPClassifierWrapper:
         self.learning_rate = learning_rate
         self.random_state = random_state
         self.model = None
+        self.classes_ = None
 
     def _determine_hidden_layer_size(self, n_dim):
         if isinstance(self.hidden_layer_fraction, str):
@@ -69,6 +70,7 @@ class MLPClassifierWrapper:
             learning_rate=self.learning_rate,
             random_state=self.random_state,
         ).fit(X, y)
+        self.classes_ = self.model.classes_
         return self
 
     def predict(self, X):
-- 
2.43.0


From 18e2141f9e21e1402cc11951a498dbc4c0ac5857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:19 +0000
Subject: [PATCH 36/36] fix: evaluations tell configurations with numpy
 parameters apart and can store them

---
 smote_variants/base/_base.py             | 30 +++++++++++++++++++++++-
 smote_variants/evaluation/_evaluation.py | 12 +++++++---
 smote_variants/evaluation/_functions.py  | 10 +++++---
 smote_variants/evaluation/_processing.py | 10 +++++---
 smote_variants/evaluation/_sampling.py   |  5 ++--
 5 files changed, 55 insertions(+), 12 deletions(-)

diff --git a/smote_variants/base/_base.py b/smote_variants/base/_base.py
index 94e7627..1359c2a 100755
--- a/smote_variants/base/_base.py
+++ b/smote_variants/base/_base.py
@@ -27,6 +27,7 @@ __all__ = [
     "equal_dicts",
     "coalesce",
     "coalesce_dict",
+    "plain_params",
     "instantiate_obj",
     "load_dict",
     "dump_dict",
@@ -166,6 +167,27 @@ def coalesce_dict(dict_0, dict_1):
     return result
 
 
+def plain_params(obj):
+    """
+    Replace the numpy objects in a description by plain Python ones, since
+    the textual representation of the arrays is abbreviated and rounded
+
+    Args:
+        obj (obj): the parameters (or a part of them)
+
+    Returns:
+        obj: the parameters without numpy objects
+    """
+    if isinstance(obj, (np.ndarray, np.generic)):
+        return plain_params(obj.tolist()) if obj.dtype == object else obj.tolist()
+    if isinstance(obj, dict):
+        return {plain_params(key): plain_params(item) for key, item in obj.items()}
+    if type(obj) in (list, tuple):
+        return type(obj)(plain_params(item) for item in obj)
+
+    return obj
+
+
 def instantiate_obj(description):
     """
     Instantiates an object from a description
@@ -230,6 +252,12 @@ def load_dict(filename, serialization=None, array_to_list_map=None):
     raise ValueError(f"serialization {serialization} is not supported")
 
 
+def _json_default(obj):
+    if isinstance(obj, (np.ndarray, np.generic)):
+        return plain_params(obj)
+    raise TypeError(f"object of type {type(obj).__name__} is not JSON serializable")
+
+
 def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
     """
     Serializes an object.
@@ -255,7 +283,7 @@ def dump_dict(obj, filename, serialization=None, array_to_list_map=None):
             obj[key] = obj[key].astype(float).tolist()
 
         with open(tmp_filename, "wt", encoding="UTF-8") as file:
-            json_string = json.dumps(obj)
+            json_string = json.dumps(obj, default=_json_default)
             file.write(json_string)
             file.flush()
             os.fsync(file)
diff --git a/smote_variants/evaluation/_evaluation.py b/smote_variants/evaluation/_evaluation.py
index b12b937..bc91656 100644
--- a/smote_variants/evaluation/_evaluation.py
+++ b/smote_variants/evaluation/_evaluation.py
@@ -9,7 +9,13 @@ import warnings
 
 import numpy as np
 
-from ..base import instantiate_obj, load_dict, dump_dict, check_if_damaged
+from ..base import (
+    instantiate_obj,
+    load_dict,
+    dump_dict,
+    check_if_damaged,
+    plain_params,
+)
 from ..base import calculate_all_scores
 
 __all__ = ["EvaluationJob"]
@@ -80,8 +86,8 @@ class EvaluationJob:
         """
         target_filename = None
 
-        label0 = str(classifier).encode("utf-8")
-        label1 = str((oversampling["oversampler"])).encode("utf-8")
+        label0 = str(plain_params(classifier)).encode("utf-8")
+        label1 = str(plain_params(oversampling["oversampler"])).encode("utf-8")
         label2 = str(oversampling.get("request_hash")).encode("utf-8")
 
         hashcode = str(hashlib.md5(label0 + label1 + label2).hexdigest())
diff --git a/smote_variants/evaluation/_functions.py b/smote_variants/evaluation/_functions.py
index 5ce64bf..22a8c7b 100644
--- a/smote_variants/evaluation/_functions.py
+++ b/smote_variants/evaluation/_functions.py
@@ -15,7 +15,7 @@ from joblib import Parallel, delayed
 import numpy as np
 import pandas as pd
 
-from ..base import load_dict, instantiate_obj
+from ..base import load_dict, instantiate_obj, plain_params
 from ..base import all_scores
 from ._folding import Folding
 from ._sampling import SamplingJob
@@ -205,8 +205,12 @@ def _explode_entries(pdf):
     pdf["dataset"] = pdf["fold_descriptor"].apply(lambda x: x["name"])
     pdf["fold_idx"] = pdf["fold_descriptor"].apply(lambda x: x["fold_idx"])
     pdf["repeat_idx"] = pdf["fold_descriptor"].apply(lambda x: x["repeat_idx"])
-    pdf["oversampler_params_key"] = pdf["oversampler_params"].apply(str)
-    pdf["classifier_params_key"] = pdf["classifier_params"].apply(str)
+    pdf["oversampler_params_key"] = pdf["oversampler_params"].apply(
+        lambda params: str(plain_params(params))
+    )
+    pdf["classifier_params_key"] = pdf["classifier_params"].apply(
+        lambda params: str(plain_params(params))
+    )
     return pdf
 
 
diff --git a/smote_variants/evaluation/_processing.py b/smote_variants/evaluation/_processing.py
index eeac850..8a5cd1d 100644
--- a/smote_variants/evaluation/_processing.py
+++ b/smote_variants/evaluation/_processing.py
@@ -7,7 +7,7 @@ import glob
 
 import pandas as pd
 
-from ..base import load_dict
+from ..base import load_dict, plain_params
 
 __all__ = [
     "datasets_in_cache",
@@ -152,8 +152,12 @@ def create_summary(data, scores=None, columns_to_serialize=None):
         ]
     pdf = _extract_attributes(data, scores)
 
-    pdf["oversampler_params_str"] = pdf["oversampler_params"].apply(str)
-    pdf["classifier_params_str"] = pdf["classifier_params"].apply(str)
+    pdf["oversampler_params_str"] = pdf["oversampler_params"].apply(
+        lambda params: str(plain_params(params))
+    )
+    pdf["classifier_params_str"] = pdf["classifier_params"].apply(
+        lambda params: str(plain_params(params))
+    )
 
     pdf = (
         pdf.groupby(
diff --git a/smote_variants/evaluation/_sampling.py b/smote_variants/evaluation/_sampling.py
index d914807..4d9b356 100644
--- a/smote_variants/evaluation/_sampling.py
+++ b/smote_variants/evaluation/_sampling.py
@@ -15,6 +15,7 @@ from ..base import (
     dump_dict,
     check_if_damaged,
     coalesce_dict,
+    plain_params,
 )
 from ._parallelization import TimeoutJobBase
 
@@ -92,8 +93,8 @@ class SamplingJob(TimeoutJobBase):
         label = str(
             (
                 self.oversampler,
-                self.oversampler_params,
-                self.scaler,
+                plain_params(self.oversampler_params),
+                plain_params(self.scaler),
                 folding["fold_descriptor"],
             )
         )
-- 
2.43.0

