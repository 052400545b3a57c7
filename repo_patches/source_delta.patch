From a2283c40e64b37f76b739e10a72afcd433a30580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:44 +0000
Subject: [PATCH 01/33] fix: split converter input only among workers that own
 partitions

Workers left without partitions return early, so the share of the input
files assigned to them was never converted.
---
 src/python/deepgnn/graph_engine/snark/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index 855f82a..a1fd1ca 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -87,6 +87,12 @@ class MultiWorkersConverter:
         self.partition_count = (
             int(math.ceil(partition_count / worker_count)) if not self._debug else 1
         )
+        # workers left without partitions do not read input: it is split among the others.
+        self.reader_count = (
+            int(math.ceil(partition_count / self.partition_count))
+            if not self._debug
+            else 1
+        )
         self.partition_offset = self.partition_count * worker_index
         if self.partition_offset + self.partition_count > partition_count:
             self.partition_count = partition_count - self.partition_offset
@@ -128,7 +134,7 @@ class MultiWorkersConverter:
                 buffer_queue_size=self.buffer_queue_size,
                 thread_count=self.thread_count,
                 worker_index=self.worker_index,
-                num_workers=self.worker_count,
+                num_workers=self.reader_count,
             )
 
         if not self._debug:
-- 
2.43.0


From 5f1846e3275658b06785690ab417ddf5dce58152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:01 +0000
Subject: [PATCH 02/33] fix: keep the last ids of a range in data parallel
 range samplers

---
 src/python/deepgnn/graph_engine/samplers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 96c5dd0..32818f8 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -543,7 +543,8 @@ class _RangeNodeIterator(_GEIterator):
         last = self.first + self.batch_size * self.data_parallel_num
         res = np.arange(self.first, last, step=self.data_parallel_num)
         if last > self.last:
-            res[(self.last - self.first) // self.data_parallel_num :] = self.backfill_id
+            valid = math.ceil((self.last - self.first) / self.data_parallel_num)
+            res[valid:] = self.backfill_id
 
         self.first += self.num_workers * self.batch_size * self.data_parallel_num
         return res
-- 
2.43.0


From e3b22f0c0cb1568e8683743988f62fd27f6cb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:01 +0000
Subject: [PATCH 03/33] fix: stop workers of data parallel range samplers from
 sharing ids

---
 src/python/deepgnn/graph_engine/samplers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index 32818f8..ac3b092 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -573,7 +573,7 @@ class RangeNodeSampler(BaseSampler):
             data_parallel_index=data_parallel_index,
             data_parallel_num=data_parallel_num,
         )
-        self.start_id = first + worker_index * batch_size
+        self.start_id = first + worker_index * batch_size * data_parallel_num
         self.last = last
         assert self.start_id < self.last
         self.batch_size = batch_size
-- 
2.43.0


From 8e982c5975d43538849d51c6d9c2d293ff65278c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:16 +0000
Subject: [PATCH 04/33] fix: honour drop_last in file edge samplers with
 features

---
 src/python/deepgnn/graph_engine/samplers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/samplers.py b/src/python/deepgnn/graph_engine/samplers.py
index ac3b092..8ce295a 100644
--- a/src/python/deepgnn/graph_engine/samplers.py
+++ b/src/python/deepgnn/graph_engine/samplers.py
@@ -429,6 +429,7 @@ class FileEdgeSampler(BaseSampler):
                 ),
                 np.zeros(shape=(self.feature_dim), dtype=np.float32),
             ],
+            drop_last=self.drop_last,
             data_parallel_num=self.data_parallel_num,
             data_parallel_index=self.data_parallel_index,
         )
-- 
2.43.0


From 125f294f2a1965cb68bdca77ef1feea7a453dd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:01:17 +0000
Subject: [PATCH 05/33] fix: let queue dispatchers that use threads finish

---
 src/python/deepgnn/graph_engine/snark/dispatcher.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/dispatcher.py b/src/python/deepgnn/graph_engine/snark/dispatcher.py
index 74c9e2a..56789af 100755
--- a/src/python/deepgnn/graph_engine/snark/dispatcher.py
+++ b/src/python/deepgnn/graph_engine/snark/dispatcher.py
@@ -331,7 +331,6 @@ class QueueDispatcher(Dispatcher):
         """Wrapup conversion."""
         for i in self.active_partitions:
             self.q_in[i].put(FLAG_ALL_DONE)
-            self.q_in[i].close()
 
         for _ in self.active_partitions:
             flag, output = self.q_out.get()
@@ -348,6 +347,9 @@ class QueueDispatcher(Dispatcher):
             self.partitions.append(output["partition"])
 
             assert flag == FLAG_WORKER_FINISHED_PROCESSING
+        # worker threads share the queues: close them only when all workers are done.
+        for i in self.active_partitions:
+            self.q_in[i].close()
         self.q_out.close()
 
         for p in self.partitions:
@@ -385,7 +387,9 @@ class QueueDispatcher(Dispatcher):
                         pass
 
         for p in self.processes:
-            p.terminate()
+            # threads can't be terminated, idle ones end with the main process.
+            if isinstance(p, mp.Process):
+                p.terminate()
 
     def prop(self, name: str) -> typing.Any:
         """Properties relevant for conversion.
-- 
2.43.0


From 5e37a066467acc2105e56591dc8bade50755fae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:35 +0000
Subject: [PATCH 06/33] fix: keep weights of every partition separate when
 merging metadata

---
 src/python/deepgnn/graph_engine/snark/meta_merger.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index ad5f082..4b8d412 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -55,8 +55,12 @@ class Meta:
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
         self.partition_count = len(meta["partitions"])
-        self.node_weights = [[0.0] * self.node_type_count] * self.partition_count
-        self.edge_weights = [[0.0] * self.edge_type_count] * self.partition_count
+        self.node_weights = [
+            [0.0] * self.node_type_count for _ in range(self.partition_count)
+        ]
+        self.edge_weights = [
+            [0.0] * self.edge_type_count for _ in range(self.partition_count)
+        ]
         for j, id in enumerate(meta["partitions"]):
             for i in range(self.node_type_count):
                 self.node_weights[j][i] += meta["partitions"][id]["node_weight"][i]
-- 
2.43.0


From 16d93ad1714c8db99391f2a1cbe8ba9779671056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:23:35 +0000
Subject: [PATCH 07/33] fix: merge metadata under the partition ids of the
 binary files

---
 .../deepgnn/graph_engine/snark/meta_merger.py   | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/meta_merger.py b/src/python/deepgnn/graph_engine/snark/meta_merger.py
index 4b8d412..5362636 100644
--- a/src/python/deepgnn/graph_engine/snark/meta_merger.py
+++ b/src/python/deepgnn/graph_engine/snark/meta_merger.py
@@ -54,7 +54,8 @@ class Meta:
         self.edge_type_count = meta["edge_type_count"]
         self.node_feature_count = meta["node_feature_count"]
         self.edge_feature_count = meta["edge_feature_count"]
-        self.partition_count = len(meta["partitions"])
+        self.partition_ids = list(meta["partitions"])
+        self.partition_count = len(self.partition_ids)
         self.node_weights = [
             [0.0] * self.node_type_count for _ in range(self.partition_count)
         ]
@@ -71,15 +72,15 @@ class Meta:
         self.edge_count_per_type = meta["edge_count_per_type"]
         self.watermark = meta["watermark"]
 
-    def get_partition(self, offset):
-        """Return the sub content of meta info."""
+    def get_partition(self):
+        """Return the sub content of meta info under ids used in binary files."""
         return {
-            f"{offset + i}": {
+            id: {
                 "node_weight": self.node_weights[i],
                 "edge_weight": self.edge_weights[i],
             }
-            for i in range(self.partition_count)
-        }, offset + self.partition_count
+            for i, id in enumerate(self.partition_ids)
+        }
 
 
 def merge(fs, output_dir: str, meta_list: List[Meta]):
@@ -97,11 +98,9 @@ def merge(fs, output_dir: str, meta_list: List[Meta]):
         "edge_feature_count": int(meta_list[0].edge_feature_count),
         "watermark": int(meta_list[0].watermark),
     }
-    offset = 0
     content["partitions"] = {}
     for i in meta_list:
-        data, offset = i.get_partition(offset)
-        content["partitions"].update(data)
+        content["partitions"].update(i.get_partition())
 
     content["node_count_per_type"] = [
         sum([i.node_count_per_type[count] for i in meta_list])
-- 
2.43.0


From 9ae723c3efb4dc777c346d177fd8861585adb3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:24 +0000
Subject: [PATCH 08/33] fix: store timestamps equal to zero as given

---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 0ea7a9d..7515f75 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -102,8 +102,8 @@ class BinaryWriter:
                         self.node_type_count.append(0)
                     self.node_type_num = type_num_value
                 # Fill defaults for a new node
-                node_created_at = created_at or 0
-                node_removed_at = removed_at or -1
+                node_created_at = 0 if created_at is None else created_at
+                node_removed_at = -1 if removed_at is None else removed_at
                 self.node_writer.add(
                     src,
                     typ,
@@ -146,8 +146,8 @@ class BinaryWriter:
                     or node_removed_at == -1
                     or removed_at <= node_removed_at
                 ), f"Edge ({src}, {dst}, {typ}) was deleted[{removed_at}] after source node[{node_removed_at}]."
-                created_at = created_at or node_created_at
-                removed_at = removed_at or node_removed_at
+                created_at = node_created_at if created_at is None else created_at
+                removed_at = node_removed_at if removed_at is None else removed_at
                 self.edge_writer.add(
                     dst,
                     typ,
-- 
2.43.0


From c825835a2a3456bfeccfb160f9dc795d7d6cbc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:35:59 +0000
Subject: [PATCH 09/33] fix: check edge times against their own source node

---
 .../deepgnn/graph_engine/snark/converter/writers.py       | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/converter/writers.py b/src/python/deepgnn/graph_engine/snark/converter/writers.py
index 7515f75..08b1a99 100644
--- a/src/python/deepgnn/graph_engine/snark/converter/writers.py
+++ b/src/python/deepgnn/graph_engine/snark/converter/writers.py
@@ -69,6 +69,8 @@ class BinaryWriter:
         self.edge_type_count: typing.List[int] = []
         self.prev_node_id: typing.Optional[int] = None
         self.prev_edge_type: typing.Optional[int] = None
+        # Default values for timestamps: node existed since the very beginning and towards the very end.
+        self.node_lifetime: typing.Tuple[int, int] = (0, -1)
 
     def add(
         self,
@@ -87,9 +89,7 @@ class BinaryWriter:
                 Each entry for a node/edge is,
                 (node_id/src, -1/dst, type, weight, created_at, removed_at, [ndarray for each feature vector or None in order of feature index]).
         """
-        # Default values for timestamps: node existed since the very beginning and towards the very end.
-        node_created_at = 0
-        node_removed_at = -1
+        node_created_at, node_removed_at = self.node_lifetime
         for src, dst, typ, weight, created_at, removed_at, features in data:
             type_num_value = typ + 1
             if dst == -1:
@@ -104,6 +104,7 @@ class BinaryWriter:
                 # Fill defaults for a new node
                 node_created_at = 0 if created_at is None else created_at
                 node_removed_at = -1 if removed_at is None else removed_at
+                self.node_lifetime = (node_created_at, node_removed_at)
                 self.node_writer.add(
                     src,
                     typ,
@@ -119,6 +120,7 @@ class BinaryWriter:
             else:
                 if src != self.prev_node_id or self.prev_node_id is None:
                     self.prev_edge_type = None
+                    node_created_at, node_removed_at = self.node_lifetime = (0, -1)
                     self.node_writer.add(
                         src,
                         -1,
-- 
2.43.0


From d7c858d1a4598d68ee8dd879616abc01e86f7aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:28:01 +0000
Subject: [PATCH 10/33] fix: download edge timestamps of temporal graphs

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 6b84c13..4ba6a0a 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -83,6 +83,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
                 )
             )
 
+        if graph_meta.watermark >= 0:
+            lpath.append(
+                mt._get_element_timestamps_path(
+                    mt._Element.EDGE, partition_path, partition_index, -1, fs.sep
+                )
+            )
+
         # Use pattern matching to skip downloading alias tables if they were not created
         lpath.append(
             mt._get_element_alias_path(
-- 
2.43.0


From bc83ca8e0b69d30eec6f6cc6cba59c908b3c523c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:33:42 +0000
Subject: [PATCH 11/33] fix: fetch each remote partition from its own
 filesystem

---
 src/python/deepgnn/graph_engine/snark/_downloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/_downloader.py b/src/python/deepgnn/graph_engine/snark/_downloader.py
index 4ba6a0a..08cf5ae 100644
--- a/src/python/deepgnn/graph_engine/snark/_downloader.py
+++ b/src/python/deepgnn/graph_engine/snark/_downloader.py
@@ -39,13 +39,13 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
     data_path = tempfile.TemporaryDirectory(suffix="_snark")
     fs.get(mt._get_meta_path(path, fs.sep), mt._get_meta_path(data_path.name))
     graph_meta = mt.Meta(data_path.name)
-    lpath = []
     for i in range(len(partitions)):
         partition_path, partition_index = partitions[i]
         fs, _ = get_fs(partition_path)
         if isinstance(fs, LocalFileSystem):
             continue
 
+        lpath = []
         lpath.append(mt._get_node_map_path(partition_path, partition_index, -1, fs.sep))
         lpath.append(
             mt._get_neighbors_index_path(partition_path, partition_index, -1, fs.sep)
@@ -104,6 +104,6 @@ def download_graph_data(path: str, partitions: List[Tuple[str, int]]) -> GraphPa
         )
 
         partitions[i] = (data_path.name, partition_index)
+        fs.get(lpath, data_path.name)
 
-    fs.get(lpath, data_path.name)
     return GraphPath(data_path)
-- 
2.43.0


From c4f7a28ec317bbf13a7013d8e4425d3bfeac043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:49:20 +0000
Subject: [PATCH 12/33] fix: decode empty feature lists

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index c224f96..762717d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -367,7 +367,7 @@ class JsonDecoder(Decoder):
                     ret_list.append(None)
                     curr += 1
 
-                if isinstance(value, list) and isinstance(value[0], dict):
+                if isinstance(value, list) and value and isinstance(value[0], dict):
                     value = self._serialize_temporal_features(
                         value, created_at, removed_at, key
                     )
-- 
2.43.0


From 5eae667d6d0b2878f92aab8c070dfc75ace7818d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:56:00 +0000
Subject: [PATCH 13/33] fix: order TSV neighbors without an edge type

---
 src/python/deepgnn/graph_engine/snark/decoders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/decoders.py b/src/python/deepgnn/graph_engine/snark/decoders.py
index 762717d..885a19d 100644
--- a/src/python/deepgnn/graph_engine/snark/decoders.py
+++ b/src/python/deepgnn/graph_engine/snark/decoders.py
@@ -532,7 +532,8 @@ class TsvDecoder(Decoder):
 
         def order(edge):
             edge_items = edge.split(",")
-            return int(edge_items[1]), int(edge_items[0])
+            has_type = len(edge_items) > 1 and edge_items[1]
+            return int(edge_items[1]) if has_type else 0, int(edge_items[0])
 
         for n in sorted(neighbors, key=order):
             neighbor_columns = n.split(",")
-- 
2.43.0


From bcb6afca4fe089aa72900886984d4af1286d8e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:07 +0000
Subject: [PATCH 14/33] fix: split text input at line feeds only

---
 .../deepgnn/graph_engine/_adl_reader.py       | 25 ++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index d2417e6..0bc8166 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -26,6 +26,13 @@ class FetchDone(object):
         self.exception_info = exception
 
 
+def _split_lines(content) -> List[str]:
+    """Split utf-8 bytes at line feeds only, leaving out empty lines."""
+    lines = content.decode("utf-8").split("\n")
+    lines = [line[:-1] if line.endswith("\r") else line for line in lines]
+    return [line for line in lines if len(line) > 0]
+
+
 class AdlCredentialParser:
     @staticmethod
     def read_credentials(config: Optional[str] = None) -> dict:
@@ -182,10 +189,8 @@ class TextFileIterator:
                     sub_block[last_delim_index + 1 :]
                 )
                 if last_delim_index != first_delim_index:
-                    decoded_buf[index]["lines"] = (
+                    decoded_buf[index]["lines"] = _split_lines(
                         sub_block[first_delim_index + 1 : last_delim_index]
-                        .decode("utf-8")
-                        .splitlines()
                     )
 
             len_to_read = self.get_length_to_read()
@@ -237,9 +242,7 @@ class TextFileIterator:
             if cur_buf["suffix"] is not None:
                 if head_block["suffix"] is not None:
                     # there is '\n' in head block, concat the current prefix and head's suffix and decode.
-                    head_block["lines"].extend(
-                        head_buf.decode("utf-8").splitlines(False)
-                    )
+                    head_block["lines"].extend(_split_lines(head_buf))
 
                 # concat lines in current block into head block
                 head_block["lines"].extend(cur_buf["lines"])
@@ -380,20 +383,14 @@ class TextFileIterator:
             self.outputs.task_done()
             # if the head is finish indicator, convert the remaining unprocessed bytes to string and return
             if type(head) is FetchDone:
-                if len(self.remain_bytes) != 0:
-                    line = self.remain_bytes.decode("utf-8").strip("\r\n")
-                    if len(line) > 0:
-                        buf.append(line)
+                buf.extend(_split_lines(self.remain_bytes))
                 break
 
             if len(head["prefix"]) > 0:
                 self.remain_bytes += head["prefix"]
 
             if head["suffix"] is not None:
-                if len(self.remain_bytes) > 0:
-                    self.remain_lines.extend(
-                        self.remain_bytes.decode("utf-8").splitlines(False)
-                    )
+                self.remain_lines.extend(_split_lines(self.remain_bytes))
                 self.remain_lines.extend(head["lines"])
                 self.remain_bytes = head["suffix"]
 
-- 
2.43.0


From d77fe41d52662631334af0fdfb13580cdb695882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:59:07 +0000
Subject: [PATCH 15/33] fix: read text input with at least one thread

---
 src/python/deepgnn/graph_engine/_adl_reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/_adl_reader.py b/src/python/deepgnn/graph_engine/_adl_reader.py
index 0bc8166..7b20b56 100644
--- a/src/python/deepgnn/graph_engine/_adl_reader.py
+++ b/src/python/deepgnn/graph_engine/_adl_reader.py
@@ -115,7 +115,7 @@ class TextFileIterator:
         self.stop = False
         self.remain_lines: List[str] = []
         self.thread_count = thread_count
-        if self.thread_count < 0:
+        if self.thread_count < 1:
             self.thread_count = 1
         self.remain_bytes = bytearray()
         # queue of file content bytes.
-- 
2.43.0


From a9c2d01ee69b943e94bed69d040e0a4201e48dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:57 +0000
Subject: [PATCH 16/33] fix: stop again after prefetching an empty sampler

---
 src/python/deepgnn/graph_engine/prefetch.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index 6cd7040..c2f8a4a 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -152,7 +152,7 @@ class Generator:
         collate_fn: Optional[Callable] = None,
     ):
         """Initialize generator."""
-        self.count = 0
+        self.count = -1
         self.index = 0
         self.outputs: Queue[Tuple[np.ndarray]] = Queue(prefetch_size)
         self.max_workers = max_workers
@@ -190,7 +190,7 @@ class Generator:
 
     def __next__(self):
         """Parse the queue and get the "count" queue item. Use it to decide terminate the iteration or not."""
-        if self.count > 0 and self.index == self.count + 1:
+        if self.count >= 0 and self.index == self.count + 1:
             raise StopIteration
 
         item = self.outputs.get()
-- 
2.43.0


From 700ec4897b054f461c184da25f459ad9e8801a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:07:57 +0000
Subject: [PATCH 17/33] fix: raise query failures that arrive after the end
 marker

---
 src/python/deepgnn/graph_engine/prefetch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/prefetch.py b/src/python/deepgnn/graph_engine/prefetch.py
index c2f8a4a..52804f6 100644
--- a/src/python/deepgnn/graph_engine/prefetch.py
+++ b/src/python/deepgnn/graph_engine/prefetch.py
@@ -196,7 +196,7 @@ class Generator:
         item = self.outputs.get()
         self.outputs.task_done()
         self.index += 1
-        if type(item) is FetchDone:
+        while type(item) is FetchDone:
             if item.exception_info is not None:
                 get_logger().error(item.exception_info)
                 raise Exception(item.exception_info)
-- 
2.43.0


From 31a6517d80d977064160ab2a1adee103cb58639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:01 +0000
Subject: [PATCH 18/33] fix: give uniform neighbor sampling a buffer whenever
 creation times are requested

---
 src/python/deepgnn/graph_engine/snark/client.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index c82129b..2c376e4 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1091,9 +1091,7 @@ class MemoryGraph:
             result_types.ctypes.data_as(POINTER(c_int32)),
             (
                 None
-                if timestamps is None
-                or len(timestamps) == 0
-                or (not return_edge_created_ts)
+                if not return_edge_created_ts
                 else result_ts.ctypes.data_as(POINTER(c_int64))
             ),
             c_int64(default_node),
-- 
2.43.0


From 9f5784d8bf5a298a3465ade9d1aacffb09649a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:26:01 +0000
Subject: [PATCH 19/33] fix: pass the default edge type to weighted neighbor
 sampling

---
 src/python/deepgnn/graph_engine/snark/local.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 58dea18..a1a86dc 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -120,6 +120,7 @@ class Client(Graph):
                 count,
                 default_node,
                 default_weight,
+                default_edge_type,
                 seed=int(random.getrandbits(64)),
                 timestamps=timestamps,
                 return_edge_created_ts=return_edge_created_ts,
-- 
2.43.0


From b0fc3d6281183e723baf621a98254f2f80a169e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:48:10 +0000
Subject: [PATCH 20/33] fix: reuse samplers only for the same types and
 strategy

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index a1a86dc..3c79e60 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -65,7 +65,7 @@ class Client(Graph):
         """Return an array of nodes with a specified type."""
         assert size > 0
 
-        key = _sampling_map[strategy] + str(node_types)
+        key = _sampling_map[strategy] + str(self.__check_types(node_types))
         if key not in self.node_samplers:
             self.node_samplers[key] = client.NodeSampler(
                 self.graph, self.__check_types(node_types), _sampling_map[strategy]
@@ -84,7 +84,7 @@ class Client(Graph):
         """Return an array of edges with a specified type."""
         assert size > 0
 
-        key = str(edge_types)
+        key = _sampling_map[strategy] + str(self.__check_types(edge_types))
         if key not in self.edge_samplers:
             self.edge_samplers[key] = client.EdgeSampler(
                 self.graph, self.__check_types(edge_types), _sampling_map[strategy]
-- 
2.43.0


From cea420ff727696d29069299656a86d4f0226736c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:38 +0000
Subject: [PATCH 21/33] fix: cap retry waits at the configured maximum backoff

---
 src/python/deepgnn/graph_engine/snark/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 2c376e4..5f57e11 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1428,7 +1428,7 @@ class DistributedGraph(MemoryGraph):
             wait=wait_exponential(
                 multiplier=retry_ops["backoff_multiplier"],
                 min=retry_ops["initial_backoff"],
-                max=retry_ops["max_attempts"],
+                max=retry_ops["max_backoff"],
             ),
             before=before_log(get_logger(), logging.DEBUG),
             after=after_log(get_logger(), logging.WARNING),
-- 
2.43.0


From ee5d265687a2359bc800962b4913a9256b2d8c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:38 +0000
Subject: [PATCH 22/33] fix: retry failed personalized PageRank sampling like
 other queries

---
 src/python/deepgnn/graph_engine/snark/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/client.py b/src/python/deepgnn/graph_engine/snark/client.py
index 5f57e11..4a591cb 100644
--- a/src/python/deepgnn/graph_engine/snark/client.py
+++ b/src/python/deepgnn/graph_engine/snark/client.py
@@ -1136,7 +1136,8 @@ class MemoryGraph:
         etypes_arr = TypeArray(*edge_types)
         result_nodes = np.full((len(nodes), count), default_node, dtype=np.int64)
         result_weights = np.full((len(nodes), count), default_weight, dtype=np.float32)
-        self.lib.PPRSampleNeighbor(
+        self._retryer(
+            self.lib.PPRSampleNeighbor,
             self.g_,
             nodes.ctypes.data_as(POINTER(c_int64)),
             c_size_t(nodes.size),
-- 
2.43.0


From a03fd65d0f558c8ff68fc3b8951b0e33290b159f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:09:38 +0000
Subject: [PATCH 23/33] fix: load the requested partitions in the local client

---
 src/python/deepgnn/graph_engine/snark/local.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/snark/local.py b/src/python/deepgnn/graph_engine/snark/local.py
index 3c79e60..8e6de16 100644
--- a/src/python/deepgnn/graph_engine/snark/local.py
+++ b/src/python/deepgnn/graph_engine/snark/local.py
@@ -37,9 +37,7 @@ class Client(Graph):
         if len(partitions) == 0:
             self.logger.info("Partitions not set, defaulting to [0]")
             partitions = [0]
-        partitions_with_paths = [
-            (path, partition) for partition in range(len(partitions))
-        ]
+        partitions_with_paths = [(path, partition) for partition in partitions]
         self.logger.info(
             f"Graph data path: {path}. Partitions {partitions}. Storage type {storage_type}. Config path {config_path}. Stream {stream}."
         )
-- 
2.43.0


From 1cdc53e7e4f3fa5f31ae2db83d5eebc51dd776bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:22:22 +0000
Subject: [PATCH 24/33] fix: use the right window size for the right side of
 skipgram windows

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index 231f5c7..aad957c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -82,7 +82,7 @@ def gen_skipgrams(
         # each path
         for j in range(0, path_len):
             left_start = max(0, j - left_win_size)
-            right_end = min(path_len - 1, j + left_win_size)
+            right_end = min(path_len - 1, j + right_win_size)
             for k in range(left_start, right_end + 1):
                 if k == j:
                     continue
-- 
2.43.0


From a6fb826b98051cf74e35d91bcab28fb7a5bc0682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:20 +0000
Subject: [PATCH 25/33] fix: leave the worker list as given when looking up the
 server index

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 4791eea..02d94d3 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -290,9 +290,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
 
     def _extract_server_index(self, workers: List[str], index: int) -> Optional[int]:
         curr_worker = workers[index]
-        workers.sort()
         seen_hosts = set()
-        for worker in workers:
+        for worker in sorted(workers):
             host = worker.rsplit(":", 1)[0]
             if curr_worker != worker:
                 seen_hosts.add(host)
-- 
2.43.0


From 78ead50ce354bc7e89fa97f2c353780def33bdfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:20 +0000
Subject: [PATCH 26/33] fix: count partitions in the json metadata to size a
 cluster

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 02d94d3..264f805 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -183,9 +183,8 @@ class SnarkDistributedBackend(GraphEngineBackend):
             # TODO(alsamylk): provide a better metadata reader in snark
             with open(os.path.join(options.data_dir, "meta.json"), "r") as meta:
                 # Use a simple heuristic: number of original partitions, but cap it at 4
-                # to avoid extreme cases. Partition count is written on 7th line.
-                lines = meta.readlines()
-                options.num_ge = min(int(lines[7]), 4)
+                # to avoid extreme cases.
+                options.num_ge = min(len(json.load(meta)["partitions"]), 4)
 
         # Use explicitly set index if it was provided
         if options.server_idx is not None:
-- 
2.43.0


From 84cc0a3268168d8974c5262d8825b114915f1d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:45:20 +0000
Subject: [PATCH 27/33] fix: order discovered server addresses by server index

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 264f805..6e7806f 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -395,7 +395,7 @@ class _AddressFinder:
 # _AddressReader must be wrapped by SynchronizedClient to wait all servers.
 class _AddressReader:
     def __init__(self, path: str):
-        self._servers: List[str] = []
+        servers: List[Tuple[int, str]] = []
         for file_name in glob.glob(os.path.join(path, "*.servername")):
             with open(file_name, "r", newline=os.linesep) as f:
                 # First line is the address and the second - server index.
@@ -403,7 +403,9 @@ class _AddressReader:
                 assert len(raw) == 2
                 server_idx = int(raw[1])
                 if server_idx >= 0:
-                    self._servers.append(raw[0].rstrip(os.linesep))
+                    servers.append((server_idx, raw[0].rstrip(os.linesep)))
+        # Clients and servers look up addresses by server index.
+        self._servers: List[str] = [address for _, address in sorted(servers)]
 
     def servers(self) -> List[str]:
         return self._servers
-- 
2.43.0


From af2e570f5cda6c0ff51ad79aa002caca8f93879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:36 +0000
Subject: [PATCH 28/33] fix: count a self edge once when subgraphs add self
 loops

---
 src/python/deepgnn/graph_engine/graph_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/graph_ops.py b/src/python/deepgnn/graph_engine/graph_ops.py
index aad957c..950b34c 100644
--- a/src/python/deepgnn/graph_engine/graph_ops.py
+++ b/src/python/deepgnn/graph_engine/graph_ops.py
@@ -174,6 +174,6 @@ def sub_graph(
 
         # add self loop
         if self_loop:
-            adj += np.eye(n)
+            np.fill_diagonal(adj, 1)
 
         return unique_nodes, adj, src_nodes_idx
-- 
2.43.0


From 9b30d4cea7742b27ce29a1f54d750f0e99fb4435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:55:40 +0000
Subject: [PATCH 29/33] fix: open every partition of a dataset that was built
 with several

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 6e64d62..222437f 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -108,7 +108,7 @@ class Dataset(Client):
         self._build_graph_impl(
             self.input_location, self.output_dir, train_node_ratio, random_selection
         )
-        super().__init__(self.output_dir, partitions=[0])
+        super().__init__(self.output_dir, partitions=list(range(num_partitions)))
 
     def _build_graph_impl(
         self,
-- 
2.43.0


From 63f7bb1a48a1a3474a0cdc8267ea55258c098003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 12:55:40 +0000
Subject: [PATCH 30/33] fix: read a downloaded dataset archive from where it
 was saved

---
 src/python/deepgnn/graph_engine/data/data_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/data/data_util.py b/src/python/deepgnn/graph_engine/data/data_util.py
index 222437f..18cb2ae 100644
--- a/src/python/deepgnn/graph_engine/data/data_util.py
+++ b/src/python/deepgnn/graph_engine/data/data_util.py
@@ -120,7 +120,7 @@ class Dataset(Client):
         filename = self.GRAPH_NAME + ".zip"
         if "http" in self.input_location:
             download_file(input_location, ".", filename)
-            input_location = os.path.join(input_location, filename)
+            input_location = os.path.join(".", filename)
         if self.input_location == "local":
             package_name = "deepgnn.graph_engine.data"
             zip_filename = f"{self.GRAPH_NAME}.zip"
-- 
2.43.0


From 3011ccdb24b6a3a6106606bcfdb439e830243ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:06:08 +0000
Subject: [PATCH 31/33] fix: convert graphs without a watermark on the command
 line as non-temporal

---
 src/python/deepgnn/graph_engine/snark/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/convert.py b/src/python/deepgnn/graph_engine/snark/convert.py
index a1fd1ca..73adfce 100755
--- a/src/python/deepgnn/graph_engine/snark/convert.py
+++ b/src/python/deepgnn/graph_engine/snark/convert.py
@@ -272,6 +272,7 @@ if __name__ == "__main__":
         decoder=decoder,
         skip_node_sampler=args.skip_node_sampler,
         skip_edge_sampler=args.skip_edge_sampler,
-        watermark=args.watermark,
+        # -1 stands for a graph without timestamps.
+        watermark=args.watermark if args.watermark >= 0 else None,
     )
     c.convert()
-- 
2.43.0


From 5b114385b329ab54a757d14153aa8e63684eed24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:09:12 +0000
Subject: [PATCH 32/33] fix: apply the configured retry policy to clients of
 servers the backend starts

---
 src/python/deepgnn/graph_engine/backends/snark/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/python/deepgnn/graph_engine/backends/snark/client.py b/src/python/deepgnn/graph_engine/backends/snark/client.py
index 6e7806f..3c800ba 100644
--- a/src/python/deepgnn/graph_engine/backends/snark/client.py
+++ b/src/python/deepgnn/graph_engine/backends/snark/client.py
@@ -133,6 +133,7 @@ class SnarkDistributedBackend(GraphEngineBackend):
             DistributedClient,
             options.servers,
             options.ssl_cert,
+            grpc_options=options.grpc_options,
         )
 
     def _check_servers_option(
-- 
2.43.0


From c2ea8d59812595a56466504bfc92da715f6f983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 14:09:12 +0000
Subject: [PATCH 33/33] fix: keep the retry policy of a remote client across
 serialization

---
 src/python/deepgnn/graph_engine/snark/distributed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/python/deepgnn/graph_engine/snark/distributed.py b/src/python/deepgnn/graph_engine/snark/distributed.py
index fca4834..0f36dc8 100644
--- a/src/python/deepgnn/graph_engine/snark/distributed.py
+++ b/src/python/deepgnn/graph_engine/snark/distributed.py
@@ -33,6 +33,7 @@ class Client(ge_snark.Client):
             servers = [servers]
         self._servers = servers
         self._ssl_cert = ssl_cert
+        self._grpc_options = grpc_options
         self.graph = client.DistributedGraph(
             servers,
             ssl_cert,
@@ -53,7 +54,7 @@ class Client(ge_snark.Client):
             get_logger().setLevel(logging.ERROR)
             return Client(*args)
 
-        return deserialize, (self._servers, self._ssl_cert)
+        return deserialize, (self._servers, self._ssl_cert, self._grpc_options)
 
 
 class Server:
-- 
2.43.0

