From bc9f6c635eb3cc73e89b639296a19d6030fc4cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 01/45] fix: make the KV pool large enough for the last page in
 paged mode

---
 pymllm/mem_cache/memory_pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/memory_pool.py b/pymllm/mem_cache/memory_pool.py
index 9c8ab2a..4dcf6db 100644
--- a/pymllm/mem_cache/memory_pool.py
+++ b/pymllm/mem_cache/memory_pool.py
@@ -456,8 +456,13 @@ def make_full_attention_net_mem_pool(
     -------
     (KVPool, TokenToKVPoolAllocator)
     """
+    # Page 0 is reserved for padding and pages are numbered from 1, so in paged
+    # mode the last token index is (num_pages + 1) * page_size - 1.
+    pool_size = size
+    if page_size > 1:
+        pool_size = (size // page_size + 1) * page_size - 1
     pool = KVPool(
-        size=size,
+        size=pool_size,
         layer_num=layer_num,
         k_head_num=k_head_num,
         k_head_dim=k_head_dim,
-- 
2.43.0


From 0d04e23bc64cddb79d4167642daba50fe8bb4b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 02/45] fix: keep a cached parent in the evictable size when a
 child is added

---
 pymllm/mem_cache/radix_cache.py | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index 80f3d6f..e7d3fec 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -639,14 +639,6 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         swa_tombstone: bool = False,
     ) -> TreeNode:
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.lock_ref == 0
-            and not parent.evicted
-        ):
-            self._evictable_size -= len(parent.key)
-
         new_node = TreeNode()
         new_node.parent = parent
         new_node.key = key
-- 
2.43.0


From 80e0268d2e8ee2a22f7a670fecb1051eff4ef3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 03/45] fix: do not release or cache a KV slot for the last
 sampled token

---
 pymllm/orchestrator/model_runner_process.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index d7b6585..eeb9c56 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1036,9 +1036,11 @@ class ModelRunnerProcess:
         # ----------------------------------------------------------
         # Phase 1: Read all KV indices BEFORE freeing anything.
         # ----------------------------------------------------------
+        # The last sampled token has not been fed through the model yet, so it
+        # owns no KV slot: only the output tokens before it count.
         prompt_len = len(input_ids) if input_ids is not None else 0
-        decode_len = len(output_ids) if output_ids else 0
-        total_len = prompt_len + decode_len
+        computed_output_ids = output_ids[:-1] if output_ids else []
+        total_len = prompt_len + len(computed_output_ids)
 
         all_kv_indices: Optional[torch.Tensor] = None
         if slot is not None and input_ids is not None:
@@ -1051,7 +1053,7 @@ class ModelRunnerProcess:
         # ----------------------------------------------------------
         did_insert = False
         if cache_enabled and all_kv_indices is not None:
-            if self._is_hybrid and decode_len > 0:
+            if self._is_hybrid and output_ids:
                 # Hybrid model: insert only prompt tokens (not decode)
                 # because GDN state is only tracked at the prompt boundary.
                 prompt_kv = all_kv_indices[:prompt_len]
@@ -1072,8 +1074,7 @@ class ModelRunnerProcess:
             else:
                 # Non-hybrid or no decode tokens: insert full sequence
                 full_token_ids = list(input_ids)
-                if output_ids:
-                    full_token_ids.extend(output_ids)
+                full_token_ids.extend(computed_output_ids)
                 key = RadixKey(full_token_ids)
                 result = cache.insert(key, all_kv_indices)
                 new_prefix_len = result.prefix_len
-- 
2.43.0


From 7eb4938b4e5db57b0217c61991a9607167dc5acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:03 +0000
Subject: [PATCH 04/45] fix: recompute a fully cached one-token prompt instead
 of extending by zero tokens

---
 pymllm/orchestrator/model_runner_process.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index eeb9c56..dfe4770 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -723,8 +723,9 @@ class ModelRunnerProcess:
             #    where s1 (log-partition) is computed incorrectly, causing
             #    the cascade merge to produce wrong logits → EOS.
             # By ensuring extend_len >= 2, we avoid both issues.
-            if prefix_len >= full_seq_len - 1 and full_seq_len >= 2:
-                prefix_len = full_seq_len - 2
+            # A one-token prompt that is fully cached is simply recomputed.
+            if prefix_len >= full_seq_len - 1:
+                prefix_len = max(full_seq_len - 2, 0)
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 36e84aa2e3d7d1ce81454de9ee709353640f28b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 05/45] fix: keep multimodal prompts out of the prefix cache

---
 pymllm/orchestrator/model_runner_process.py | 28 +++++++++++++++------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index dfe4770..4911249 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -76,6 +76,9 @@ class ModelRunnerProcess:
         # Maps rid -> (last_node, lock_token) for radix cache lock tracking.
         # last_node type depends on the cache implementation (TreeNode, MambaTreeNode, etc.)
         self._rid_to_radix_lock: Dict[str, Tuple[Any, Optional[Any]]] = {}
+        # Requests whose KV must not be shared through the prefix cache
+        # (multimodal prompts: equal token ids do not mean equal content).
+        self._uncached_rids: Set[str] = set()
         # Maps rid -> mrope_position_delta (M-RoPE positional offset per request)
         # Populated during prefill; used to offset decode-step positions for
         # multimodal models (Qwen3-VL) that consume more position indices than
@@ -531,7 +534,7 @@ class ModelRunnerProcess:
         for m in requests_meta:
             rid = m["rid"]
             input_ids = self._rid_to_input_ids.get(rid)
-            if input_ids is None:
+            if input_ids is None or rid in self._uncached_rids:
                 continue
 
             slot = self._rid_to_req_pool_idx.get(rid)
@@ -682,7 +685,17 @@ class ModelRunnerProcess:
             # Store input_ids for later radix cache insert
             self._rid_to_input_ids[m["rid"]] = full_input_ids
 
-            if cache is not None and len(full_input_ids) > 0:
+            # A multimodal prompt holds placeholder ids, not its image content,
+            # and needs all its image tokens in the extend: it neither reuses
+            # nor publishes cached KV.
+            if m.get("mm_inputs") is not None:
+                self._uncached_rids.add(m["rid"])
+
+            if (
+                cache is not None
+                and len(full_input_ids) > 0
+                and m["rid"] not in self._uncached_rids
+            ):
                 key = RadixKey(full_input_ids)
                 match_result = cache.match_prefix(key)
                 prefix_len = match_result.prefix_len
@@ -871,7 +884,7 @@ class ModelRunnerProcess:
                 # Allocate a track slot only when the radix cache is enabled;
                 # track slots are freed via the eviction callback so they must
                 # be associated with a node, which only happens when cache is on.
-                if cache is not None:
+                if cache is not None and rid not in self._uncached_rids:
                     ts = gdn_pool.alloc_track_slot()
                     if ts is not None:
                         self._rid_to_gdn_track_slot[rid] = ts
@@ -1026,6 +1039,8 @@ class ModelRunnerProcess:
         cache_protected_len = self._rid_to_cache_protected_len.pop(rid, 0)
         radix_lock = self._rid_to_radix_lock.pop(rid, None)
         self._rid_to_mrope_delta.pop(rid, None)
+        uncached = rid in self._uncached_rids
+        self._uncached_rids.discard(rid)
 
         # Free GDN track slot (if any) — the slot's association with a
         # radix node is managed separately via _node_id_to_gdn_track_slot
@@ -1053,7 +1068,7 @@ class ModelRunnerProcess:
         # Phase 2: Insert into radix cache (if enabled).
         # ----------------------------------------------------------
         did_insert = False
-        if cache_enabled and all_kv_indices is not None:
+        if cache_enabled and all_kv_indices is not None and not uncached:
             if self._is_hybrid and output_ids:
                 # Hybrid model: insert only prompt tokens (not decode)
                 # because GDN state is only tracked at the prompt boundary.
@@ -1100,9 +1115,8 @@ class ModelRunnerProcess:
         # ----------------------------------------------------------
         if not did_insert:
             if cache_enabled and all_kv_indices is not None:
-                # Cache enabled but insert skipped (shouldn't happen in
-                # normal flow).  Tree owns [0, cache_protected_len);
-                # free the rest.
+                # Cache enabled but insert skipped (multimodal requests).
+                # Tree owns [0, cache_protected_len); free the rest.
                 tail = all_kv_indices[cache_protected_len:]
                 if tail.numel() > 0:
                     runner.token_to_kv_pool_allocator.free(tail)
-- 
2.43.0


From 1ea1c3dd700580cded573f84acf177da1d314140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:32 +0000
Subject: [PATCH 06/45] fix: do not resume a hybrid model from a snapshot taken
 after the reused prefix

---
 pymllm/orchestrator/model_runner_process.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 4911249..55f66cd 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -739,6 +739,11 @@ class ModelRunnerProcess:
             # A one-token prompt that is fully cached is simply recomputed.
             if prefix_len >= full_seq_len - 1:
                 prefix_len = max(full_seq_len - 2, 0)
+                if gdn_pool is not None:
+                    # The recurrent-state snapshot belongs to the end of the
+                    # matched node and cannot be rewound to a shorter prefix.
+                    prefix_len = 0
+                    last_node = None
                 if cached_indices is not None:
                     cached_indices = cached_indices[:prefix_len]
 
-- 
2.43.0


From 0f42c2528e9c65602e3a0f2120c0fd36723a2d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:47 +0000
Subject: [PATCH 07/45] fix: survive KV memory exhaustion instead of ending the
 scheduler loop

The allocation failure of a batch raised RuntimeError out of the event loop,
which ended the scheduler process and with it every request.  The scheduler
now takes the newest request out of the batch and runs the rest.
---
 pymllm/engine/forward_batch.py              |  4 ++
 pymllm/orchestrator/model_runner_process.py | 20 +++++++---
 pymllm/orchestrator/scheduler_process.py    | 43 ++++++++++++++++++++-
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/pymllm/engine/forward_batch.py b/pymllm/engine/forward_batch.py
index 428da7b..42d6d7f 100644
--- a/pymllm/engine/forward_batch.py
+++ b/pymllm/engine/forward_batch.py
@@ -30,6 +30,10 @@ if TYPE_CHECKING:
     from pymllm.mem_cache.memory_pool import KVPool, ReqToTokenPool
 
 
+class KVCacheExhausted(RuntimeError):
+    """A batch does not fit into the free (and evictable) KV memory."""
+
+
 # ---------------------------------------------------------------------------
 # ForwardMode
 # ---------------------------------------------------------------------------
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 55f66cd..dce766b 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -25,6 +25,7 @@ from typing import Any, Dict, List, Optional, Tuple
 
 import torch
 
+from pymllm.engine.forward_batch import KVCacheExhausted
 from pymllm.mem_cache.base_prefix_cache import BasePrefixCache, RadixKey
 from pymllm.mem_cache.chunk_cache import ChunkCache
 from pymllm.mem_cache.mamba_radix_cache import MambaRadixCache
@@ -790,8 +791,10 @@ class ModelRunnerProcess:
         slots = runner.req_to_token_pool.alloc(batch_size)
         if slots is None:
             # Rollback locks on failure
-            self._unlock_matched_nodes(requests_meta)
-            raise RuntimeError("Failed to allocate req pool slots for extend batch")
+            self._rollback_extend(requests_meta)
+            raise KVCacheExhausted(
+                "Failed to allocate req pool slots for extend batch"
+            )
 
         # --- Step 3: Allocate KV tokens (with eviction retry) ---
         out_cache_loc = self._alloc_kv_with_eviction(total_new_tokens)
@@ -799,8 +802,8 @@ class ModelRunnerProcess:
             for s in slots:
                 runner.req_to_token_pool.free(s)
             # Rollback locks on failure
-            self._unlock_matched_nodes(requests_meta)
-            raise RuntimeError(
+            self._rollback_extend(requests_meta)
+            raise KVCacheExhausted(
                 f"Failed to allocate {total_new_tokens} KV tokens for extend batch "
                 f"(even after eviction)"
             )
@@ -912,6 +915,13 @@ class ModelRunnerProcess:
                 node, swa_id = lock
                 cache.dec_lock_ref(node, swa_id)
 
+    def _rollback_extend(self, requests_meta: List[Dict[str, Any]]) -> None:
+        """Forget the requests of an extend batch that could not be allocated."""
+        self._unlock_matched_nodes(requests_meta)
+        for m in requests_meta:
+            self._rid_to_input_ids.pop(m["rid"], None)
+            self._uncached_rids.discard(m["rid"])
+
     def _alloc_kv_with_eviction(self, num_tokens: int) -> Optional[torch.Tensor]:
         """Try to allocate KV tokens, evicting from radix cache if needed."""
         runner = self._runner
@@ -972,7 +982,7 @@ class ModelRunnerProcess:
         # Allocate 1 new KV token per request (with eviction retry)
         out_cache_loc = self._alloc_kv_with_eviction(batch_size)
         if out_cache_loc is None:
-            raise RuntimeError(
+            raise KVCacheExhausted(
                 f"Failed to allocate {batch_size} KV tokens for decode batch"
             )
 
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 29e05fe..78813d2 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -37,7 +37,7 @@ from typing import Any, Deque, Dict, List, Optional
 
 import zmq
 
-from pymllm.engine.forward_batch import ForwardMode
+from pymllm.engine.forward_batch import ForwardMode, KVCacheExhausted
 from pymllm.engine.io_struct import BatchTokenIDOutput, TokenizedGenerateReqInput
 from pymllm.orchestrator.cuda_ipc_transport import (
     TensorTransportMode,
@@ -505,8 +505,13 @@ class SchedulerProcess:
             self.recv_requests()
             self.process_input_requests()
             batch = self.get_next_batch_to_run()
+            result = None
+            while batch is not None and result is None:
+                try:
+                    result = self.run_batch(batch)
+                except KVCacheExhausted as exc:
+                    batch = self._relieve_memory(batch, exc)
             if batch is not None:
-                result = self.run_batch(batch)
                 self.process_batch_result(batch, result)
             else:
                 # No work available -- sleep until a new request arrives
@@ -747,6 +752,40 @@ class SchedulerProcess:
         batch_dict = batch.to_batch_dict()
         return self._model_runner._forward_batch(batch_dict)
 
+    def _relieve_memory(
+        self, batch: ScheduleBatch, exc: KVCacheExhausted
+    ) -> Optional[ScheduleBatch]:
+        """Take the newest request out of a batch that does not fit into the
+        KV memory and return the batch to run instead (``None`` if there is none).
+
+        A prefill that can be served once others have finished goes back to the
+        head of the pending queue.  A request that cannot be served is answered
+        with the finish reason ``"abort"``.
+        """
+        req = batch.reqs[-1]
+        rest = batch.reqs[:-1]
+        logger.warning("Out of KV memory (%s): taking out rid=%s", exc, req.rid)
+
+        if batch.forward_mode.is_extend():
+            self._free_req_resources(req)
+            if rest or self._running_batch:
+                self._pending_queue.insert(0, req)
+            else:
+                req.abort()
+                self._collect_finished_output(req)
+            if rest:
+                return ScheduleBatch(rest, ForwardMode.EXTEND)
+        else:
+            req.abort()
+            self._collect_finished_output(req)
+            self._model_runner._free_rid_resources(req.rid)
+            self._free_req_resources(req)
+            self._running_batch = rest
+
+        if self._running_batch:
+            return ScheduleBatch(self._running_batch, ForwardMode.DECODE)
+        return None
+
     # ------------------------------------------------------------------
     # Step 5: process batch result
     # ------------------------------------------------------------------
-- 
2.43.0


From 7a5a9b123e814c29d108070be6267664a7410a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:28 +0000
Subject: [PATCH 08/45] fix: do not store an incomplete last page in the radix
 cache

Lookups are page-aligned, so the entry of an incomplete page was never found
or locked again: its slots could be evicted under a running request.
---
 pymllm/mem_cache/mamba_radix_cache.py       |  4 ++++
 pymllm/mem_cache/radix_cache.py             |  5 +++++
 pymllm/orchestrator/model_runner_process.py | 11 ++++++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index bee8027..19834b1 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -384,6 +384,10 @@ class MambaRadixCache(BasePrefixCache):
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
+        # Only whole pages are stored: the indices of an incomplete last page
+        # stay with the caller.
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if len(key) == 0:
             return InsertResult()
 
diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index e7d3fec..bd9b250 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -270,9 +270,14 @@ class RadixCache(BasePrefixCache):
             (SWA mode) the sequence length up to which SWA KV has been
             previously evicted.  Used to decide whether a tombstoned node can
             be un-tombstoned with the incoming value.
+
+        Only whole pages are stored: the indices of an incomplete last page
+        stay with the caller.
         """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
+        key = self._page_align_key(key)
+        value = value[: len(key)]
         if self.supports_swa:
             plen = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index dce766b..2d37b5d 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -1099,7 +1099,10 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
-                # Free decode KV indices (tree does not own them)
+                # Free decode KV indices and those of an incomplete last page
+                # (tree does not own them)
+                cached_len = prompt_len // cache.page_size * cache.page_size
+                decode_kv = torch.cat([prompt_kv[cached_len:], decode_kv])
                 if decode_kv.numel() > 0:
                     runner.token_to_kv_pool_allocator.free(decode_kv)
             else:
@@ -1116,6 +1119,12 @@ class ModelRunnerProcess:
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
 
+                # Free the KV indices of an incomplete last page (tree does
+                # not own them)
+                tail = all_kv_indices[total_len // cache.page_size * cache.page_size :]
+                if tail.numel() > 0:
+                    runner.token_to_kv_pool_allocator.free(tail)
+
             did_insert = True
 
         # ----------------------------------------------------------
-- 
2.43.0


From b8f29b7573512ca12a6a7b291630452be2f3ea14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 09/45] fix: bound requests by the context length and answer
 prompts that never fit

A prompt longer than the prefill or total token limit waited forever, and a
request that reached the end of its req-to-token row ended the scheduler.
---
 pymllm/orchestrator/model_runner_process.py |  5 +++
 pymllm/orchestrator/scheduler_process.py    | 37 +++++++++++++++++++--
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index 2d37b5d..ea62e03 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -118,6 +118,11 @@ class ModelRunnerProcess:
         self._radix_cache = self._create_prefix_cache()
         logger.info("ModelRunnerProcess: ModelRunner ready")
 
+    @property
+    def context_len(self) -> int:
+        """Longest prompt + output of one request."""
+        return self._runner.context_len
+
     def _create_prefix_cache(self) -> BasePrefixCache:
         """Factory: create the appropriate prefix cache based on config."""
         disable_cache = getattr(self._server_config, "disable_radix_cache", False)
diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 78813d2..83b681c 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -115,6 +115,7 @@ class Req:
         "is_prefilled",
         # Sampling parameters (parsed)
         "max_new_tokens",
+        "context_len",
         "temperature",
         "top_p",
         "top_k",
@@ -142,6 +143,7 @@ class Req:
         return_logprob: bool = False,
         logprob_start_len: int = -1,
         top_logprobs_num: int = 0,
+        context_len: Optional[int] = None,
     ):
         self.rid = rid
         self.input_ids = list(input_ids)
@@ -156,6 +158,8 @@ class Req:
         sp = sampling_params or {}
         self.sampling_params = sp
         self.max_new_tokens: int = sp.get("max_new_tokens", _DEFAULT_MAX_NEW_TOKENS)
+        # Longest prompt + output the model can hold (None = no limit)
+        self.context_len: Optional[int] = context_len
         self.temperature: float = sp.get("temperature", 1.0)
         self.top_p: float = sp.get("top_p", 1.0)
         self.top_k: int = sp.get("top_k", -1)
@@ -195,7 +199,7 @@ class Req:
         Checks:
         1. Stop token (EOS tokens are merged into stop_token_ids during
            :meth:`SchedulerProcess.process_input_requests`)
-        2. ``max_new_tokens`` reached
+        2. ``max_new_tokens`` or the context length reached
         """
         if self.finished_reason is not None:
             return True
@@ -211,6 +215,13 @@ class Req:
             self.finished_reason = "length"
             return True
 
+        if (
+            self.context_len is not None
+            and self.prompt_len + len(self.output_ids) >= self.context_len
+        ):
+            self.finished_reason = "length"
+            return True
+
         return False
 
     @property
@@ -428,6 +439,9 @@ class SchedulerProcess:
         # Default max_new_tokens (from model config or fallback)
         self._default_max_new_tokens = default_max_new_tokens
 
+        # Longest prompt + output the model can hold (set in init_model)
+        self._context_len: Optional[int] = None
+
         # Monotonic request-slot counter (simplified; no GPU pool access)
         self._next_req_pool_idx: int = 0
 
@@ -492,6 +506,7 @@ class SchedulerProcess:
             model_config=self._model_config,
         )
         self._model_runner.init_model()
+        self._context_len = self._model_runner.context_len
         logger.info("In-process model runner initialised on GPU %d", self._gpu_id)
 
     def event_loop(self) -> None:
@@ -630,7 +645,8 @@ class SchedulerProcess:
         1. Parse sampling params (max_new_tokens, temperature, top_p, top_k,
            stop_token_ids with defaults from EOS token).
         2. Create a ``Req`` object.
-        3. Move from ``_waiting_queue`` to ``_pending_queue``.
+        3. Move from ``_waiting_queue`` to ``_pending_queue``, or answer the
+           request at once if it can never be scheduled.
         """
         while self._waiting_queue:
             raw = self._waiting_queue.popleft()
@@ -656,10 +672,27 @@ class SchedulerProcess:
                 return_logprob=raw.return_logprob,
                 logprob_start_len=raw.logprob_start_len,
                 top_logprobs_num=raw.top_logprobs_num,
+                context_len=self._context_len,
             )
+            if not self._can_ever_run(req):
+                logger.warning(
+                    "Rejecting rid=%s: prompt of %d tokens is outside the limits",
+                    req.rid,
+                    req.prompt_len,
+                )
+                req.abort()
+                self._collect_finished_output(req)
+                continue
             self._pending_queue.append(req)
             logger.debug("Processed input request %s (len=%d)", req.rid, req.seq_len)
 
+    def _can_ever_run(self, req: Req) -> bool:
+        """Whether the prompt fits into the limits of an otherwise idle scheduler."""
+        limit = min(self._max_prefill_tokens, self._max_total_tokens)
+        if self._context_len is not None:
+            limit = min(limit, self._context_len - 1)
+        return 0 < req.prompt_len <= limit
+
     # ------------------------------------------------------------------
     # Step 3: build the next batch
     # ------------------------------------------------------------------
-- 
2.43.0


From 810f8ba5e9b49a07c1b0da6071b14bfd3dddc042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:25 +0000
Subject: [PATCH 10/45] fix: deliver aborts in shared-queue mode

They were sent over ZMQ, which the scheduler never reads in this mode.
---
 pymllm/orchestrator/scheduler_process.py   | 21 +++++++++++++++------
 pymllm/orchestrator/shared_memory_queue.py |  5 +++--
 pymllm/orchestrator/tokenizer_process.py   |  7 ++++---
 3 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/pymllm/orchestrator/scheduler_process.py b/pymllm/orchestrator/scheduler_process.py
index 83b681c..303062d 100644
--- a/pymllm/orchestrator/scheduler_process.py
+++ b/pymllm/orchestrator/scheduler_process.py
@@ -566,15 +566,19 @@ class SchedulerProcess:
             # Abort sentinel: plain dict with "abort" key.
             if isinstance(msg, dict) and msg.get("abort"):
                 rid = msg.get("rid")
-                logger.debug("Scheduler received abort for rid=%s", rid)
-                self._waiting_queue = type(self._waiting_queue)(
-                    r for r in self._waiting_queue if r.rid != rid
-                )
-                # Also abort from pending queue
-                self._abort_request(rid)
+                self._receive_abort(rid)
             else:
                 self._waiting_queue.append(msg)
 
+    def _receive_abort(self, rid: str) -> None:
+        """Drop *rid* wherever it is: waiting, pending or running."""
+        logger.debug("Scheduler received abort for rid=%s", rid)
+        self._waiting_queue = type(self._waiting_queue)(
+            r for r in self._waiting_queue if r.rid != rid
+        )
+        # Also abort from pending queue
+        self._abort_request(rid)
+
     def _recv_from_shared_queue(self) -> None:
         """Receive requests via shared memory + shared queue fast path.
 
@@ -593,6 +597,11 @@ class SchedulerProcess:
             try:
                 rid, shm_name, mm_inputs = self._shared_queue.get(timeout=0.002)
 
+                # Abort sentinel: no metadata segment
+                if shm_name is None:
+                    self._receive_abort(rid)
+                    continue
+
                 # Read metadata from shared memory (and unlink immediately)
                 metadata: TokenizedGenerateReqInput = SharedMemoryManager.read_metadata(
                     shm_name, unlink=True
diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index 2f006bd..d7cf317 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -172,7 +172,7 @@ class TensorQueue:
     def put(
         self,
         rid: str,
-        shm_name: str,
+        shm_name: Optional[str],
         mm_inputs: Optional[Dict[str, Any]],
     ) -> None:
         """Put a request into the queue.
@@ -183,7 +183,8 @@ class TensorQueue:
 
         Args:
             rid: Request ID.
-            shm_name: Shared memory segment name for the tokenized metadata.
+            shm_name: Shared memory segment name for the tokenized metadata
+                (``None`` for an abort message).
             mm_inputs: Multimodal inputs dict (may contain CUDA tensors).
         """
         if mm_inputs is not None:
diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index e0e4139..17d345b 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -156,12 +156,13 @@ class TokenizerProcess:
         * ``"cuda_ipc_pool"`` – copied into the :class:`MmItemMemoryPool` workspace and
           wrapped in :class:`CudaIpcTensorTransportProxy`.
 
-        Abort sentinel messages are forwarded via ZMQ (they are lightweight dicts).
+        Abort sentinel messages go through the same queue as ``(rid, None, None)``:
+        the scheduler reads nothing else in this mode, and an abort must not
+        overtake its request.
         """
         # Handle abort sentinel
         if isinstance(tokenized, dict) and tokenized.get("abort"):
-            # Fallback to ZMQ for abort messages (no tensor payload)
-            self._send_to_scheduler.send_pyobj(tokenized)
+            self._shared_queue.put(tokenized.get("rid"), None, None)
             return
 
         assert isinstance(tokenized, TokenizedGenerateReqInput), (
-- 
2.43.0


From bf8e7fa4ab61e7682f646253fc15fbb2ec15dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:10 +0000
Subject: [PATCH 11/45] fix: keep aborts in order and refuse the rid of a live
 request

An abort overtook its request when that was still queued, and a second
request with the rid of a live one took over its results.
---
 pymllm/engine/launch.py                        | 18 ++++++++++++++----
 .../orchestrator/request_response_process.py   | 16 +++++++++++++---
 2 files changed, 27 insertions(+), 7 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 8fd39ca..b7d40bc 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -392,13 +392,23 @@ class Engine:
             result = await self._rr_process.add_request(request, max_queued=max_queued)
             if request.is_single:
                 single_rid = rid if isinstance(rid, str) else rid[0]
-                return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
+                try:
+                    return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
+                finally:
+                    self._rr_process.remove_state(single_rid)
             # Batch: wait for every sub-request concurrently.
             rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
             states: List[ReqState] = result  # type: ignore[assignment]
-            outputs = await asyncio.gather(
-                *(self._wait_for_final_result(r, s) for r, s in zip(rids_list, states))
-            )
+            try:
+                outputs = await asyncio.gather(
+                    *(
+                        self._wait_for_final_result(r, s)
+                        for r, s in zip(rids_list, states)
+                    )
+                )
+            finally:
+                for r in rids_list:
+                    self._rr_process.remove_state(r)
             return list(outputs)
 
         loop = asyncio.new_event_loop()
diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index f59ffa5..a66ad4a 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -128,6 +128,7 @@ class RequestResponseProcess:
 
         if request.is_single:
             rid = request.rid if isinstance(request.rid, str) else request.rid[0]
+            self._reject_live_rids([rid])
             state = ReqState()
             self._rid_to_state[rid] = state
             await self._request_queue.put(request.to_request_dict())
@@ -135,8 +136,9 @@ class RequestResponseProcess:
 
         # Batch path: fan-out into individual sub-requests.
         states: List[ReqState] = []
-        for i in range(request.batch_size):
-            sub = request[i]
+        subs = [request[i] for i in range(request.batch_size)]
+        self._reject_live_rids([str(sub.rid) for sub in subs])
+        for sub in subs:
             rid = sub.rid if isinstance(sub.rid, str) else str(sub.rid)
             state = ReqState()
             self._rid_to_state[rid] = state
@@ -144,6 +146,12 @@ class RequestResponseProcess:
             states.append(state)
         return states
 
+    def _reject_live_rids(self, rids: List[str]) -> None:
+        """Results are routed by rid, so a rid can name only one live request."""
+        for i, rid in enumerate(rids):
+            if rid in self._rid_to_state or rid in rids[:i]:
+                raise ValueError(f"A request with rid={rid!r} is already in progress")
+
     def remove_state(self, rid: str) -> None:
         """Remove the ``ReqState`` for *rid* (called by the caller once done)."""
         self._rid_to_state.pop(rid, None)
@@ -156,7 +164,9 @@ class RequestResponseProcess:
             state.out_list.append({"rid": rid, "error": "aborted", "finished": True})
             state.event.set()
         if self._send_to_tokenizer is not None:
-            await self._send_to_tokenizer.send_pyobj({"rid": rid, "abort": True})
+            # Through the request queue, so that the abort cannot overtake a
+            # request that is still queued.
+            await self._request_queue.put({"rid": rid, "abort": True})
 
     async def shutdown(self) -> None:
         if self._loop_task is not None:
-- 
2.43.0


From a1be2aeb25d726bf445b25c62b5b055e0592e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:41 +0000
Subject: [PATCH 12/45] fix: treat a non-positive top_k as no limit and bound
 it by the vocabulary

The default top_k of -1 indexed out of bounds in the PyTorch sampler, which
ended the scheduler on the first stochastic request.
---
 pymllm/executor/model_runner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pymllm/executor/model_runner.py b/pymllm/executor/model_runner.py
index 7e1cf6d..053034e 100644
--- a/pymllm/executor/model_runner.py
+++ b/pymllm/executor/model_runner.py
@@ -1523,7 +1523,11 @@ class ModelRunner:
         has_top_p = top_ps is not None
 
         if has_top_k or has_top_p:
-            k = top_ks if has_top_k else logits.shape[-1]
+            vocab_size = logits.shape[-1]
+            k = vocab_size
+            if has_top_k:
+                # A non-positive top_k (the default is -1) means "no limit".
+                k = top_ks.masked_fill(top_ks <= 0, vocab_size).clamp(max=vocab_size)
             p = top_ps if has_top_p else 1.0
             next_token_ids = top_k_top_p_sampling_from_probs(probs, k, p)
         else:
-- 
2.43.0


From 1931597efa2d7ebc3740250195d6cff8d56ab26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 13/45] fix: make streamed reasoning separation agree with
 one-shot parsing

---
 pymllm/parsers/reasoning_parser.py | 56 +++++++++++++++++++-----------
 pymllm/server/launch.py            |  5 +++
 2 files changed, 41 insertions(+), 20 deletions(-)

diff --git a/pymllm/parsers/reasoning_parser.py b/pymllm/parsers/reasoning_parser.py
index 1f73c78..075f789 100644
--- a/pymllm/parsers/reasoning_parser.py
+++ b/pymllm/parsers/reasoning_parser.py
@@ -83,6 +83,7 @@ class ReasoningParser:
         self._in_reasoning = cfg.force
         self._start_consumed = False  # True once start tag has been stripped
         self._done = False  # True once end tag has been seen
+        self._pending_reasoning = ""  # reasoning kept back (not stream_reasoning)
 
     # ------------------------------------------------------------------ #
     # Non-streaming
@@ -93,22 +94,23 @@ class ReasoningParser:
 
         Returns ``(reasoning_content, content)`` where either may be empty.
         """
-        start_idx = text.find(self._start)
-        end_idx = text.find(self._end)
-
-        if start_idx == -1 and not self._force:
-            return None, text
-
-        # Determine boundaries
-        if self._force and start_idx == -1:
-            # Model didn't emit explicit start tag; treat prefix as reasoning
-            reason_start = 0
+        if self._force:
+            # The model may or may not emit the start tag explicitly; it can
+            # only stand at the very beginning of the output.
+            lead = len(text) - len(text.lstrip())
+            has_tag = text.startswith(self._start, lead)
+            start_idx = lead if has_tag else 0
+            reason_start = lead + len(self._start) if has_tag else 0
         else:
+            start_idx = text.find(self._start)
+            if start_idx == -1:
+                return None, text
             reason_start = start_idx + len(self._start)
 
-        before = text[:start_idx] if start_idx != -1 else ""
+        before = text[:start_idx]
+        end_idx = text.find(self._end, reason_start)
 
-        if end_idx != -1 and end_idx >= reason_start:
+        if end_idx != -1:
             reasoning = text[reason_start:end_idx]
             after = text[end_idx + len(self._end) :]
         else:
@@ -141,12 +143,12 @@ class ReasoningParser:
         # In forced reasoning mode, consume the start tag if it appears
         # (the model may or may not emit it explicitly).
         if self._in_reasoning and not self._start_consumed:
-            idx = self._buffer.find(self._start)
-            if idx != -1:
-                # Start tag found — strip it and any text before it
-                self._buffer = self._buffer[idx + len(self._start) :]
+            head = self._buffer.lstrip()
+            if head.startswith(self._start):
+                # Start tag found — strip it and any whitespace before it
+                self._buffer = head[len(self._start) :]
                 self._start_consumed = True
-            elif _could_be_partial(self._buffer, self._start):
+            elif self._start.startswith(head):
                 # Might be a partial start tag — hold the buffer
                 return "", ""
             else:
@@ -193,10 +195,24 @@ class ReasoningParser:
                 reasoning_out += self._buffer
                 self._buffer = ""
 
-        if not self._stream_reasoning:
-            reasoning_out = ""
+        return self._take_reasoning(reasoning_out), content_out
 
-        return reasoning_out, content_out
+    def flush(self) -> Tuple[str, str]:
+        """Return the text still held back (call once, at request end)."""
+        held, self._buffer = self._buffer, ""
+        if not self._in_reasoning:
+            return self._take_reasoning("", final=True), held
+        return self._take_reasoning(held, final=True), ""
+
+    def _take_reasoning(self, text: str, final: bool = False) -> str:
+        """Reasoning to emit now: all of it, or only once it is complete."""
+        if self._stream_reasoning:
+            return text
+        self._pending_reasoning += text
+        if not (self._done or final):
+            return ""
+        text, self._pending_reasoning = self._pending_reasoning, ""
+        return text
 
 
 # ---------------------------------------------------------------------------
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 19b9520..fe8f8d9 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -965,6 +965,11 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         reasoning_delta, content_delta = r_parser.parse_stream_chunk(
                             raw_delta
                         )
+                    if r_parser and finish_reason is not None:
+                        # Release text held back as a possible partial marker
+                        held_reasoning, held_content = r_parser.flush()
+                        reasoning_delta += held_reasoning
+                        content_delta += held_content
 
                     # --- Phase 2: tool-call parser ---
                     tool_items: list = []
-- 
2.43.0


From 5ebf196854abbcc991e02c454263f7dd835cca8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:43 +0000
Subject: [PATCH 14/45] fix: make streamed tool-call extraction agree with
 one-shot parsing

---
 pymllm/parsers/tool_call_parser.py | 115 ++++++++++++++++++++---------
 pymllm/server/launch.py            |   2 +
 2 files changed, 82 insertions(+), 35 deletions(-)

diff --git a/pymllm/parsers/tool_call_parser.py b/pymllm/parsers/tool_call_parser.py
index fdfe939..e909eb5 100644
--- a/pymllm/parsers/tool_call_parser.py
+++ b/pymllm/parsers/tool_call_parser.py
@@ -251,12 +251,16 @@ class ToolCallParser:
                         if item is not None:
                             items.append(item)
                         self._in_call = False
-                        self._current_tool_idx += 1
+                        if item is not None or self._name_sent:
+                            self._current_tool_idx += 1
                         continue  # there may be more calls
                     else:
-                        # Accumulate and stream arguments
-                        self._current_call_buf += self._buffer
-                        self._buffer = ""
+                        # Accumulate and stream arguments, except for what
+                        # may be the beginning of the end token
+                        held = _partial_len(self._buffer, self._end)
+                        cut = len(self._buffer) - held
+                        self._current_call_buf += self._buffer[:cut]
+                        self._buffer = self._buffer[cut:]
                         item = self._stream_partial_call()
                         if item is not None:
                             items.append(item)
@@ -275,13 +279,23 @@ class ToolCallParser:
     def flush(self) -> List[ToolCallItem]:
         """Flush any remaining buffered tool call (call at request end)."""
         items: List[ToolCallItem] = []
-        if self._in_call and self._current_call_buf.strip():
-            item = self._finalize_call()
-            if item is not None:
-                items.append(item)
+        if self._in_call:
+            self._current_call_buf += self._buffer
+            self._buffer = ""
+            if self._current_call_buf.strip():
+                item = self._finalize_call()
+                if item is not None:
+                    items.append(item)
             self._in_call = False
         return items
 
+    def flush_content(self) -> str:
+        """Return content held back as a possible partial marker (at request end)."""
+        if self._in_call:
+            return ""
+        content, self._buffer = self._buffer, ""
+        return content
+
     # ------------------------------------------------------------------ #
     # Internal helpers
     # ------------------------------------------------------------------ #
@@ -309,6 +323,15 @@ class ToolCallParser:
             return None
         name = func_m.group(1)
         # Extract parameters
+        params = ToolCallParser._parse_qwen3_coder_params(body)
+        return ToolCallItem(
+            name=name,
+            arguments=json.dumps(params, ensure_ascii=False),
+        )
+
+    @staticmethod
+    def _parse_qwen3_coder_params(body: str) -> Dict[str, Any]:
+        """Collect the complete ``<parameter=K>V</parameter>`` entries of *body*."""
         params: Dict[str, Any] = {}
         for pm in re.finditer(
             r"<parameter=([^>]+)>(.*?)(?:</parameter>|(?=<parameter=)|(?=</function>))",
@@ -322,10 +345,7 @@ class ToolCallParser:
                 params[key] = json.loads(val)
             except (json.JSONDecodeError, ValueError):
                 params[key] = val
-        return ToolCallItem(
-            name=name,
-            arguments=json.dumps(params, ensure_ascii=False),
-        )
+        return params
 
     def _stream_partial_call(self) -> Optional[ToolCallItem]:
         """Try to extract streaming information from the partial call."""
@@ -370,8 +390,11 @@ class ToolCallParser:
             parsed.tool_call_id = _make_tool_call_id()
             return parsed
 
-        # Name was already sent — emit remaining arguments
+        # Name was already sent — emit remaining arguments.  Once part of them
+        # was streamed as the model wrote it, the rest has to be as well.
         full_args = parsed.arguments
+        if self._prev_args_len > 0 and self._model_type != "qwen3_coder":
+            full_args = self._try_extract_args_partial(self._current_call_buf.strip())
         new_chars = full_args[self._prev_args_len :]
         if new_chars:
             return ToolCallItem(
@@ -386,35 +409,26 @@ class ToolCallParser:
         if self._model_type == "qwen3_coder":
             m = re.search(r"<function=([^>]+)>", partial)
             return m.group(1) if m else None
-        m = re.search(r'"name"\s*:\s*"([^"]+)"', partial)
+        # Only as the first key: a "name" further on may belong to the arguments
+        m = re.match(r'\{\s*"name"\s*:\s*"([^"\\]+)"', partial)
         return m.group(1) if m else None
 
     def _try_extract_args_partial(self, partial: str) -> Optional[str]:
         """Try to extract partial arguments from call body."""
         if self._model_type == "qwen3_coder":
-            # Build JSON incrementally from <parameter=K>V</parameter> tags
-            params: Dict[str, Any] = {}
-            for pm in re.finditer(
-                r"<parameter=([^>]+)>(.*?)(?:</parameter>)",
-                partial,
-                re.DOTALL,
-            ):
-                key = pm.group(1)
-                val = pm.group(2).strip()
-                try:
-                    params[key] = json.loads(val)
-                except (json.JSONDecodeError, ValueError):
-                    params[key] = val
+            # Build JSON incrementally from <parameter=K>V</parameter> tags;
+            # the closing brace comes with the end of the call
+            params = self._parse_qwen3_coder_params(partial)
             if params:
-                return json.dumps(params, ensure_ascii=False)
+                return json.dumps(params, ensure_ascii=False)[:-1]
             return None
-        m = re.search(r'"arguments"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        m = re.search(r'"parameters"\s*:\s*(\{.*)', partial, re.DOTALL)
-        if m:
-            return m.group(1)
-        return None
+        m = re.match(
+            r'\{\s*"name"\s*:\s*"[^"\\]+"\s*,\s*"(?:arguments|parameters)"\s*:\s*(?=\{)',
+            partial,
+        )
+        if m is None:
+            return None
+        return _leading_object(partial[m.end() :])
 
 
 # ---------------------------------------------------------------------------
@@ -426,6 +440,37 @@ def _make_tool_call_id() -> str:
     return f"call_{uuid.uuid4().hex[:24]}"
 
 
+def _leading_object(text: str) -> str:
+    """Return the JSON object at the start of *text*, as far as it has come."""
+    depth = 0
+    in_string = escaped = False
+    for i, c in enumerate(text):
+        if in_string:
+            if escaped:
+                escaped = False
+            elif c == "\\":
+                escaped = True
+            elif c == '"':
+                in_string = False
+        elif c == '"':
+            in_string = True
+        elif c in "{[":
+            depth += 1
+        elif c in "}]":
+            depth -= 1
+            if depth == 0:
+                return text[: i + 1]
+    return text
+
+
+def _partial_len(text: str, pattern: str) -> int:
+    """Length of the longest proper prefix of *pattern* that *text* ends with."""
+    for n in range(min(len(text), len(pattern) - 1), 0, -1):
+        if text.endswith(pattern[:n]):
+            return n
+    return 0
+
+
 def _could_be_partial(text: str, pattern: str) -> bool:
     for i in range(1, len(pattern)):
         if text.endswith(pattern[:i]):
diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index fe8f8d9..56e382c 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -977,6 +977,8 @@ async def openai_chat_completions(obj: ChatCompletionRequest, request: Request):
                         content_delta, tool_items = tc_parser.parse_stream_chunk(
                             content_delta
                         )
+                    if tc_parser and finish_reason is not None:
+                        content_delta += tc_parser.flush_content()
 
                     # --- Emit chunks ---
                     # Role chunk (first)
-- 
2.43.0


From ee8f72e9056f7622a915e7bba77463e962d71ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 15/45] fix: make the shared-memory segment name independent of
 what the rid contains

---
 pymllm/orchestrator/shared_memory_queue.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/shared_memory_queue.py b/pymllm/orchestrator/shared_memory_queue.py
index d7cf317..9367ed1 100644
--- a/pymllm/orchestrator/shared_memory_queue.py
+++ b/pymllm/orchestrator/shared_memory_queue.py
@@ -47,6 +47,7 @@ from __future__ import annotations
 
 import logging
 import pickle
+import re
 import uuid
 from multiprocessing import Queue
 from multiprocessing.shared_memory import SharedMemory
@@ -85,7 +86,9 @@ class SharedMemoryManager:
         """
         data = pickle.dumps(metadata)
         size = len(data)
-        shm_name = f"pymllm_meta_{rid}_{uuid.uuid4().hex[:8]}"
+        # The rid may come from the user: keep only what a segment name allows
+        safe_rid = re.sub(r"[^A-Za-z0-9_-]", "_", str(rid))[:64]
+        shm_name = f"pymllm_meta_{safe_rid}_{uuid.uuid4().hex[:8]}"
         try:
             shm = SharedMemory(name=shm_name, create=True, size=size)
             shm.buf[:size] = data
-- 
2.43.0


From d09338712d28aa00d72ac2a7b490bc594d34ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 16/45] fix: create the sync buffer list before the first chunk
 of the IPC pool

---
 pymllm/orchestrator/cuda_ipc_transport.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 938132c..4444809 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -205,11 +205,11 @@ class MmItemMemoryPool:
                 memory_size, dtype=torch.int8, device=f"cuda:{device}"
             ).contiguous()
 
+        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
+        self._sync_pool: List[ShmSyncBuffer] = []
         init_chunk = MmItemMemoryChunk((0, memory_size), self._new_sync_buffer())
         self.available_chunks: List[MmItemMemoryChunk] = [init_chunk]
         self.occupied_chunks: List[MmItemMemoryChunk] = []
-        # Pool of reusable ShmSyncBuffer objects (returned from recycled chunks)
-        self._sync_pool: List[ShmSyncBuffer] = []
 
         self._recycler = threading.Thread(
             target=self._recycle_loop,
-- 
2.43.0


From d46854cfe6900d69233b94e7e830afc77a5f2826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:59 +0000
Subject: [PATCH 17/45] fix: send tensors of any layout through the IPC pool
 and fall back to the tensor itself

---
 pymllm/orchestrator/cuda_ipc_transport.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/cuda_ipc_transport.py b/pymllm/orchestrator/cuda_ipc_transport.py
index 4444809..76edbe9 100644
--- a/pymllm/orchestrator/cuda_ipc_transport.py
+++ b/pymllm/orchestrator/cuda_ipc_transport.py
@@ -400,7 +400,7 @@ class CudaIpcTensorTransportProxy:
                 "falling back to direct tensor.",
                 exc,
             )
-            return {"ipc_handle": None, "tensor_data": data}
+            return {"ipc_handle": None, "tensor_data": info_data}
 
     def reconstruct_on_device(self, device_index: Optional[int] = None) -> torch.Tensor:
         """Map IPC memory and copy into a new local tensor.
@@ -434,7 +434,7 @@ class CudaIpcTensorTransportProxy:
                 result = torch.empty(
                     h["target_shape"], dtype=h["target_dtype"], device=target_device
                 ).contiguous()
-                result.view(torch.int8).view(-1).copy_(slice_tensor)
+                _as_bytes(result).copy_(slice_tensor)
 
             # Signal sender that the chunk can be recycled
             _increment_sync_flag(self.sync_data_meta)
@@ -442,6 +442,8 @@ class CudaIpcTensorTransportProxy:
             result = state["tensor_data"]
             if device_index is not None:
                 result = result.to(f"cuda:{device_index}", non_blocking=True)
+            # The chunk reserved for the tensor is not needed
+            _increment_sync_flag(self.sync_data_meta)
         else:
             raise RuntimeError("CudaIpcTensorTransportProxy: invalid state")
 
@@ -585,6 +587,11 @@ def _wrap_recursive(
         return data
 
 
+def _as_bytes(tensor: torch.Tensor) -> torch.Tensor:
+    """The tensor's elements as a flat int8 tensor, for any shape and layout."""
+    return tensor.contiguous().view(-1).view(torch.int8)
+
+
 def _wrap_cuda_tensor(
     tensor: torch.Tensor,
     transport_mode: TensorTransportMode,
@@ -599,7 +606,7 @@ def _wrap_cuda_tensor(
         sync_meta, pool_slice = pool.get_slice_with_flag(tensor)
         if pool_slice is not None:
             # Copy tensor bytes into the pool slice
-            pool_slice.copy_(tensor.view(torch.int8).view(-1), non_blocking=True)
+            pool_slice.copy_(_as_bytes(tensor), non_blocking=True)
             return CudaIpcTensorTransportProxy(
                 data=pool_slice,
                 info_data=tensor,
-- 
2.43.0


From 6fb399bd6099a7c2b9c2f9a2cca75c8e1c0ad472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 18/45] fix: stream only complete characters, and start afresh
 when a rid is used again

---
 pymllm/orchestrator/detokenizer_process.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pymllm/orchestrator/detokenizer_process.py b/pymllm/orchestrator/detokenizer_process.py
index 7b8bf26..dcb4130 100644
--- a/pymllm/orchestrator/detokenizer_process.py
+++ b/pymllm/orchestrator/detokenizer_process.py
@@ -111,6 +111,7 @@ class DetokenizerProcess:
                 len(rids),
             )
         decode_ids: List[int] = token_id_out.get("decode_ids", [])
+        read_offsets: List[int] = token_id_out.get("read_offsets", [])
         skip_special_tokens_list: List[bool] = token_id_out.get(
             "skip_special_tokens", []
         )
@@ -157,10 +158,16 @@ class DetokenizerProcess:
             else:
                 text = ""
 
-            # Compute incremental delta by diffing against previous text
+            # Compute incremental delta by diffing against previous text.
+            # A trailing replacement character may be the beginning of a
+            # character whose remaining bytes are still to come: hold it back.
+            stable_text = text if is_finished else text.rstrip("\ufffd")
+            if i < len(read_offsets) and read_offsets[i] == 0:
+                # First output of a request: a rid may be in use again.
+                self._rid_to_prev_text.pop(rid, None)
             prev_text = self._rid_to_prev_text.get(rid, "")
-            delta_text = text[len(prev_text):]
-            self._rid_to_prev_text[rid] = text
+            delta_text = stable_text[len(prev_text):]
+            self._rid_to_prev_text[rid] = prev_text + delta_text
 
             # Clean up tracking when request finishes
             if is_finished:
-- 
2.43.0


From ec93f1c20700014b3500dea68328020ecd470902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 19/45] fix: a batch of one request is a batch, its rid a list

---
 pymllm/engine/io_struct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pymllm/engine/io_struct.py b/pymllm/engine/io_struct.py
index 06c8d78..f948af3 100644
--- a/pymllm/engine/io_struct.py
+++ b/pymllm/engine/io_struct.py
@@ -85,7 +85,7 @@ class GenerateReqInput(BaseReq):
     def __getitem__(self, i: int) -> "GenerateReqInput":
         if i < 0 or i >= self.batch_size:
             raise IndexError(f"index {i} out of range for batch size {self.batch_size}")
-        if self.batch_size == 1:
+        if self.is_single:
             return self
         return GenerateReqInput(
             rid=self._pick(self.rid, i),
-- 
2.43.0


From a43914f6b8aee518f0357de061b4a4318c824346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 20/45] fix: Engine.generate can be called more than once

---
 pymllm/engine/launch.py                         | 8 +++-----
 pymllm/orchestrator/request_response_process.py | 5 +++++
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index b7d40bc..16b1079 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -411,11 +411,9 @@ class Engine:
                     self._rr_process.remove_state(r)
             return list(outputs)
 
-        loop = asyncio.new_event_loop()
-        try:
-            return loop.run_until_complete(_run())
-        finally:
-            loop.close()
+        # Unlike closing a loop of our own, this ends the background tasks that
+        # were started on it, so that the next call can start them again.
+        return asyncio.run(_run())
 
     async def generate_async(
         self,
diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index a66ad4a..34f4bfb 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -98,6 +98,11 @@ class RequestResponseProcess:
         if self._loop_task is not None and not self._loop_task.done():
             return
         loop = asyncio.get_running_loop()
+        # A queue belongs to the loop it was used on, which may be gone by now.
+        queue: asyncio.Queue[Dict[str, Any]] = asyncio.Queue()
+        while not self._request_queue.empty():
+            queue.put_nowait(self._request_queue.get_nowait())
+        self._request_queue = queue
         self._loop_task = loop.create_task(self._run())
         logger.debug("RequestResponseProcess: background tasks started")
 
-- 
2.43.0


From e83de5ec9b9cc1fe70a45db78172fdd49455babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 21/45] fix: a finished caller removes its own request state
 only

---
 pymllm/engine/launch.py                         | 10 +++++-----
 pymllm/orchestrator/request_response_process.py | 10 +++++++---
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pymllm/engine/launch.py b/pymllm/engine/launch.py
index 16b1079..efd3388 100644
--- a/pymllm/engine/launch.py
+++ b/pymllm/engine/launch.py
@@ -395,7 +395,7 @@ class Engine:
                 try:
                     return await self._wait_for_final_result(single_rid, result)  # type: ignore[arg-type]
                 finally:
-                    self._rr_process.remove_state(single_rid)
+                    self._rr_process.remove_state(single_rid, result)  # type: ignore[arg-type]
             # Batch: wait for every sub-request concurrently.
             rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
             states: List[ReqState] = result  # type: ignore[assignment]
@@ -407,8 +407,8 @@ class Engine:
                     )
                 )
             finally:
-                for r in rids_list:
-                    self._rr_process.remove_state(r)
+                for r, s in zip(rids_list, states):
+                    self._rr_process.remove_state(r, s)
             return list(outputs)
 
         # Unlike closing a loop of our own, this ends the background tasks that
@@ -476,7 +476,7 @@ class Engine:
                     logger.info("Aborting request %s (client disconnected)", single_rid)
                     await self._rr_process.abort_request(single_rid)
                 else:
-                    self._rr_process.remove_state(single_rid)
+                    self._rr_process.remove_state(single_rid, state)
         else:
             rids_list: List[str] = rid if isinstance(rid, list) else [rid]  # type: ignore[assignment]
             states: List[ReqState] = result  # type: ignore[assignment]
@@ -519,7 +519,7 @@ class Engine:
                         logger.info("Aborting request %s (client disconnected)", r)
                         await self._rr_process.abort_request(r)
                     else:
-                        self._rr_process.remove_state(r)
+                        self._rr_process.remove_state(r, s)
 
     @staticmethod
     async def _wait_for_final_result(rid: str, state: ReqState) -> Dict[str, Any]:
diff --git a/pymllm/orchestrator/request_response_process.py b/pymllm/orchestrator/request_response_process.py
index 34f4bfb..d9c523c 100644
--- a/pymllm/orchestrator/request_response_process.py
+++ b/pymllm/orchestrator/request_response_process.py
@@ -157,9 +157,13 @@ class RequestResponseProcess:
             if rid in self._rid_to_state or rid in rids[:i]:
                 raise ValueError(f"A request with rid={rid!r} is already in progress")
 
-    def remove_state(self, rid: str) -> None:
-        """Remove the ``ReqState`` for *rid* (called by the caller once done)."""
-        self._rid_to_state.pop(rid, None)
+    def remove_state(self, rid: str, state: Optional[ReqState] = None) -> None:
+        """Remove the ``ReqState`` for *rid* (called by the caller once done).
+
+        With *state*, only that one: the rid may be in use again.
+        """
+        if state is None or self._rid_to_state.get(rid) is state:
+            self._rid_to_state.pop(rid, None)
 
     async def abort_request(self, rid: str) -> None:
         """Cancel a pending request and notify downstream processes."""
-- 
2.43.0


From 22fddd6a60a7eda72f2aa126ec479e36a3a38bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:27 +0000
Subject: [PATCH 22/45] fix: a request that cannot be tokenized is answered
 instead of ending the tokenizer

---
 pymllm/orchestrator/tokenizer_process.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pymllm/orchestrator/tokenizer_process.py b/pymllm/orchestrator/tokenizer_process.py
index 17d345b..3a79e48 100644
--- a/pymllm/orchestrator/tokenizer_process.py
+++ b/pymllm/orchestrator/tokenizer_process.py
@@ -134,7 +134,12 @@ class TokenizerProcess:
         )
         while True:
             raw_request: Dict[str, Any] = self._recv_from_rr.recv_pyobj()
-            tokenized = self._tokenize(raw_request)
+            try:
+                tokenized = self._tokenize(raw_request)
+            except Exception:
+                # The scheduler answers a request without tokens with "abort".
+                logger.exception("Cannot tokenize rid=%s", raw_request.get("rid"))
+                tokenized = TokenizedGenerateReqInput(rid=raw_request.get("rid"))
 
             if self._enable_shared_queue and self._shared_queue is not None:
                 # Shared queue fast path
-- 
2.43.0


From 3e122ecaf886feceaa84edef2d3ebefc9c494e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:10 +0000
Subject: [PATCH 23/45] fix: a client that disconnects has its requests aborted

With the app behind an HTTP middleware, request.is_disconnected() polling
never saw the disconnect of a non-streaming client, and a streaming client's
(delivered as a cancellation) left the next item being awaited, so that
aclose() failed with 'asynchronous generator is already running' and the
requests ran on for nobody.
---
 pymllm/server/launch.py | 78 ++++++++++++++++++++++-------------------
 1 file changed, 41 insertions(+), 37 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index 56e382c..f5c9a64 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -44,56 +44,60 @@ asyncio.set_event_loop_policy(uvloop.EventLoopPolicy())
 # Disconnect-aware async generator wrapper
 # ---------------------------------------------------------------------------
 
-_DISCONNECT_CHECK_INTERVAL = 1.0  # seconds
-
-
 async def _iter_with_disconnect_check(
     agen: AsyncIterator,
     request: Request,
-    interval: float = _DISCONNECT_CHECK_INTERVAL,
 ) -> AsyncIterator:
-    """Wrap an async generator, periodically checking for client disconnect.
+    """Wrap an async generator, watching for client disconnect.
 
     The standard ``async for chunk in agen`` pattern only checks between
     items.  If the generator blocks waiting for the next item (e.g. waiting
     for a decode step), a client disconnect goes unnoticed.
 
-    This wrapper uses ``asyncio.wait`` with a timeout so that
-    ``request.is_disconnected()`` is polled every *interval* seconds even
-    while waiting for the next item.
+    This wrapper waits for the next item and for the client's disconnect
+    message at the same time.  (``request.is_disconnected()`` cannot be polled
+    instead: behind an HTTP middleware it never sees the message.)
 
-    When a disconnect is detected, the underlying generator is closed via
-    ``aclose()`` which triggers its ``finally`` cleanup (abort logic).
+    When a disconnect is detected, or when the caller itself is cancelled
+    because of one, the underlying generator is closed via ``aclose()`` which
+    triggers its ``finally`` cleanup (abort logic).
     """
+
+    async def _wait_for_disconnect() -> None:
+        while (await request.receive())["type"] != "http.disconnect":
+            pass
+
     aiter = agen.__aiter__()
-    while True:
-        # Start fetching the next item without blocking indefinitely.
-        next_task = asyncio.ensure_future(aiter.__anext__())
-        try:
-            while True:
-                done, _ = await asyncio.wait({next_task}, timeout=interval)
-                if done:
-                    break
-                # Timeout: check if client is still connected.
-                if await request.is_disconnected():
-                    next_task.cancel()
-                    with contextlib.suppress(
-                        asyncio.CancelledError, StopAsyncIteration
-                    ):
-                        await next_task
-                    # Close the generator to trigger its finally block.
-                    await agen.aclose()
-                    return
-        except Exception:
-            next_task.cancel()
-            with contextlib.suppress(asyncio.CancelledError, StopAsyncIteration):
-                await next_task
-            raise
+    gone = asyncio.ensure_future(_wait_for_disconnect())
+    next_task: Optional[asyncio.Future] = None
+    try:
+        while True:
+            next_task = asyncio.ensure_future(aiter.__anext__())
+            await asyncio.wait({next_task, gone}, return_when=asyncio.FIRST_COMPLETED)
+            if not next_task.done():
+                return
+            try:
+                item = next_task.result()
+            except StopAsyncIteration:
+                return
+            yield item
+    finally:
+        # The generator cannot be closed while its next item is being awaited.
+        if next_task is not None:
+            await _cancel_and_wait(next_task)
+        await _cancel_and_wait(gone)
+        await agen.aclose()
+
+
+async def _cancel_and_wait(task: asyncio.Future) -> None:
+    """End *task*, including its cleanup, even while being cancelled ourselves."""
+    task.cancel()
+    while not task.done():
+        with contextlib.suppress(asyncio.CancelledError):
+            await asyncio.wait({task})
+    if not task.cancelled():
+        task.exception()  # nobody else looks at it
 
-        try:
-            yield next_task.result()
-        except StopAsyncIteration:
-            return
 
 # ---------------------------------------------------------------------------
 # Global handles (populated at startup)
-- 
2.43.0


From ff690ae4577b8978d38ee22161f5551f7f23abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 24/45] fix: HTTP answers to a batch of prompts follow the
 order of the prompts

The engine yields a batch's results as they complete; choices were numbered
in that order, streamed pieces of every prompt carried index 0, and the usage
of a streamed batch covered its last piece only.
---
 pymllm/server/launch.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/pymllm/server/launch.py b/pymllm/server/launch.py
index f5c9a64..b62c386 100644
--- a/pymllm/server/launch.py
+++ b/pymllm/server/launch.py
@@ -640,6 +640,9 @@ async def generate(obj: GenerateRequest, request: Request):
     """Native generation endpoint.  Supports SSE streaming."""
     engine = _get_engine()
 
+    # Results of a batch come in the order of completion; rids tell them apart.
+    rids = engine._make_rids(obj.rid, obj.text, obj.input_ids)
+
     # Collect extra fields as extra_options
     known = set(GenerateRequest.model_fields.keys())
     extra_options = {k: v for k, v in obj.model_dump().items() if k not in known}
@@ -657,7 +660,7 @@ async def generate(obj: GenerateRequest, request: Request):
         "lora_path": obj.lora_path,
         "session_params": obj.session_params,
         "stream": obj.stream,
-        "rid": obj.rid,
+        "rid": rids,
         **extra_options,
     }
     # Strip None values so Engine defaults are used
@@ -691,6 +694,8 @@ async def generate(obj: GenerateRequest, request: Request):
             results.append(item)
         if not results:
             raise HTTPException(status_code=500, detail="No output from engine")
+        if isinstance(rids, list):
+            results.sort(key=lambda r: rids.index(r["rid"]))
         result = results[0] if len(results) == 1 else results
         return ORJSONResponse(result)
     except HTTPException:
@@ -740,20 +745,25 @@ async def openai_completions(obj: CompletionRequest, request: Request):
     include_usage = (
         obj.stream_options is not None and obj.stream_options.include_usage
     )
+    # Results of a batch come in the order of completion; rids tell them apart.
+    rids = engine._make_rids(None, obj.prompt, None)
+    index = {r: i for i, r in enumerate(rids if isinstance(rids, list) else [rids])}
 
     if obj.stream:
 
         async def _stream() -> AsyncIterator[bytes]:
             comp_id = _make_completion_id()
-            prompt_tokens = 0
-            completion_tokens = 0
+            usage = {r: (0, 0) for r in index}
             gen = engine.generate_async(
-                prompt=obj.prompt, sampling_params=sp, stream=True
+                prompt=obj.prompt, sampling_params=sp, stream=True, rid=rids
             )
             try:
                 async for chunk in _iter_with_disconnect_check(gen, request):
-                    prompt_tokens = chunk.get("prompt_tokens", prompt_tokens)
-                    completion_tokens = chunk.get("completion_tokens", completion_tokens)
+                    rid = chunk["rid"]
+                    usage[rid] = (
+                        chunk.get("prompt_tokens", usage[rid][0]),
+                        chunk.get("completion_tokens", usage[rid][1]),
+                    )
                     delta_text = chunk.get("delta", "")
                     finish_reason = _normalize_finish_reason(
                         chunk.get("finished_reason")
@@ -768,7 +778,7 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                         "model": model_name,
                         "choices": [
                             {
-                                "index": 0,
+                                "index": index[rid],
                                 "text": delta_text,
                                 "logprobs": None,
                                 "finish_reason": finish_reason,
@@ -784,6 +794,8 @@ async def openai_completions(obj: CompletionRequest, request: Request):
                 await gen.aclose()
             # Final usage-only chunk (OpenAI stream_options.include_usage)
             if include_usage:
+                prompt_tokens = sum(p for p, _ in usage.values())
+                completion_tokens = sum(c for _, c in usage.values())
                 usage_chunk: Dict[str, Any] = {
                     "id": comp_id,
                     "object": "text_completion",
@@ -802,12 +814,13 @@ async def openai_completions(obj: CompletionRequest, request: Request):
         return StreamingResponse(_stream(), media_type="text/event-stream")
 
     gen = engine.generate_async(
-        prompt=obj.prompt, sampling_params=sp
+        prompt=obj.prompt, sampling_params=sp, rid=rids
     )
     try:
         results = []
         async for item in _iter_with_disconnect_check(gen, request):
             results.append(item)
+        results.sort(key=lambda r: index[r["rid"]])
         choices = []
         prompt_tokens = 0
         completion_tokens = 0
-- 
2.43.0


From 7d1956e72c56527637791a15b3514857444e9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:35 +0000
Subject: [PATCH 25/45] fix: sliding-window prefix cache: each slot is freed
 once, tombstones and locks stay consistent

Insertion went on with the wrong half of a split entry and freed duplicates
that its caller frees as well; entries in use were un-tombstoned under a
lock; a fully evicted suffix was stored as if its window KV were there;
evicting tombstones counted as window KV; lookups did not refresh the LRU
order; pools without separate window KV lost full-attention slots.
---
 pymllm/mem_cache/radix_cache.py             | 106 +++++++++++---------
 pymllm/orchestrator/model_runner_process.py |  24 +++--
 2 files changed, 73 insertions(+), 57 deletions(-)

diff --git a/pymllm/mem_cache/radix_cache.py b/pymllm/mem_cache/radix_cache.py
index bd9b250..95f3506 100644
--- a/pymllm/mem_cache/radix_cache.py
+++ b/pymllm/mem_cache/radix_cache.py
@@ -259,13 +259,15 @@ class RadixCache(BasePrefixCache):
 
         Returns how many leading tokens were already present (the prefix
         length).  The caller is responsible for freeing duplicate KV indices
-        in the range ``[cache_protected_len, prefix_len)``.
+        in the range ``[cache_protected_len, prefix_len)``, except in SWA mode:
+        there the tree may keep some of them (un-tombstoning) and frees the
+        others itself.
 
         Parameters
         ----------
         prev_prefix_len:
-            (SWA mode) tokens before this offset are already protected and
-            should not have their values overwritten.
+            (SWA mode) tokens before this offset are already protected: their
+            values are the tree's own and are neither overwritten nor freed.
         swa_evicted_seqlen:
             (SWA mode) the sequence length up to which SWA KV has been
             previously evicted.  Used to decide whether a tombstoned node can
@@ -279,10 +281,10 @@ class RadixCache(BasePrefixCache):
         key = self._page_align_key(key)
         value = value[: len(key)]
         if self.supports_swa:
-            plen = self._insert_swa(
+            plen, last_node = self._insert_swa(
                 self.root_node, key, value, prev_prefix_len, swa_evicted_seqlen
             )
-            return InsertResult(prefix_len=plen)
+            return InsertResult(prefix_len=plen, last_node=last_node)
         else:
             plen, last_node = self._insert_normal(self.root_node, key, value)
             return InsertResult(prefix_len=plen, last_node=last_node)
@@ -308,25 +310,12 @@ class RadixCache(BasePrefixCache):
                 _, node = heapq.heappop(heap)
                 if node.evicted or node.lock_ref > 0:
                     continue
-                n = len(node.value)
-                self._free_indices(node.value)
+                if not node.swa_tombstone:
+                    swa_evicted += len(node.value)
+                n, p = self._evict_leaf(node)
                 full_evicted += n
-                swa_evicted += n
-                self._delete_leaf(node)
-
-                p = node.parent
-                if (
-                    p is not None
-                    and p != self.root_node
-                    and len(p.children) == 0
-                    and p.lock_ref == 0
-                ):
-                    if self.supports_swa and p.swa_tombstone:
-                        self._free_indices(p.value)
-                        full_evicted += len(p.value)
-                        self._delete_leaf(p)
-                    else:
-                        heapq.heappush(heap, (p.last_access_time, p))
+                if p is not None:
+                    heapq.heappush(heap, (p.last_access_time, p))
 
         # Phase 2: SWA tombstone eviction (internal nodes)
         if self.supports_swa and swa_evicted < swa_num_tokens:
@@ -342,10 +331,8 @@ class RadixCache(BasePrefixCache):
                     continue
                 n = len(node.value)
                 if len(node.children) == 0 and node.lock_ref == 0:
-                    self._free_indices(node.value)
-                    full_evicted += n
+                    full_evicted += self._evict_leaf(node)[0]
                     swa_evicted += n
-                    self._delete_leaf(node)
                 elif len(node.children) > 0:
                     self._free_swa_indices(node.value)
                     swa_evicted += n
@@ -501,12 +488,16 @@ class RadixCache(BasePrefixCache):
         non_tomb_len: float = float("inf")
         best_count = 0
         best_node = node
+        now = time.monotonic()
+        node.last_access_time = now
 
         while len(key) > 0:
             ck = _child_key(key, self.page_size)
             if ck not in node.children:
                 break
             child = node.children[ck]
+            child.last_access_time = now
+            child.hit_count += 1
 
             if child.swa_tombstone:
                 if non_tomb_len >= self.sliding_window_size:
@@ -575,17 +566,18 @@ class RadixCache(BasePrefixCache):
         value: torch.Tensor,
         prev_prefix_len: int,
         swa_evicted_seqlen: int,
-    ) -> int:
-        """Insert with SWA tombstone awareness.
+    ) -> Tuple[int, TreeNode]:
+        """Insert with SWA tombstone awareness.  Returns ``(prefix_len, last_node)``.
 
         When an existing node is tombstoned and the incoming *value* carries
         fresh SWA KV (i.e. beyond *swa_evicted_seqlen*), the node is
-        un-tombstoned and its value is replaced.
+        un-tombstoned and its value is replaced, unless it is locked: then its
+        present value is in use.
         """
         now = time.monotonic()
         node.last_access_time = now
         if len(key) == 0:
-            return 0
+            return 0, node
 
         total_prefix = 0
         while len(key) > 0:
@@ -597,41 +589,39 @@ class RadixCache(BasePrefixCache):
             plen = _key_match(node.key, key, self.page_size)
 
             if plen < len(node.key):
-                self._split_node(node.key, node, plen)
+                node = self._split_node(node.key, node, plen)
 
-            beyond_protected = prev_prefix_len < total_prefix + plen
-            if beyond_protected and node.swa_tombstone:
-                if swa_evicted_seqlen <= total_prefix:
-                    self._free_indices(node.value[:plen])
+            first_own = max(prev_prefix_len - total_prefix, 0)
+            if first_own < plen:
+                if (
+                    node.swa_tombstone
+                    and node.lock_ref == 0
+                    and swa_evicted_seqlen <= total_prefix
+                ):
+                    self._free_indices(node.value[first_own:])
                     node.value = value[:plen].clone()
                     node.swa_tombstone = False
                     self._swa_evictable_size += len(node.value)
                 else:
-                    self._free_indices(value[:plen])
-            elif beyond_protected:
-                self._free_indices(value[:plen])
+                    self._free_indices(value[first_own:plen])
 
             total_prefix += plen
             key = key[plen:]
             value = value[plen:]
 
         if len(key) > 0:
-            if (
-                swa_evicted_seqlen > total_prefix
-                and swa_evicted_seqlen < total_prefix + len(key)
-            ):
-                tomb_len = swa_evicted_seqlen - total_prefix
-                self._add_leaf(
+            tomb_len = min(swa_evicted_seqlen - total_prefix, len(key))
+            if tomb_len > 0:
+                node = self._add_leaf(
                     node, key[:tomb_len], value[:tomb_len], swa_tombstone=True
                 )
-                node = node.children[_child_key(key, self.page_size)]
                 key = key[tomb_len:]
                 value = value[tomb_len:]
 
             if len(key) > 0:
-                self._add_leaf(node, key, value, swa_tombstone=False)
+                node = self._add_leaf(node, key, value, swa_tombstone=False)
 
-        return total_prefix
+        return total_prefix, node
 
     # ------------------------------------------------------------------
     # Internal: tree manipulation
@@ -695,6 +685,24 @@ class RadixCache(BasePrefixCache):
         new_node.parent.children[_child_key(key, self.page_size)] = new_node
         return new_node
 
+    def _evict_leaf(self, node: TreeNode) -> Tuple[int, Optional[TreeNode]]:
+        """Evict an unlocked leaf and the tombstones that only led to it.
+
+        Returns the number of tokens freed and the parent, if that is an
+        evictable leaf now.
+        """
+        freed = 0
+        while True:
+            freed += len(node.value)
+            self._free_indices(node.value)
+            self._delete_leaf(node)
+            p = node.parent
+            if p is self.root_node or len(p.children) > 0 or p.lock_ref > 0:
+                return freed, None
+            if not p.swa_tombstone:
+                return freed, p
+            node = p
+
     def _delete_leaf(self, node: TreeNode) -> None:
         ck = _child_key(node.key, self.page_size)
         node.parent.children.pop(ck, None)
@@ -753,10 +761,10 @@ class RadixCache(BasePrefixCache):
 
     def _free_swa_indices(self, indices: torch.Tensor) -> None:
         if self.pool is not None and len(indices) > 0:
+            # A pool without separate SWA KV has nothing to free: the full KV
+            # stays cached.
             if hasattr(self.pool, "free_swa"):
                 self.pool.free_swa(indices)
-            else:
-                self.pool.free(indices)
 
     def _print_helper(self, node: TreeNode, indent: int) -> None:
         stack = [(node, indent)]
diff --git a/pymllm/orchestrator/model_runner_process.py b/pymllm/orchestrator/model_runner_process.py
index ea62e03..e26e3ca 100644
--- a/pymllm/orchestrator/model_runner_process.py
+++ b/pymllm/orchestrator/model_runner_process.py
@@ -536,6 +536,7 @@ class ModelRunnerProcess:
 
         runner = self._runner
         gdn_pool = getattr(runner, "gdn_pool", None)
+        frees_duplicates = getattr(cache, "supports_swa", False)
 
         for m in requests_meta:
             rid = m["rid"]
@@ -563,11 +564,13 @@ class ModelRunnerProcess:
                 )
 
             key = RadixKey(input_ids)
-            result = cache.insert(key, kv_indices)
+            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            result = cache.insert(
+                key, kv_indices, prev_prefix_len=cache_protected_len
+            )
             new_prefix_len = result.prefix_len
 
-            # --- Step 2: free duplicates ---
-            cache_protected_len = self._rid_to_cache_protected_len.get(rid, 0)
+            # --- Step 2: free duplicates (an SWA cache does so itself) ---
             if _dbg:
                 logger.debug(
                     "[CACHE INSERT] rid=%s insert prefix_len=%d cache_protected=%d",
@@ -575,7 +578,7 @@ class ModelRunnerProcess:
                     new_prefix_len,
                     cache_protected_len,
                 )
-            if new_prefix_len > cache_protected_len:
+            if new_prefix_len > cache_protected_len and not frees_duplicates:
                 dup_indices = kv_indices[cache_protected_len:new_prefix_len]
                 if _dbg:
                     logger.debug(
@@ -1068,6 +1071,7 @@ class ModelRunnerProcess:
         self._rid_to_gdn_track_slot.pop(rid, None)
 
         cache_enabled = cache is not None and not isinstance(cache, ChunkCache)
+        frees_duplicates = getattr(cache, "supports_swa", False)
 
         # ----------------------------------------------------------
         # Phase 1: Read all KV indices BEFORE freeing anything.
@@ -1095,11 +1099,13 @@ class ModelRunnerProcess:
                 prompt_kv = all_kv_indices[:prompt_len]
                 decode_kv = all_kv_indices[prompt_len:]
                 key = RadixKey(list(input_ids))
-                result = cache.insert(key, prompt_kv)
+                result = cache.insert(
+                    key, prompt_kv, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not frees_duplicates:
                     dup_indices = prompt_kv[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
@@ -1115,11 +1121,13 @@ class ModelRunnerProcess:
                 full_token_ids = list(input_ids)
                 full_token_ids.extend(computed_output_ids)
                 key = RadixKey(full_token_ids)
-                result = cache.insert(key, all_kv_indices)
+                result = cache.insert(
+                    key, all_kv_indices, prev_prefix_len=cache_protected_len
+                )
                 new_prefix_len = result.prefix_len
 
                 # Free duplicate KV indices in the overlap region.
-                if new_prefix_len > cache_protected_len:
+                if new_prefix_len > cache_protected_len and not frees_duplicates:
                     dup_indices = all_kv_indices[cache_protected_len:new_prefix_len]
                     if dup_indices.numel() > 0:
                         runner.token_to_kv_pool_allocator.free(dup_indices)
-- 
2.43.0


From 6dbee0ce90351691aa4b74acb852294eff699612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:31 +0000
Subject: [PATCH 26/45] fix: hybrid prefix cache: snapshots stay with their
 prefix, locks and sizes are exact, eviction terminates

---
 pymllm/mem_cache/mamba_radix_cache.py | 65 +++++++++++++--------------
 1 file changed, 30 insertions(+), 35 deletions(-)

diff --git a/pymllm/mem_cache/mamba_radix_cache.py b/pymllm/mem_cache/mamba_radix_cache.py
index 19834b1..912ce3e 100644
--- a/pymllm/mem_cache/mamba_radix_cache.py
+++ b/pymllm/mem_cache/mamba_radix_cache.py
@@ -380,7 +380,11 @@ class MambaRadixCache(BasePrefixCache):
         mamba_value: Optional[torch.Tensor] = None,
         **kwargs: Any,
     ) -> InsertResult:
-        """Insert with both full KV and Mamba state values."""
+        """Insert with both full KV and Mamba state values.
+
+        *mamba_value* holds the state-pool indices of the state after the whole
+        key.  If the tree already has one (``mamba_exist``), the caller keeps it.
+        """
         if value is None:
             value = torch.tensor(key.token_ids, dtype=torch.int64)
 
@@ -393,7 +397,6 @@ class MambaRadixCache(BasePrefixCache):
 
         node = self.root_node
         total_prefix = 0
-        mamba_exist = False
 
         ck = _child_key(key, self.page_size)
         while len(key) > 0 and ck in node.children:
@@ -406,13 +409,12 @@ class MambaRadixCache(BasePrefixCache):
             if plen < len(node.key):
                 node = self._split_node(node.key, node, plen)
 
-            # Check if mamba state already exists
-            if node.mamba_value is not None:
-                mamba_exist = True
-
             if len(key) > 0:
                 ck = _child_key(key, self.page_size)
 
+        # The state belongs to the end of the inserted key
+        mamba_exist = len(key) == 0 and node.mamba_value is not None
+
         if len(key) > 0:
             new_leaf = self._add_leaf(node, key, value, mamba_value=mamba_value)
             node = new_leaf
@@ -420,7 +422,11 @@ class MambaRadixCache(BasePrefixCache):
             # Existing node gains mamba state (un-tombstone)
             node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(node)
-            self._mamba_evictable += len(node.value)
+            self._mamba_evictable += len(node.mamba_value)
+
+        # Update LRU for the inserted path
+        self.full_lru.touch_node_and_parents_mru(node, self.root_node)
+        self.mamba_lru.touch_node_and_parents_mru(node, self.root_node)
 
         return InsertResult(
             prefix_len=total_prefix, last_node=node, mamba_exist=mamba_exist
@@ -445,7 +451,7 @@ class MambaRadixCache(BasePrefixCache):
                 self._free_full_indices(node.value)
                 if node.mamba_value is not None:
                     self._free_mamba_value(node.mamba_value)
-                    mamba_evicted += n
+                    mamba_evicted += len(node.mamba_value)
                 full_evicted += n
                 self._delete_leaf(node)
 
@@ -467,8 +473,6 @@ class MambaRadixCache(BasePrefixCache):
                 node = self.mamba_lru.get_lru_unlocked()
                 if node is None:
                     break
-                if node.mamba_value is None:
-                    continue
                 n = len(node.mamba_value)
                 self._free_mamba_value(node.mamba_value)
                 node.mamba_value = None
@@ -484,13 +488,16 @@ class MambaRadixCache(BasePrefixCache):
         """Lock full KV and Mamba state from *node* to root.
 
         Full lock propagates up to root.  Mamba lock only applies to
-        the node itself (not ancestors).
+        the node itself (not ancestors).  Returns whether it does, which must
+        be passed back to :meth:`dec_lock_ref`: the node may gain its Mamba
+        state only later.
         """
         if node is None:
             return None
 
         # Lock mamba on the node itself
-        if node.mamba_value is not None:
+        mamba_locked = node != self.root_node and node.mamba_value is not None
+        if mamba_locked:
             if node.mamba_lock_ref == 0 and node in self.mamba_lru:
                 self._mamba_evictable -= len(node.mamba_value)
                 self._mamba_protected += len(node.mamba_value)
@@ -504,15 +511,17 @@ class MambaRadixCache(BasePrefixCache):
                 self._full_protected += len(cur.key)
             cur.full_lock_ref += 1
             cur = cur.parent
-        return None
+        return mamba_locked
 
-    def dec_lock_ref(self, node: MambaTreeNode, **kwargs: Any) -> None:
+    def dec_lock_ref(
+        self, node: MambaTreeNode, mamba_locked: Optional[Any] = None, **kwargs: Any
+    ) -> None:
         """Unlock full KV and Mamba state."""
         if node is None:
             return
 
         # Unlock mamba on the node itself
-        if node.mamba_lock_ref > 0:
+        if mamba_locked:
             node.mamba_lock_ref -= 1
             if node.mamba_lock_ref == 0 and node.mamba_value is not None:
                 self._mamba_evictable += len(node.mamba_value)
@@ -538,15 +547,6 @@ class MambaRadixCache(BasePrefixCache):
         value: torch.Tensor,
         mamba_value: Optional[torch.Tensor] = None,
     ) -> MambaTreeNode:
-        # Parent may lose leaf status
-        if (
-            len(parent.children) == 0
-            and parent != self.root_node
-            and parent.full_lock_ref == 0
-            and not parent.evicted
-        ):
-            self._full_evictable -= len(parent.key)
-
         new_node = MambaTreeNode()
         new_node.parent = parent
         new_node.key = key
@@ -561,27 +561,24 @@ class MambaRadixCache(BasePrefixCache):
         if mamba_value is not None:
             new_node.mamba_value = mamba_value.clone()
             self.mamba_lru.insert_mru(new_node)
-            self._mamba_evictable += len(key)
+            self._mamba_evictable += len(mamba_value)
 
         return new_node
 
     def _split_node(
         self, key: RadixKey, child: MambaTreeNode, split_len: int
     ) -> MambaTreeNode:
-        """Split *child* at *split_len*, returning the new parent node."""
+        """Split *child* at *split_len*, returning the new parent node.
+
+        The Mamba state belongs to the end of *child* and stays there.
+        """
         new_node = MambaTreeNode()
         new_node.children[_child_key(key[split_len:], self.page_size)] = child
         new_node.parent = child.parent
         new_node.full_lock_ref = child.full_lock_ref
-        new_node.mamba_lock_ref = child.mamba_lock_ref
         new_node.key = child.key[:split_len]
         new_node.value = child.value[:split_len].clone()
 
-        # Split mamba value
-        if child.mamba_value is not None:
-            new_node.mamba_value = child.mamba_value[:split_len].clone()
-            child.mamba_value = child.mamba_value[split_len:].clone()
-
         child.parent = new_node
         child.key = child.key[split_len:]
         child.value = child.value[split_len:].clone()
@@ -589,8 +586,6 @@ class MambaRadixCache(BasePrefixCache):
 
         # Update LRU lists: insert new_node, keep child
         self.full_lru.insert_mru(new_node)
-        if new_node.mamba_value is not None:
-            self.mamba_lru.insert_mru(new_node)
 
         return new_node
 
@@ -605,7 +600,7 @@ class MambaRadixCache(BasePrefixCache):
 
         if node.mamba_value is not None and node in self.mamba_lru:
             self.mamba_lru.remove(node)
-            self._mamba_evictable -= len(node.key)
+            self._mamba_evictable -= len(node.mamba_value)
 
         node.value = None
         node.mamba_value = None
-- 
2.43.0


From d1c160fa022ab9e4e8fdb3b74fd22ef380a4ee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:33 +0000
Subject: [PATCH 27/45] fix: radix tree: a path does not continue below a
 partly matched edge

---
 mllm/engine/prefix_cache/RadixTree.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mllm/engine/prefix_cache/RadixTree.cpp b/mllm/engine/prefix_cache/RadixTree.cpp
index d9049c5..f2db8f2 100644
--- a/mllm/engine/prefix_cache/RadixTree.cpp
+++ b/mllm/engine/prefix_cache/RadixTree.cpp
@@ -11,7 +11,9 @@ namespace mllm::prefix_cache {
 RadixTreeNodeKey::RadixTreeNodeKey(const VectorView<int64_t>& token_ids_tmp, int64_t extra_key_tmp)
     : token_ids(token_ids_tmp), extra_key(extra_key_tmp) {}
 
-bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept { return token_ids == o.token_ids; }
+bool RadixTreeNodeKey::operator==(const RadixTreeNodeKey& o) const noexcept {
+  return extra_key == o.extra_key && token_ids == o.token_ids;
+}
 
 bool RadixTreeNodeKey::operator!=(const RadixTreeNodeKey& o) const noexcept { return !(*this == o); }
 
@@ -70,6 +72,8 @@ bool RadixTree::insert(const RadixTreeNodeKey& key, const RadixTreeNodeValue& va
     }
     if (!found) break;
     cur = deepest;
+    // The children continue the whole edge, not a part of it.
+    if (edge_matched < deepest->key.token_ids.size()) break;
   }
 
   if (matched == key.token_ids.size()) {
@@ -118,6 +122,7 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
   // Start from root to find.
   while (cur_searched_len < key.token_ids.size() && cur_node) {
     bool found_next_child = false;
+    bool edge_finished = false;
     auto sub_token_ids = key.token_ids.subview(cur_searched_len, key.token_ids.size() - cur_searched_len);
 
     for (auto& [child_key, child_node] : cur_node->children) {
@@ -130,11 +135,13 @@ RadixSearchResult RadixTree::search(const RadixTreeNodeKey& key) {
         cur_searched_len += matched_len;
         path.emplace_back(cur_node, matched_len);
         found_next_child = true;
+        edge_finished = matched_len == child_key.token_ids.size();
         break;
       }
     }
 
-    if (!found_next_child) { break; }
+    // The children continue the whole edge, not a part of it.
+    if (!found_next_child || !edge_finished) { break; }
   }
 
   if (cur_searched_len) {
-- 
2.43.0


From 1d9e9b860b67fe8afc888ef2ec1ab615a116c893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:01 +0000
Subject: [PATCH 28/45] fix: ZenFS: blocks of every page and a partly used
 bitmap word are allocated and freed exactly; purging keeps contents

---
 mllm/engine/prefix_cache/ZenFS.cpp | 41 +++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/mllm/engine/prefix_cache/ZenFS.cpp b/mllm/engine/prefix_cache/ZenFS.cpp
index 604be3f..2bb48c8 100644
--- a/mllm/engine/prefix_cache/ZenFS.cpp
+++ b/mllm/engine/prefix_cache/ZenFS.cpp
@@ -16,6 +16,17 @@
 
 namespace mllm::prefix_cache {
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+
+// One bit per lane, all free. The last word may be used in part only.
+inline std::vector<uint64_t> allLanesFree(size_t lanes) {
+  std::vector<uint64_t> bitmap((lanes + 63) / 64, ~0ULL);
+  if (lanes % 64) { bitmap.back() = (1ULL << (lanes % 64)) - 1; }
+  return bitmap;
+}
+
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 ZenFSBlobMMAPFile::ptr_t ZenFSBlobMMAPFile::create(size_t size, ZenFSMMAPMode mode, const std::string& fpath,
                                                    std::error_code& ec) {
   // Not throw std::bad_alloc but return nullptr
@@ -51,7 +62,8 @@ bool ZenFSBlobMMAPFile::initAnonymous(size_t size, std::error_code& ec) {
 
 bool ZenFSBlobMMAPFile::initFileBacked(size_t size, ZenFSMMAPMode mode, const std::string& fpath, std::error_code& ec) {
   size_ = size;
-  std::vector<char> tmp(fpath.begin(), fpath.end());
+  const std::string name_template = fpath + ".XXXXXX";
+  std::vector<char> tmp(name_template.begin(), name_template.end());
   tmp.push_back('\0');
   fd_ = ::mkstemp(tmp.data());
   if (fd_ < 0) {
@@ -145,6 +157,8 @@ void ZenFSBlobMMAPFile::purge(size_t offset, size_t len) {
   ::FlushViewOfFile(start, len);
   ::DiscardVirtualMemory(start, len);
 #else
+  // Without a file there is nowhere to read the data back from.
+  if (fd_ < 0) return;
   ::msync(start, len, MS_SYNC);
   ::madvise(start, len, MADV_DONTNEED);
 #endif
@@ -325,7 +339,6 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
   // X. Create the first block Tensor for KV
   {
     size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-    size_t uint64_count = (total_bits + 64 - 1) / 64;
 
     // The first blob is in memory
     blob_.insert({blob_.size(), ZenFSBlob{.data = Tensor::zeros({(1 << (options_.page_bits + options_.lane_bits)),
@@ -333,7 +346,7 @@ void ZenFileSystem::initialize(const ZenFileSystemOptions& options) {
                                                                 options.k_dtype),
                                           .type = ZenFSBlobType::kInMemory,
                                           .mmap_file = std::nullopt,
-                                          .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                          .free_lanes_bits_map = allLanesFree(total_bits)}});
   }
 }
 
@@ -492,8 +505,7 @@ void ZenFileSystem::recover(const std::string& working_dir) {
 
       // Initialize free lanes bitmap
       size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-      size_t uint64_count = (total_bits + 64 - 1) / 64;
-      blob.free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL);
+      blob.free_lanes_bits_map = allLanesFree(total_bits);
 
       // Insert blob into map
       blob_.insert({blob_id, std::move(blob)});
@@ -531,7 +543,7 @@ void ZenFileSystem::hintsPrefetch(vp_addr_t token_lane_addr) const {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = page_addr * (1 << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -552,7 +564,7 @@ void ZenFileSystem::hintsPurge(vp_addr_t token_lane_addr) {
     vp_lane_addr_t lane_addr = getLaneAddr(token_lane_addr, options_.page_bits, options_.lane_bits);
 
     // Calculate offset: page offset + lane offset
-    size_t page_offset = page_addr * per_kv_token_mem_size_;
+    size_t page_offset = page_addr * (1 << options_.lane_bits) * per_kv_token_mem_size_;
     size_t lane_offset = lane_addr * per_kv_token_mem_size_;
     size_t offset = page_offset + lane_offset;
 
@@ -596,15 +608,16 @@ void ZenFileSystem::free(vp_addr_t addr) {
   // Extract blob address from the virtual address
   vp_blob_addr_t blob_addr = getBlobAddr(addr, options_.page_bits, options_.lane_bits);
 
-  // Get the lane address to determine which bit to free in the bitmap
-  vp_lane_addr_t lane_addr = getLaneAddr(addr, options_.page_bits, options_.lane_bits);
+  // Get the index in the blob (page and lane) to determine which bit to free in the bitmap
+  size_t token_index = getPageAddr(addr, options_.page_bits, options_.lane_bits) * (1 << options_.lane_bits)
+                       + getLaneAddr(addr, options_.page_bits, options_.lane_bits);
 
   // Find the blob
   auto it = blob_.find(blob_addr);
   if (it != blob_.end()) {
     // Calculate which word in the bitmap and which bit within that word
-    size_t word_index = lane_addr / 64;
-    size_t bit_index = lane_addr % 64;
+    size_t word_index = token_index / 64;
+    size_t bit_index = token_index % 64;
 
     // Set the bit to 1 to indicate it's free
     if (word_index < it->second.free_lanes_bits_map.size()) {
@@ -638,7 +651,6 @@ char* ZenFileSystem::access(vp_addr_t addr) {
 void ZenFileSystem::_createBlobOnDisk() {
   // Calculate blob size.
   size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + sizeof(uint64_t) - 1) / sizeof(uint64_t);
 
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
@@ -666,13 +678,12 @@ void ZenFileSystem::_createBlobOnDisk() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = allLanesFree(total_bits)}});
 }
 
 void ZenFileSystem::_createBlobOnAnonymousFile() {
   // Calculate blob size.
   size_t total_bits = (1 << (options_.page_bits + options_.lane_bits));
-  size_t uint64_count = (total_bits + 64 - 1) / 64;
 
   // Blob size is not K and V.
   // Is 1 << (options_.page_bits + options_.lane_bits) * elements * sizeof(dtype).
@@ -699,7 +710,7 @@ void ZenFileSystem::_createBlobOnAnonymousFile() {
   blob_.insert({(uint32_t)this_tensor_blob_id, ZenFSBlob{.data = std::move(tensor),
                                                          .type = ZenFSBlobType::kOnDiskMMAP,
                                                          .mmap_file = mmap_file,
-                                                         .free_lanes_bits_map = std::vector<uint64_t>(uint64_count, ~0ULL)}});
+                                                         .free_lanes_bits_map = allLanesFree(total_bits)}});
 }
 
 void ZenFileSystem::_findFreeAddrInBlob(vp_blob_addr_t blob_addr, vp_addr_t* ret_addr) {
-- 
2.43.0


From edbb424b934b672cb263abc40fc53dde04fb0540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:56 +0000
Subject: [PATCH 29/45] fix: prefix caches: sequences promoted under a
 namespace can be found and slid under it

---
 mllm/engine/prefix_cache/Cache.cpp | 4 ++--
 mllm/engine/prefix_cache/Cache.hpp | 2 +-
 mllm/nn/lmcache/PrefixCache.cpp    | 8 ++++----
 mllm/nn/lmcache/PrefixCache.hpp    | 4 ++--
 4 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mllm/engine/prefix_cache/Cache.cpp b/mllm/engine/prefix_cache/Cache.cpp
index 0076112..279f2f4 100644
--- a/mllm/engine/prefix_cache/Cache.cpp
+++ b/mllm/engine/prefix_cache/Cache.cpp
@@ -21,8 +21,8 @@ void Cache::promote(const std::vector<int64_t>& token_ids, const std::vector<std
   tree_.insert(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids) {
-  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids)));
+RadixSearchResult Cache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_.search(RadixTreeNodeKey(VectorView<int64_t>(token_ids), extra_key));
 }
 
 // low level APIs
diff --git a/mllm/engine/prefix_cache/Cache.hpp b/mllm/engine/prefix_cache/Cache.hpp
index b6e520a..b413a82 100644
--- a/mllm/engine/prefix_cache/Cache.hpp
+++ b/mllm/engine/prefix_cache/Cache.hpp
@@ -27,7 +27,7 @@ class Cache {
   void promote(const std::vector<int64_t>& token_ids, const std::vector<std::vector<vp_addr_t>>& key_cache_addresses,
                const std::vector<std::vector<vp_addr_t>>& value_cache_addresses, int64_t extra_key = 0);
 
-  RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   // Low level APIs
   vp_addr_t alloc(DeviceTypes device_type);
diff --git a/mllm/nn/lmcache/PrefixCache.cpp b/mllm/nn/lmcache/PrefixCache.cpp
index e88109d..88fd217 100644
--- a/mllm/nn/lmcache/PrefixCache.cpp
+++ b/mllm/nn/lmcache/PrefixCache.cpp
@@ -49,8 +49,8 @@ void PrefixCache::purgeKey(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
 void PrefixCache::purgeValue(int layer_idx, prefix_cache::vp_addr_t addr) {}
 
-prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids) {
-  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids)));
+prefix_cache::RadixSearchResult PrefixCache::find(const std::vector<int64_t>& token_ids, int64_t extra_key) {
+  return tree_->search(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key));
 }
 
 CpuPrefixCache::CpuPrefixCache(const PrefixCacheOptions& options) : PrefixCache(options) {
@@ -83,7 +83,7 @@ void CpuPrefixCache::promote(const std::vector<int64_t>& token_ids,
   tree_->insert(prefix_cache::RadixTreeNodeKey(prefix_cache::VectorView<int64_t>(token_ids), extra_key), value);
 }
 
-void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids) {
+void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key) {
   // Check the sliding window layers if they need to be evicted
   // Remember that the token_ids is full and not partial
   if (!options_.hybrid_sliding_window_cache.value_or(false)) { return; }
@@ -91,7 +91,7 @@ void CpuPrefixCache::evictSlidingWindowLayerOn(const std::vector<int64_t>& token
 
   // We evict the tokens outof sliding window.
   // 1. find token_ids path
-  auto result = find(token_ids);
+  auto result = find(token_ids, extra_key);
 
   for (int layer_idx = 0; layer_idx < options_.total_layers; ++layer_idx) {
     // Only perform on sliding window
diff --git a/mllm/nn/lmcache/PrefixCache.hpp b/mllm/nn/lmcache/PrefixCache.hpp
index 89aba2e..c51dc82 100644
--- a/mllm/nn/lmcache/PrefixCache.hpp
+++ b/mllm/nn/lmcache/PrefixCache.hpp
@@ -60,7 +60,7 @@ class PrefixCache {
  public:
   explicit PrefixCache(const PrefixCacheOptions& options);
 
-  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids);
+  prefix_cache::RadixSearchResult find(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   virtual ~PrefixCache();
 
@@ -116,7 +116,7 @@ class CpuPrefixCache final : public PrefixCache {
    *
    * @param token_ids
    */
-  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids);
+  void evictSlidingWindowLayerOn(const std::vector<int64_t>& token_ids, int64_t extra_key = 0);
 
   prefix_cache::vp_addr_t allocKey(int layer_idx) override;
 
-- 
2.43.0


From 54e97f7a5e8908566b111cb0c7e3bce8606d36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 30/45] fix: buddy pool: growth and the block table are locked,
 cached blocks are found again, impossible requests fail, pools are optional

---
 mllm/engine/BuddyMemPool.cpp  | 57 +++++++++++++++++++++++------------
 mllm/engine/BuddyMemPool.hpp  |  2 +-
 mllm/engine/MemoryManager.cpp |  7 ++++-
 3 files changed, 44 insertions(+), 22 deletions(-)

diff --git a/mllm/engine/BuddyMemPool.cpp b/mllm/engine/BuddyMemPool.cpp
index e7b5141..41f854e 100644
--- a/mllm/engine/BuddyMemPool.cpp
+++ b/mllm/engine/BuddyMemPool.cpp
@@ -9,6 +9,8 @@
 namespace mllm {
 
 namespace MLLM_ANONYMOUS_NAMESPACE {
+constexpr size_t kMaxExpandedSegmentCap = 1ULL << 29ULL;  // 512MB
+
 size_t _log2_ceil(size_t size) {
   if (size == 0) return 0;
   return static_cast<size_t>(ceil(log2(size)));
@@ -62,6 +64,7 @@ void BuddyMemPool::alloc(Storage* s) {
   s->ptr_ = omb->ptr;
 
   // Reg to memory pool
+  std::lock_guard<std::mutex> lock(mutex_);
   st_.reg(s->custom_32bit_uuid_, omb);
 }
 
@@ -72,28 +75,39 @@ void BuddyMemPool::free(Storage* s) {
 
   if (s->ptr_ == nullptr) { return; }
 
+  BuddyMemBlock* omb = nullptr;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    omb = st_[s->custom_32bit_uuid_];
+    st_.remove(s->custom_32bit_uuid_);
+  }
+
   if (options_.cache_small_obj_enabled && isInObjCache(try_to_alloc_size)) {
-    freeObjCache(st_[s->custom_32bit_uuid_]);
+    freeObjCache(omb, try_to_alloc_size);
   } else {
-    freeBuddy(st_[s->custom_32bit_uuid_]);
+    freeBuddy(omb);
   }
-
-  st_.remove(s->custom_32bit_uuid_);
 }
 
 void BuddyMemPool::free(const std::shared_ptr<Storage>& s) { free(s.get()); }
 
 void BuddyMemPool::updateCacheSizeList(const std::unordered_set<size_t>& cache_size_set) {
-  auto& object_cache = free_object_cache_st_;
-  for (auto size : cache_size_set) {
-    if (!isInObjCache(size)) {
-      auto& free_list = object_cache[size];
-      for (auto it : free_list) { freeBuddy(it); }
-      object_cache.erase(object_cache.find(size));
+  // Blocks of sizes that are not cached any more go back to the buddy pool.
+  std::list<BuddyMemBlock*> dropped;
+  {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto& object_cache = free_object_cache_st_;
+    for (auto it = object_cache.begin(); it != object_cache.end();) {
+      if (cache_size_set.count(it->first)) {
+        ++it;
+        continue;
+      }
+      dropped.splice(dropped.end(), it->second);
+      it = object_cache.erase(it);
     }
+    options_.cache_size_set = cache_size_set;
   }
-
-  options_.cache_size_set = cache_size_set;
+  for (auto it : dropped) { freeBuddy(it); }
 }
 
 void BuddyMemPool::report() const {
@@ -108,9 +122,8 @@ void BuddyMemPool::report() const {
 }
 
 BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
-  // lock_guard should in this scope.
-  {
-    std::lock_guard<std::mutex> lock(mutex_);
+  std::lock_guard<std::mutex> lock(mutex_);
+  while (true) {
     auto& cur_segs = context_.segments;
     auto& cur_seg_blocks = context_.segment_blocks;
 
@@ -172,9 +185,13 @@ BuddyMemBlock* BuddyMemPool::allocBuddy(size_t omb_size) {
         return block;
       }
     }
+
+    // Not found, alloc a new seg and look again. No new segment is larger than this.
+    if (omb_size > kMaxExpandedSegmentCap) {
+      MLLM_ERROR_EXIT(ExitCode::kMemory, "The tensor size {} you want to alloc is too large for the buddy memory pool.", omb_size);
+    }
+    if (!expandBuddySegment()) { break; }
   }
-  // lock_guard freed, so that we can call allocBuddy again if not found, alloc a new seg.
-  if (expandBuddySegment()) { return allocBuddy(omb_size); }
 
   MLLM_ERROR_EXIT(ExitCode::kMemory, "Failed to alloc a new segment for buddy memory pool.");
 
@@ -232,7 +249,7 @@ bool BuddyMemPool::expandBuddySegment() {
   for (auto& seg : cur_segs) { previous_seg_cap = std::max(previous_seg_cap, (size_t)(1ULL << seg.second->max_order)); }
 
   size_t min_order = options_.buddy_min_order;
-  size_t new_cap = std::min(previous_seg_cap * 2, (size_t)(1ULL << 29ULL));  // max is 512MB
+  size_t new_cap = std::min(previous_seg_cap * 2, kMaxExpandedSegmentCap);
   size_t max_order = _log2_ceil(new_cap);
 
   void* _p = nullptr;
@@ -287,10 +304,10 @@ BuddyMemBlock* BuddyMemPool::allocObjCache(size_t omb_size) {
   return ret;
 }
 
-void BuddyMemPool::freeObjCache(BuddyMemBlock* omb) {
+void BuddyMemPool::freeObjCache(BuddyMemBlock* omb, size_t omb_size) {
   std::lock_guard<std::mutex> lock(mutex_);
   auto& object_cache = free_object_cache_st_;
-  object_cache[omb->size].push_back(omb);
+  object_cache[omb_size].push_back(omb);
   obj_cached_times_++;
 }
 
diff --git a/mllm/engine/BuddyMemPool.hpp b/mllm/engine/BuddyMemPool.hpp
index 3b15f98..e36e7e3 100644
--- a/mllm/engine/BuddyMemPool.hpp
+++ b/mllm/engine/BuddyMemPool.hpp
@@ -91,7 +91,7 @@ class BuddyMemPool {
 
   BuddyMemBlock* allocObjCache(size_t omb_size);
 
-  void freeObjCache(BuddyMemBlock* omb);
+  void freeObjCache(BuddyMemBlock* omb, size_t omb_size);
 
   bool isInObjCache(size_t omb_size);
 
diff --git a/mllm/engine/MemoryManager.cpp b/mllm/engine/MemoryManager.cpp
index 5372ef0..b3e394f 100644
--- a/mllm/engine/MemoryManager.cpp
+++ b/mllm/engine/MemoryManager.cpp
@@ -54,6 +54,11 @@ void MemoryManager::alloc(Storage* s) {
     return;
   }
 
+  if (!mem_pools_.has(s->device_)) {
+    allocator->alloc(s);
+    return;
+  }
+
   mem_pools_[s->device_]->alloc(s);
 }
 
@@ -73,7 +78,7 @@ void MemoryManager::free(Storage* s) {
   MLLM_PERF_TRACE_END("mllm.tensor_lifecycle", perfetto::Track(static_cast<uint64_t>(s->custom_32bit_uuid_)));
 #endif
 
-  if (try_to_alloc_size >= options_[s->device_].really_large_tensor_threshold) {
+  if (try_to_alloc_size >= options_[s->device_].really_large_tensor_threshold || !mem_pools_.has(s->device_)) {
     allocator->free(s);
     return;
   }
-- 
2.43.0


From 613d17554a4b70d9cb389921ce39108b8f6ba4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 31/45] fix: thread pool: partial last steps run, sleeping and
 destroying the pool never strands a loop

---
 mllm/engine/HpcThreadPool.cpp | 31 ++++++++++++++++++++++++++-----
 mllm/engine/HpcThreadPool.hpp |  2 ++
 2 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/mllm/engine/HpcThreadPool.cpp b/mllm/engine/HpcThreadPool.cpp
index 9d552d2..f1a4383 100644
--- a/mllm/engine/HpcThreadPool.cpp
+++ b/mllm/engine/HpcThreadPool.cpp
@@ -5,8 +5,16 @@
 
 namespace mllm {
 
+namespace MLLM_ANONYMOUS_NAMESPACE {
+// How many times the body runs. The last tile may be a partial step.
+inline int tilesNum(const HpcThreadPoolTask& task) {
+  if (task.end <= task.start) { return 0; }
+  return static_cast<int>((static_cast<int64_t>(task.end) - task.start + task.step - 1) / task.step);
+}
+}  // namespace MLLM_ANONYMOUS_NAMESPACE
+
 void HpcThreadPool::push(HpcThreadPoolTask&& task, int task_slot_idx) {
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = tilesNum(task);
 
   // There is no need to fall in back to thread pool
   if (tiles_num <= 1 || task_slot_idx < 0) {
@@ -77,11 +85,11 @@ void HpcThreadPool::__threadPoolDestroy() { available_task_slots_ = 0; }
 
 void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
   // There are no task slots, use this main thread to compute!
-  if (available_task_slots_ == 0) {
+  if (available_task_slots_ <= 0 || thread_cnt_ <= 1) {
     for (int i = task.start; i < task.end; i += task.step) { task.func(i); }
     return;
   }
-  int tiles_num = (task.end - task.start) / task.step;
+  int tiles_num = tilesNum(task);
 
   int _cnt = 0;
   std::vector<int> true_idx(tiles_num);
@@ -117,6 +125,12 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
     for (int i = 1; i < tiles_num; ++i) { *tasks_[task_slot_idx].second[i] = true; }
   }
 
+  // The pool may have been put to sleep meanwhile. The workers still have to finish the tiles that are handed out.
+  if (available_task_slots_ <= 0) {
+    { std::lock_guard<std::mutex> _l(queue_mutex_); }
+    condition_.notify_all();
+  }
+
   // Explain why we start a 0 idx function.
   //
   // FIXME: The main thread is also used for compute or NOT ?
@@ -136,6 +150,13 @@ void HpcThreadPool::splitTask(HpcThreadPoolTask&& task, int task_slot_idx) {
   } while (!complete);
 }
 
+bool HpcThreadPool::hasTile(int thread_idx) const {
+  for (auto& task : tasks_) {
+    if (*task.second[thread_idx]) { return true; }
+  }
+  return false;
+}
+
 HpcThreadPool::HpcThreadPool(int thread_cnt) {
   thread_cnt_ = thread_cnt;
   available_task_slots_ = 0;
@@ -153,7 +174,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
     int thread_idx = i;
     workers_.emplace_back([this, thread_idx]() {
       while (!stop_) {
-        while (available_task_slots_ > 0) {
+        while (!stop_ && (available_task_slots_ > 0 || hasTile(thread_idx))) {
           for (int i = 0; i < MLLM_HPC_THREAD_POOL_TASK_LIMITS; ++i) {
             if (*tasks_[i].second[thread_idx]) {
               tasks_[i].first.func(thread_idx);
@@ -163,7 +184,7 @@ HpcThreadPool::HpcThreadPool(int thread_cnt) {
           std::this_thread::yield();
         }
         std::unique_lock<std::mutex> _l(queue_mutex_);
-        condition_.wait(_l, [this] { return stop_ || available_task_slots_ > 0; });
+        condition_.wait(_l, [this, thread_idx] { return stop_ || available_task_slots_ > 0 || hasTile(thread_idx); });
       }
     });
   }
diff --git a/mllm/engine/HpcThreadPool.hpp b/mllm/engine/HpcThreadPool.hpp
index db0f1c9..93e842f 100644
--- a/mllm/engine/HpcThreadPool.hpp
+++ b/mllm/engine/HpcThreadPool.hpp
@@ -58,6 +58,8 @@ class HpcThreadPool {
  private:
   void splitTask(HpcThreadPoolTask&& task, int task_slot_idx);
 
+  bool hasTile(int thread_idx) const;
+
   int thread_cnt_ = 0;
   std::atomic_int available_task_slots_ = 0;
   std::atomic_int available_task_slots_old_ = 0;
-- 
2.43.0


From 149a01ef209c9a15c4d9a3ebe811bc82f6e1bbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:57 +0000
Subject: [PATCH 32/45] fix: service: every waiting caller is woken, failures
 and unknown models are answered, sessions are locked, it can be restarted

---
 mllm/engine/service/Service.cpp | 40 ++++++++++++++++++++++++++++-----
 mllm/engine/service/Service.hpp |  4 ++++
 2 files changed, 38 insertions(+), 6 deletions(-)

diff --git a/mllm/engine/service/Service.cpp b/mllm/engine/service/Service.cpp
index 5400bcd..0f0ee89 100644
--- a/mllm/engine/service/Service.cpp
+++ b/mllm/engine/service/Service.cpp
@@ -13,6 +13,11 @@ namespace mllm::service {
 //===----------------------------------------------------------------------===//
 // RequestPool
 //===----------------------------------------------------------------------===//
+void RequestPool::start() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void RequestPool::push(RequestItem item) {
   {
     std::lock_guard lk(mtx_);
@@ -43,11 +48,17 @@ void RequestPool::shutdown() {
 //===----------------------------------------------------------------------===//
 // ResponsePool
 //===----------------------------------------------------------------------===//
+void ResponsePool::start() {
+  std::lock_guard lk(mtx_);
+  stop_ = false;
+}
+
 void ResponsePool::push(const std::string& req_id, ResponseItem item) {
   std::unique_lock lk(mtx_);
   auto& q = queues_[req_id];
   q.push(std::move(item));
-  cv_.notify_one();
+  // Callers wait for different ids. Waking up just one may wake up the wrong one.
+  cv_.notify_all();
 }
 
 std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
@@ -56,9 +67,11 @@ std::optional<ResponseItem> ResponsePool::pop(const std::string& req_id) {
     auto it = queues_.find(req_id);
     return (it != queues_.end() && !it->second.empty()) || stop_;
   });
-  if (stop_) return std::nullopt;
+  // What is there is still delivered after a shutdown.
+  auto it = queues_.find(req_id);
+  if (it == queues_.end() || it->second.empty()) return std::nullopt;
 
-  auto& q = queues_[req_id];
+  auto& q = it->second;
   auto v = std::move(q.front());
   q.pop();
   if (q.empty()) queues_.erase(req_id);
@@ -75,11 +88,13 @@ void ResponsePool::shutdown() {
 // SessionPool
 //===----------------------------------------------------------------------===//
 std::shared_ptr<Session> SessionPool::get(const std::string& session_id) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) { return sessions_[session_id]; }
   return nullptr;
 }
 
 void SessionPool::registerSession(const std::string& session_id, const std::shared_ptr<Session>& session) {
+  std::lock_guard lk(mtx_);
   if (sessions_.count(session_id)) {
     // TODO
     return;
@@ -91,6 +106,8 @@ void SessionPool::registerSession(const std::string& session_id, const std::shar
 // Service
 //===----------------------------------------------------------------------===//
 void Service::start(size_t worker_threads) {
+  req_pool_.start();
+  resp_pool_.start();
   running_ = true;
   sess_pool_.registerSession("<none>", std::make_shared<NoneSession>());
   for (size_t i = 0; i < worker_threads; ++i) workers_.emplace_back([this] { workerLoop(); });
@@ -103,6 +120,7 @@ void Service::stop() {
   for (auto& t : workers_) {
     if (t.joinable()) { t.join(); }
   }
+  workers_.clear();
 
   resp_pool_.shutdown();
 }
@@ -115,10 +133,13 @@ SessionPool& Service::sessionPool() { return sess_pool_; }
 
 void Service::workerLoop() {
   while (running_) {
+    std::string failed_id;
     try {
       if (auto req_opt = req_pool_.pop(); req_opt) {
         RequestItem& req = *req_opt;
+        failed_id = req.id;
         auto session = sess_pool_.get(req.payload.value("model", "<none>"));
+        if (!session) { throw std::runtime_error("unknown model"); }
 
         session->streamGenerate(
             req.payload, [this, req_payload = req.payload, req_id = req.id](const std::string& token, bool finished) {
@@ -131,7 +152,7 @@ void Service::workerLoop() {
 
               // Make payload
               item.payload = {
-                  {"model", req_payload["model"]},
+                  {"model", req_payload.value("model", "<none>")},
                   {"created", now},
                   {"choices", nlohmann::json::array({{{"index", 0},
                                                       {"delta", {{"content", token}}},
@@ -144,7 +165,12 @@ void Service::workerLoop() {
         break;
       }
     } catch (...) {
-      // TODO
+      // The caller is waiting for an answer.
+      ResponseItem item;
+      item.id = failed_id;
+      item.finished = true;
+      item.payload = {{"error", true}};
+      resp_pool_.push(failed_id, std::move(item));
     }
   }
 }
@@ -163,6 +189,7 @@ int sendRequest(const std::string& json_str) {
     auto j = nlohmann::json::parse(json_str);
     RequestItem item;
     item.id = j.value("id", "");
+    if (item.id.empty()) return -1;
     item.payload = j;
     item.enqueue_time = std::chrono::steady_clock::now();
     Service::instance().requestPool().push(std::move(item));
@@ -192,7 +219,8 @@ Response getResponse(const std::string& id) {
     j["id"] = opt->id;
     j["object"] = "chat.completion.chunk";
     j["finished"] = opt->finished;
-    std::string s = j.dump();
+    // A token may end in the middle of a character.
+    std::string s = j.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
     return s;
   } catch (...) {
     // TODO
diff --git a/mllm/engine/service/Service.hpp b/mllm/engine/service/Service.hpp
index 2ae6e8a..7019ee0 100644
--- a/mllm/engine/service/Service.hpp
+++ b/mllm/engine/service/Service.hpp
@@ -36,6 +36,8 @@ struct ResponseItem {
 
 class RequestPool {
  public:
+  void start();
+
   void push(RequestItem item);
 
   std::optional<RequestItem> pop();
@@ -62,6 +64,8 @@ class SessionPool {
 
 class ResponsePool {
  public:
+  void start();
+
   void push(const std::string& req_id, ResponseItem item);
 
   std::optional<ResponseItem> pop(const std::string& req_id);
-- 
2.43.0


From 0510038bf90514eded187dc8b65881867b8b46ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:09 +0000
Subject: [PATCH 33/45] fix: symbolic expressions: operators associate and bind
 as usual, malformed input and missing values are errors, literals print
 exactly

---
 mllm/compile/symbolic_expr/AST.hpp    |  38 ++++++--
 mllm/compile/symbolic_expr/Parser.cpp | 125 +++++++++++++-------------
 mllm/compile/symbolic_expr/Parser.hpp |  15 ++--
 3 files changed, 103 insertions(+), 75 deletions(-)

diff --git a/mllm/compile/symbolic_expr/AST.hpp b/mllm/compile/symbolic_expr/AST.hpp
index 300c5ee..236f8b1 100644
--- a/mllm/compile/symbolic_expr/AST.hpp
+++ b/mllm/compile/symbolic_expr/AST.hpp
@@ -6,8 +6,10 @@
 #include <cmath>
 #include <cstdint>
 #include <cstdlib>
+#include <limits>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <unordered_map>
@@ -53,9 +55,14 @@ class SymbolExprAST {
 
   virtual void str(std::stringstream& ss) {}
 
-  int32_t evalAsInt(const std::unordered_map<std::string, float>& var_values) { return static_cast<int32_t>(eval(var_values)); }
+  int32_t evalAsInt(const std::unordered_map<std::string, float>& var_values) { return toInt(eval(var_values)); }
 
  protected:
+  static int32_t toInt(float v) {
+    if (!(v >= -2147483648.f && v < 2147483648.f)) { throw std::domain_error("not an integer: " + std::to_string(v)); }
+    return static_cast<int32_t>(v);
+  }
+
   void dumpIndent(int32_t indent) {
     for (auto i = 0; i < indent; ++i) fmt::print("  ");
   }
@@ -104,9 +111,11 @@ class BinaryExprAST final : public SymbolExprAST {
       case SymbolExprTokenValue::Minus: value_ = lhs_v - rhs_v; break;
       case SymbolExprTokenValue::Multiply: value_ = lhs_v * rhs_v; break;
       case SymbolExprTokenValue::Divide: value_ = lhs_v / rhs_v; break;
-      case SymbolExprTokenValue::Mod:
-        value_ = static_cast<float>(static_cast<int32_t>(lhs_v) % static_cast<int32_t>(rhs_v));
+      case SymbolExprTokenValue::Mod: {
+        if (toInt(rhs_v) == 0) { throw std::domain_error("modulo by zero"); }
+        value_ = static_cast<float>(static_cast<int64_t>(toInt(lhs_v)) % toInt(rhs_v));
         break;
+      }
       default: break;
     }
     return value_;
@@ -210,7 +219,11 @@ class VarAST final : public SymbolExprAST {
     fmt::print("var = {}\n", var_name_);
   }
 
-  float eval(const std::unordered_map<std::string, float>& var_values) override { return var_values.find(var_name_)->second; }
+  float eval(const std::unordered_map<std::string, float>& var_values) override {
+    auto it = var_values.find(var_name_);
+    if (it == var_values.end()) { throw std::invalid_argument("no value for variable: " + var_name_); }
+    return it->second;
+  }
 
   void str(std::stringstream& ss) override { ss << var_name_; }
 
@@ -232,7 +245,13 @@ class IntLiteralAST : public SymbolExprAST {
 
   float eval(const std::unordered_map<std::string, float>& var_values) override { return static_cast<float>(value_); }
 
-  void str(std::stringstream& ss) override { ss << value_; }
+  void str(std::stringstream& ss) override {
+    if (value_ == std::numeric_limits<int32_t>::min()) {
+      ss << "(-2147483647 - 1)";  // its digits alone are no integer
+      return;
+    }
+    ss << value_;
+  }
 
   /// LLVM style RTTI
   static bool classof(const SymbolExprAST* ast) { return IntLiteral == ast->getKind(); }
@@ -257,7 +276,14 @@ class FPLiteralAST : public SymbolExprAST {
 
   float eval(const std::unordered_map<std::string, float>& var_values) override { return value_; }
 
-  void str(std::stringstream& ss) override { ss << value_; }
+  // Without exponent, which can not be parsed, and with as many digits as it takes to get the same value back.
+  void str(std::stringstream& ss) override {
+    auto text = fmt::format("{:.1f}", value_);
+    for (int digits = 2; static_cast<float>(atof(text.c_str())) != value_ && digits < 160; ++digits) {
+      text = fmt::format("{:.{}f}", value_, digits);
+    }
+    ss << text;
+  }
 
   /// LLVM style RTTI
   static bool classof(const SymbolExprAST* ast) { return FPLiteral == ast->getKind(); }
diff --git a/mllm/compile/symbolic_expr/Parser.cpp b/mllm/compile/symbolic_expr/Parser.cpp
index a6f3eda..81c42bf 100644
--- a/mllm/compile/symbolic_expr/Parser.cpp
+++ b/mllm/compile/symbolic_expr/Parser.cpp
@@ -3,7 +3,9 @@
 
 #include <cctype>
 #include <cstdlib>
+#include <limits>
 #include <memory>
+#include <stdexcept>
 
 #include "mllm/compile/symbolic_expr/Parser.hpp"
 #include "mllm/compile/symbolic_expr/AST.hpp"
@@ -14,7 +16,7 @@ SymbolExprTokenDic::SymbolExprTokenDic() {
   // add operators
   ADD_TOKEN("+", Operators, Plus, 10);
   ADD_TOKEN("-", Operators, Minus, 10);
-  ADD_TOKEN("%", Operators, Mod, 10);
+  ADD_TOKEN("%", Operators, Mod, 20);
   ADD_TOKEN("*", Operators, Multiply, 20);
   ADD_TOKEN("/", Operators, Divide, 20);
 
@@ -85,12 +87,12 @@ SymbolExprToken SymbolExprLexer::getNextToken() {
       if (ss_.eof()) {
         state_ = kEof;
       } else {
-        if (std::isalpha(cur_char_) || (cur_char_ == '_')) {
+        if (std::isalpha(static_cast<unsigned char>(cur_char_)) || (cur_char_ == '_')) {
           // handle both keywords and var
           // keywords: ceil, floor, abs
           // var: "a", "b", "c"
           state_ = kIdentifier;
-        } else if (std::isdigit(cur_char_) || (cur_char_ == '.')) {
+        } else if (std::isdigit(static_cast<unsigned char>(cur_char_)) || (cur_char_ == '.')) {
           // handle all numbers
           // include integer and float.
           state_ = kNumber;
@@ -122,7 +124,9 @@ int32_t SymbolExprLexer::getPrecedence(const SymbolExprToken& t) {
 void SymbolExprLexer::handleInt() {
   // exponent is not supported.
   // int: 12, 1, 20, etc
-  int32_t v = atoi(char_buffer_.c_str());
+  int64_t wide = char_buffer_.size() > 18 ? std::numeric_limits<int64_t>::max() : atoll(char_buffer_.c_str());
+  if (wide > std::numeric_limits<int32_t>::max()) { throw std::invalid_argument("integer out of range: " + char_buffer_); }
+  auto v = static_cast<int32_t>(wide);
   cur_token_ = {SymbolExprTokenType::Int, SymbolExprTokenValue::I32, v};
   cur_token_.name_ = char_buffer_;
 }
@@ -130,6 +134,7 @@ void SymbolExprLexer::handleInt() {
 void SymbolExprLexer::handleFP() {
   // exponent is not supported.
   // float: 0.0, 0.12, 12.2, .12, etc
+  if (char_buffer_ == ".") { throw std::invalid_argument("malformed number: ."); }
   float v = static_cast<float>(atof(char_buffer_.c_str()));
   cur_token_ = {SymbolExprTokenType::FP, SymbolExprTokenValue::F32, v};
   cur_token_.name_ = char_buffer_;
@@ -156,15 +161,15 @@ void SymbolExprLexer::handleNumberState() {
   auto isOk = [&]() -> bool {
     if (has_one_dot && cur_char_ == '.') {
       // find multiple dot.
-      // FIXME: log an error
-      exit(-1);
+      throw std::invalid_argument("malformed number: " + char_buffer_ + ".");
     }
     if (!has_one_dot && cur_char_ == '.') {
       is_float = true;
       is_int = false;
+      has_one_dot = true;
       return true;
     }
-    if (std::isdigit(cur_char_)) { return true; }
+    if (!ss_.eof() && std::isdigit(static_cast<unsigned char>(cur_char_))) { return true; }
     return false;
   };
 
@@ -202,7 +207,7 @@ void SymbolExprLexer::handleIdentifierState() {
   // get nextchar
   getNextChar();
 
-  while (std::isalpha(cur_char_) || std::isdigit(cur_char_) || cur_char_ == '_') {
+  while (!ss_.eof() && (std::isalnum(static_cast<unsigned char>(cur_char_)) || cur_char_ == '_')) {
     addToCharBuffer(cur_char_);
     getNextChar();
   }
@@ -227,6 +232,7 @@ void SymbolExprLexer::handleOperationState() {
   // assumed that all operations has only one char.
   addToCharBuffer(cur_char_);
 
+  if (!token_dictionary_.haveToken(char_buffer_)) { throw std::invalid_argument("unexpected character: " + char_buffer_); }
   auto [token_type, token_value, prec] = token_dictionary_.lookup(char_buffer_);
 
   cur_token_ = {token_type, token_value};
@@ -241,69 +247,79 @@ void SymbolExprLexer::addToCharBuffer(char c) { char_buffer_.push_back(c); }
 void SymbolExprLexer::clearCharBuffer() { char_buffer_.clear(); }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parse() {
-  auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.type_ != SymbolExprTokenType::Eof) {
-    ret = parseExpr(ret);
-    token = getNextToken();
-  }
+  (void)getNextToken();
+  auto ret = parseExpr();
+  if (getToken().type_ != SymbolExprTokenType::Eof) { unexpected(); }
   return ret;
 }
 
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr(expr_ast_ptr_t& prev_expr) {
-  expr_ast_ptr_t ret = nullptr;
+void SymbolExprParser::unexpected() {
+  auto token = getToken();
+  throw std::invalid_argument(token.type_ == SymbolExprTokenType::Eof ? "unexpected end of expression"
+                                                                      : "unexpected token: " + token.name_);
+}
+
+// Each of the functions below starts at the first token of what it parses and leaves the first token behind it.
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseExpr() { return parseBinaryExpr(parsePrimaryExpr(), 0); }
+
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parsePrimaryExpr() {
   auto token = getToken();
   switch (token.type_) {
     case SymbolExprTokenType::Int:
-    case SymbolExprTokenType::FP: ret = parseNumberLiteralExpr(); break;
+    case SymbolExprTokenType::FP: return parseNumberLiteralExpr();
     case SymbolExprTokenType::Keywords:
       // FIXME: currently, all keywords is unary operator. fix it to support multi
       // inputs with args and rets.
-      ret = parseUnaryExpr();
-      break;
-    case SymbolExprTokenType::Delimiter: ret = parseGroupedExpr(); break;
+      return parseUnaryExpr();
+    case SymbolExprTokenType::Delimiter: return parseGroupedExpr();
     case SymbolExprTokenType::Operators:
-      // FIXME: currently, all operators is binary operator
-      ret = parseBinaryExpr(prev_expr);
+      if (token.token_v_ == SymbolExprTokenValue::Minus) { return parseNegativeExpr(); }
       break;
-    case SymbolExprTokenType::Identifier: ret = parseVarExpr(); break;
+    case SymbolExprTokenType::Identifier: return parseVarExpr();
     default: break;
   }
-  return ret;
+  unexpected();
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseGroupedExpr() {
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesOpen) { unexpected(); }
+  (void)getNextToken();
+  auto ret = parseExpr();
+  if (getToken().token_v_ != SymbolExprTokenValue::ParenthesesClose) { unexpected(); }
+  (void)getNextToken();
+  return ret;
+}
+
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNegativeExpr() {
   auto token = getNextToken();
-  expr_ast_ptr_t ret = nullptr;
-  while (token.token_v_ != SymbolExprTokenValue::ParenthesesClose) {
-    ret = parseExpr(ret);
-    token = getNextToken();
+  // A negative literal, as str() prints it.
+  if (token.type_ == SymbolExprTokenType::Int) {
+    (void)getNextToken();
+    return std::make_shared<IntLiteralAST>(-token.int_v_);
   }
-
-  // ')' has already consumed by while loop.
-
-  return ret;
+  if (token.type_ == SymbolExprTokenType::FP) {
+    (void)getNextToken();
+    return std::make_shared<FPLiteralAST>(-token.fp_v_);
+  }
+  return std::make_shared<BinaryExprAST>(SymbolExprTokenValue::Minus, std::make_shared<IntLiteralAST>(0), parsePrimaryExpr());
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseVarExpr() {
   auto token = getToken();
+  (void)getNextToken();
   return std::make_shared<VarAST>(token.str_v_);
 }
 
-SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseBinaryExpr(expr_ast_ptr_t& prev_expr) {
-  auto binary_op = getToken();
-
-  (void)getNextToken();
-  auto rhs_expr = parseExpr(prev_expr);
-
-  // look ahead, LL(1)
-  auto next_op = lookOneMoreToken();
-  if (next_op.type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(next_op) > lexer_->getPrecedence(binary_op)) {
+// Precedence climbing: takes in all operators that bind at least as tight as `min_precedence`.
+SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseBinaryExpr(expr_ast_ptr_t lhs_expr, int32_t min_precedence) {
+  while (getToken().type_ == SymbolExprTokenType::Operators && lexer_->getPrecedence(getToken()) >= min_precedence) {
+    auto binary_op = getToken();
     (void)getNextToken();
-    rhs_expr = parseBinaryExpr(rhs_expr);
+    auto rhs_expr = parsePrimaryExpr();
+    rhs_expr = parseBinaryExpr(rhs_expr, lexer_->getPrecedence(binary_op) + 1);
+    lhs_expr = std::make_shared<BinaryExprAST>(binary_op.token_v_, lhs_expr, rhs_expr);
   }
-
-  return std::make_shared<BinaryExprAST>(binary_op.token_v_, prev_expr, rhs_expr);
+  return lhs_expr;
 }
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
@@ -318,29 +334,14 @@ SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseUnaryExpr() {
 
 SymbolExprParser::expr_ast_ptr_t SymbolExprParser::parseNumberLiteralExpr() {
   auto token = getToken();
-  if (token.type_ == SymbolExprTokenType::Int) {
-    return std::make_shared<IntLiteralAST>(token.int_v_);
-  } else if (token.type_ == SymbolExprTokenType::FP) {
-    return std::make_shared<FPLiteralAST>(token.fp_v_);
-  }
-  return nullptr;
-}
-
-SymbolExprToken SymbolExprParser::lookOneMoreToken() {
-  auto ret = lexer_->getNextToken();
-  token_buffer_.push(ret);
-  return ret;
+  (void)getNextToken();
+  if (token.type_ == SymbolExprTokenType::Int) { return std::make_shared<IntLiteralAST>(token.int_v_); }
+  return std::make_shared<FPLiteralAST>(token.fp_v_);
 }
 
 SymbolExprToken SymbolExprParser::getToken() { return cur_token_; }
 
 SymbolExprToken SymbolExprParser::getNextToken() {
-  if (!token_buffer_.empty()) {
-    auto ret = token_buffer_.front();
-    token_buffer_.pop();
-    cur_token_ = ret;
-    return ret;
-  }
   auto ret = lexer_->getNextToken();
   cur_token_ = ret;
   return ret;
diff --git a/mllm/compile/symbolic_expr/Parser.hpp b/mllm/compile/symbolic_expr/Parser.hpp
index 7477762..4d93cb6 100644
--- a/mllm/compile/symbolic_expr/Parser.hpp
+++ b/mllm/compile/symbolic_expr/Parser.hpp
@@ -4,7 +4,6 @@
 #pragma once
 
 #include <cstdint>
-#include <queue>
 #include <sstream>
 #include <string>
 #include <tuple>
@@ -119,27 +118,29 @@ class SymbolExprParser {
   expr_ast_ptr_t parse();
 
  private:
-  expr_ast_ptr_t parseExpr(expr_ast_ptr_t& prev_expr);
+  [[noreturn]] void unexpected();
+
+  expr_ast_ptr_t parseExpr();
+
+  expr_ast_ptr_t parsePrimaryExpr();
 
   expr_ast_ptr_t parseGroupedExpr();
 
+  expr_ast_ptr_t parseNegativeExpr();
+
   expr_ast_ptr_t parseVarExpr();
 
-  expr_ast_ptr_t parseBinaryExpr(expr_ast_ptr_t& prev_expr);
+  expr_ast_ptr_t parseBinaryExpr(expr_ast_ptr_t lhs_expr, int32_t min_precedence);
 
   expr_ast_ptr_t parseUnaryExpr();
 
   expr_ast_ptr_t parseNumberLiteralExpr();
 
-  SymbolExprToken lookOneMoreToken();
-
   SymbolExprToken getToken();
 
   SymbolExprToken getNextToken();
 
  private:
-  // token buffer for look ahead, just look 1 more token is enough. Like LL(1)
-  std::queue<SymbolExprToken> token_buffer_;
   SymbolExprToken cur_token_;
   SymbolExprLexer* lexer_ = nullptr;
 };
-- 
2.43.0


From 51241a909bdb8eadf87b0ed3e804a180c96f6bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:29 +0000
Subject: [PATCH 34/45] fix: model files: sizes and names are checked on both
 sides, streaming keeps within its slots, numpy, bfloat16 and scalar tensors,
 failed writes are reported

---
 mllm/core/DataTypes.cpp                  |   4 +-
 mllm/core/ParameterFile.cpp              | 205 +++++++++++++----------
 mllm/core/TensorViewImpl.cpp             |   4 +-
 pymllm/mobile/convertor/model_file_v2.py |  27 ++-
 4 files changed, 143 insertions(+), 97 deletions(-)

diff --git a/mllm/core/DataTypes.cpp b/mllm/core/DataTypes.cpp
index 99f5e85..362dae7 100644
--- a/mllm/core/DataTypes.cpp
+++ b/mllm/core/DataTypes.cpp
@@ -37,7 +37,7 @@ size_t lanesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
+    case kBFloat16: return 1;
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
@@ -90,7 +90,7 @@ size_t bytesOfType(DataTypes dtype) {
     // CASE(kGGUF_IQ1_S) There is no such type right now.
     // CASE(kGGUF_IQ1_M) There is no such type right now.
     // CASE(kGGUF_IQ2_S) There is no such type right now.
-    // CASE(kBFloat16)  There is no such type right now.
+    case kBFloat16: return 2;  // There is no such type right now, but model files may hold it.
     CASE(kUInt8)
     CASE(kBool)
     CASE(kUInt16)
diff --git a/mllm/core/ParameterFile.cpp b/mllm/core/ParameterFile.cpp
index 072adfa..c638436 100644
--- a/mllm/core/ParameterFile.cpp
+++ b/mllm/core/ParameterFile.cpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 
 #include <limits>
+#include <cstring>
 #include <vector>
 #include <fstream>
 
@@ -62,6 +63,91 @@ ParameterFile::const_iterator ParameterFile::cbegin() const { return data_.begin
 
 ParameterFile::const_iterator ParameterFile::cend() const { return data_.end(); }
 
+namespace {
+
+void fileBroken(const std::string& file_path) {
+  MLLM_ERROR_EXIT(ExitCode::kIOError, "{} is truncated or not a model file", file_path);
+}
+
+void checkInFile(uint64_t offset, uint64_t size, uint64_t file_size, const std::string& file_path) {
+  if (offset > file_size || size > file_size - offset) { fileBroken(file_path); }
+}
+
+uint64_t sizeOf(std::ifstream& file) {
+  file.clear();
+  file.seekg(0, std::ios::end);
+  return file.tellg();
+}
+
+void closeWritten(std::ofstream& out_file, const std::string& file_path) {
+  out_file.close();
+  if (!out_file) { MLLM_ERROR_EXIT(ExitCode::kIOError, "Failed to write file: {}", file_path); }
+}
+
+std::vector<ModelFileV1ParamsDescriptorHelper> parseV1ParamsDescriptors(const char* begin, uint64_t size, uint64_t file_size,
+                                                                        const std::string& file_path) {
+  std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
+  uint64_t pos = 0;
+  auto take = [&](void* to, uint64_t n) {
+    checkInFile(pos, n, size, file_path);
+    std::memcpy(to, begin + pos, n);
+    pos += n;
+  };
+
+  // Loop to find each tensor
+  while (pos < size) {
+    ModelFileV1ParamsDescriptorHelper helper;
+
+    // Name length, name, weight length, offset, datatypes
+    uint32_t name_len = 0;
+    take(&name_len, sizeof(name_len));
+    checkInFile(pos, name_len, size, file_path);
+    helper.name_.resize(name_len);
+    take(helper.name_.data(), name_len);
+    helper.descriptor_.name_len = name_len;
+    take(&helper.descriptor_.data_len, sizeof(helper.descriptor_.data_len));
+    take(&helper.descriptor_.offset, sizeof(helper.descriptor_.offset));
+    take(&helper.descriptor_.dtype, sizeof(helper.descriptor_.dtype));
+    checkInFile(helper.descriptor_.offset, helper.descriptor_.data_len, file_size, file_path);
+
+    // emplace
+    tensor_meta_info.emplace_back(helper);
+  }
+  return tensor_meta_info;
+}
+
+void checkV2Header(const ModelFileV2Descriptor& header, uint64_t file_size, const std::string& file_path) {
+  if (header.params_desc_offset < sizeof(ModelFileV2Descriptor)) { fileBroken(file_path); }
+  checkInFile(header.params_desc_offset, header.num_params * sizeof(ModelFileV2ParamsDescriptor), file_size, file_path);
+}
+
+TensorViewImpl::shape_t checkV2ParamsDescriptor(const ModelFileV2ParamsDescriptor& desc, uint64_t file_size,
+                                                const std::string& file_path) {
+  MLLM_RT_ASSERT(desc.shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
+  checkInFile(desc.parameter_offset, desc.parameter_size, file_size, file_path);
+  const auto dtype = static_cast<DataTypes>(desc.parameter_type);
+
+  // The parameter has to hold all elements.
+  TensorViewImpl::shape_t shape;
+  const uint64_t max_numel = desc.parameter_size / bytesOfType(dtype) * lanesOfType(dtype);
+  uint64_t numel = 1;
+  bool is_empty = false;
+  for (size_t j = 0; j < desc.shape_len; j++) {
+    const int32_t dim = desc.shape[j];
+    if (dim < 0) { fileBroken(file_path); }
+    is_empty |= dim == 0;
+    shape.push_back(dim);
+  }
+  for (size_t j = 0; j < desc.shape_len && !is_empty; j++) {
+    numel *= shape[j];
+    if (numel > max_numel) { fileBroken(file_path); }
+  }
+  if (!is_empty && numel > max_numel) { fileBroken(file_path); }
+  return shape;
+}
+
+}  // namespace
+
 //===----------------------------------------------------------------------===//
 // CPU ModelFileV1 ParameterFile
 //===----------------------------------------------------------------------===//
@@ -78,42 +164,16 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     // Process Header
     uint64_t parameter_desc_offset = -1;
     {
+      if (mmap_file->size() < sizeof(ModelFileV1Descriptor)) { fileBroken(file_path); }
       auto* header = static_cast<ModelFileV1Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header->magic_number);
       parameter_desc_offset = header->parameter_desc_offset;
     }
-    char* current_pos = static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor);
-    char* end_pos = current_pos + parameter_desc_offset;
-
-    // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      helper.ptr_ = static_cast<char*>(mmap_file->data()) + helper.descriptor_.offset;
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
+    checkInFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, mmap_file->size(), file_path);
+    auto tensor_meta_info =
+        parseV1ParamsDescriptors(static_cast<char*>(mmap_file->data()) + sizeof(ModelFileV1Descriptor), parameter_desc_offset,
+                                 mmap_file->size(), file_path);
+    for (auto& desc : tensor_meta_info) { desc.ptr_ = static_cast<char*>(mmap_file->data()) + desc.descriptor_.offset; }
 
     for (auto& desc : tensor_meta_info) {
       MLLM_RT_ASSERT(std::numeric_limits<int32_t>::max() >= desc.descriptor_.name_len);
@@ -141,42 +201,13 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V1_MAGIC_NUMBER, header.magic_number);
 
     uint64_t parameter_desc_offset = header.parameter_desc_offset;
-    char* buffer = new char[parameter_desc_offset];
-    file.read(buffer, parameter_desc_offset);
-
-    char* current_pos = buffer;
-    char* end_pos = current_pos + parameter_desc_offset;
-
-    // Loop to find each tensor
-    std::vector<ModelFileV1ParamsDescriptorHelper> tensor_meta_info;
-    while (current_pos < end_pos) {
-      ModelFileV1ParamsDescriptorHelper helper;
-
-      // Gen Name length
-      helper.descriptor_.name_len = *reinterpret_cast<uint32_t*>(current_pos);
-      current_pos += sizeof(uint32_t);
-
-      // Get Name
-      helper.name_ = std::string(current_pos, helper.descriptor_.name_len);
-      current_pos += helper.descriptor_.name_len;
-
-      // Weight length
-      helper.descriptor_.data_len = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
+    const uint64_t file_size = sizeOf(file);
+    checkInFile(sizeof(ModelFileV1Descriptor), parameter_desc_offset, file_size, file_path);
+    std::vector<char> buffer(parameter_desc_offset);
+    file.seekg(sizeof(ModelFileV1Descriptor));
+    file.read(buffer.data(), parameter_desc_offset);
 
-      // Offset
-      helper.descriptor_.offset = *reinterpret_cast<uint64_t*>(current_pos);
-      current_pos += sizeof(uint64_t);
-
-      // Datatypes
-      helper.descriptor_.dtype = *reinterpret_cast<int32_t*>(current_pos);
-      current_pos += sizeof(int32_t);
-
-      // emplace
-      tensor_meta_info.emplace_back(helper);
-    }
-
-    delete[] buffer;
+    auto tensor_meta_info = parseV1ParamsDescriptors(buffer.data(), parameter_desc_offset, file_size, file_path);
 
     // Read tensor data
     for (auto& desc : tensor_meta_info) {
@@ -213,12 +244,11 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
 
   // Calculate total size of the descriptor section
   for (const auto& pair : *parameter_file) {
-    const auto& tensor = pair.second;
-    param_desc_total_size += sizeof(uint32_t);                        // name length
-    param_desc_total_size += tensor.impl()->storage()->name_.size();  // name string
-    param_desc_total_size += sizeof(uint64_t);                        // data length
-    param_desc_total_size += sizeof(uint64_t);                        // offset
-    param_desc_total_size += sizeof(int32_t);                         // data type
+    param_desc_total_size += sizeof(uint32_t);    // name length
+    param_desc_total_size += pair.first.size();   // name string
+    param_desc_total_size += sizeof(uint64_t);    // data length
+    param_desc_total_size += sizeof(uint64_t);    // offset
+    param_desc_total_size += sizeof(int32_t);     // data type
   }
 
   // Write header: parameter_desc_offset is now the SIZE of the descriptor section
@@ -260,7 +290,7 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV1>::write(const
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-  out_file.close();
+  closeWritten(out_file, file_path);
 }
 
 //===----------------------------------------------------------------------===//
@@ -277,6 +307,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     p_file->setMappedFile(mmap_file);
 
     // Process Header
+    if (mmap_file->size() < sizeof(ModelFileV2Descriptor)) { fileBroken(file_path); }
     {
       auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
       MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header->magic_number);
@@ -284,6 +315,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     }
 
     auto* header = static_cast<ModelFileV2Descriptor*>(mmap_file->data());
+    checkV2Header(*header, mmap_file->size(), file_path);
     char* params_desc_begin = static_cast<char*>(mmap_file->data()) + header->params_desc_offset;
 
     if (header->params_desc_offset != sizeof(ModelFileV2Descriptor)) {
@@ -302,11 +334,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
       std::string name(param_desc->_param_name_view());
 
       // Build shape
-      MLLM_RT_ASSERT(param_desc->shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
-      TensorViewImpl::shape_t shape;
-      for (size_t j = 0; j < param_desc->shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
-        shape.push_back(param_desc->shape[j]);
-      }
+      auto shape = checkV2ParamsDescriptor(*param_desc, mmap_file->size(), file_path);
 
       // Create tensor storage and view
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc->parameter_type), kCPU);
@@ -329,7 +357,7 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
     std::ifstream file(file_path, std::ios::binary);
     if (!file.is_open()) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "Failed to open parameter file"); }
 
-    ModelFileV2Descriptor header;
+    ModelFileV2Descriptor header{};
     file.read(reinterpret_cast<char*>(&header), sizeof(ModelFileV2Descriptor));
 
     MLLM_RT_ASSERT_EQ(MLLM_MODEL_FILE_V2_MAGIC_NUMBER, header.magic_number);
@@ -342,6 +370,8 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
           file_path);
     }
 
+    const uint64_t file_size = sizeOf(file);
+    checkV2Header(header, file_size, file_path);
     std::vector<ModelFileV2ParamsDescriptor> param_descriptors(header.num_params);
     file.seekg(header.params_desc_offset);
     file.read(reinterpret_cast<char*>(param_descriptors.data()), header.num_params * sizeof(ModelFileV2ParamsDescriptor));
@@ -351,21 +381,17 @@ ParameterFile::ptr_t ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV
 
       std::string name(param_desc._param_name_view());
 
-      MLLM_RT_ASSERT(param_desc.shape_len <= MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH);
-      TensorViewImpl::shape_t shape;
-      for (size_t j = 0; j < param_desc.shape_len && j < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; j++) {
-        shape.push_back(param_desc.shape[j]);
-      }
+      auto shape = checkV2ParamsDescriptor(param_desc, file_size, file_path);
 
       auto s = TensorStorage::create(shape, static_cast<DataTypes>(param_desc.parameter_type), kCPU);
       auto t = TensorViewImpl::create(shape, s);
 
       s->name_ = name;
       auto tensor = Tensor(t).alloc();
+      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       file.seekg(param_desc.parameter_offset);
-      file.read(static_cast<char*>(s->ptr_), param_desc.parameter_size);
+      file.read(static_cast<char*>(s->ptr_), tensor.bytes());
       s->mem_type_ = kParamsNormal;
-      MLLM_RT_ASSERT(param_desc.parameter_size >= tensor.bytes());
       p_file->push(name, tensor);
     }
 
@@ -420,6 +446,9 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     for (size_t i = 0; i < shape.size() && i < MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH; i++) { param_desc.shape[i] = shape[i]; }
 
     // Set name
+    if (name.size() >= MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH || name.find('\0') != std::string::npos) {
+      MLLM_ERROR_EXIT(ExitCode::kIOError, "Parameter name can not be stored: {}", name);
+    }
     strncpy(param_desc.name, name.c_str(), MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1);
     param_desc.name[MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH - 1] = '\0';
 
@@ -436,6 +465,6 @@ void ParameterFileIOImpl<DeviceTypes::kCPU, ModelFileVersion::kV2>::write(const
     out_file.write(reinterpret_cast<const char*>(tensor.ptr<uint8_t>()), data_size);
   }
 
-  out_file.close();
+  closeWritten(out_file, file_path);
 }
 }  // namespace mllm
diff --git a/mllm/core/TensorViewImpl.cpp b/mllm/core/TensorViewImpl.cpp
index 048c0a1..6db3f46 100644
--- a/mllm/core/TensorViewImpl.cpp
+++ b/mllm/core/TensorViewImpl.cpp
@@ -92,7 +92,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(const TensorViewImpl::shape_t& shap
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
@@ -111,7 +111,7 @@ TensorViewImpl::ptr_t TensorViewImpl::create(int32_t storage_offset, const Tenso
   int _cnt = 0;
   for (unsigned int it : shape) { ret->shape_[_cnt++] = (int32_t)it; }
   int _acc = 1;
-  ret->stride_[ret->shape_len_ - 1] = 1;
+  if (ret->shape_len_ > 0) { ret->stride_[ret->shape_len_ - 1] = 1; }
   for (int i = ret->shape_len_ - 1; i > 0; i--) {
     ret->stride_[i - 1] = _acc * ret->shape_[i];
     _acc *= ret->shape_[i];
diff --git a/pymllm/mobile/convertor/model_file_v2.py b/pymllm/mobile/convertor/model_file_v2.py
index 976c044..bf2e473 100644
--- a/pymllm/mobile/convertor/model_file_v2.py
+++ b/pymllm/mobile/convertor/model_file_v2.py
@@ -32,6 +32,10 @@ def _torch_tensor_bytes(tensor: "torch.Tensor") -> bytes:
     return t.view(torch.uint8).numpy().tobytes()
 
 
+def _numpy_array_bytes(array: "np.ndarray") -> bytes:
+    return array.astype(array.dtype.newbyteorder("="), copy=False).tobytes()
+
+
 class ModelFileV2Descriptor:
     SIZE = 532
 
@@ -55,6 +59,14 @@ class ModelFileV2ParamsDescriptor:
         shape: List[int],
         name: str,
     ):
+        name_bytes = name.encode("utf-8")
+        if (
+            len(name_bytes) > MLLM_MODEL_FILE_V2_PARAMS_NAME_LENGTH
+            or b"\0" in name_bytes
+        ):
+            raise ValueError(f"Parameter name can not be stored: {name!r}")
+        if len(shape) > MLLM_MODEL_FILE_V2_TENSOR_SHAPE_LENGTH:
+            raise ValueError(f"Parameter {name!r} has too many dimensions")
         self.param_id = param_id
         self.param_type = param_type
         self.param_size = param_size
@@ -111,6 +123,7 @@ class ModelFileV2:
                 "max_params_descriptor_buffer_num", 1024
             )
         self.v2_param_descriptor: List[ModelFileV2ParamsDescriptor] = []
+        self.v2_param_names = set()
         self.v2_file_header = ModelFileV2Descriptor(
             model_name="",
             num_params=0
@@ -145,8 +158,8 @@ class ModelFileV2:
         elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor_obj, np.ndarray):
             # Numpy array
             shape = list(tensor_obj.shape)
-            tensor_data = tensor_obj.tobytes()
-            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype]
+            tensor_data = _numpy_array_bytes(tensor_obj)
+            true_dtype = MLLM_TYPE_MAPPING[tensor_obj.dtype.type]
         elif isinstance(tensor_obj, Tensor):
             # Mllm Tensor
             shape = list(tensor_obj.shape)
@@ -159,7 +172,8 @@ class ModelFileV2:
 
         tensor_size = len(tensor_data)
 
-        assert len(self.v2_param_descriptor) <= self.max_params_descriptor_buffer_num
+        assert len(self.v2_param_descriptor) < self.max_params_descriptor_buffer_num
+        assert tensor_name not in self.v2_param_names
         desc = ModelFileV2ParamsDescriptor(
             param_id=len(self.v2_param_descriptor),
             param_type=true_dtype,
@@ -170,6 +184,7 @@ class ModelFileV2:
         )
 
         self.v2_param_descriptor.append(desc)
+        self.v2_param_names.add(tensor_name)
 
         # Write at tail
         self.file_handler.write(tensor_data)
@@ -216,8 +231,8 @@ class ModelFileV2:
             elif MLLM_FIND_NUMPY_AVAILABLE and isinstance(tensor, np.ndarray):
                 # Numpy array
                 shape = list(tensor.shape)
-                tensor_data = tensor.tobytes()
-                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype]
+                tensor_data = _numpy_array_bytes(tensor)
+                true_dtype = MLLM_TYPE_MAPPING[tensor.dtype.type]
             elif isinstance(tensor, Tensor):
                 # Mllm Tensor
                 shape = list(tensor.shape)
@@ -262,6 +277,8 @@ class ModelFileV2:
 
     def finalize(self):
         # Update header
+        self.v2_file_header.num_params = len(self.v2_param_descriptor)
         self.file_handler.seek(0)
         self.file_handler.write(_pack_descriptor(self.v2_file_header))
+        self.file_handler.seek(0, os.SEEK_END)
         self.file_handler.flush()
-- 
2.43.0


From 8b3627f3aa64be23f5cbfbf55cc44f264758d735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:32 +0000
Subject: [PATCH 35/45] fix: tokenizer: special tokens are split off leftmost
 and longest first

---
 .../preprocessor/tokenizers/AutoTokenizer.cpp | 197 ++++--------------
 1 file changed, 42 insertions(+), 155 deletions(-)

diff --git a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
index ae9f4f9..03ef6b3 100644
--- a/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
+++ b/mllm/preprocessor/tokenizers/AutoTokenizer.cpp
@@ -4,9 +4,7 @@
 #include <vector>
 #include <string>
 #include <memory>
-#include <algorithm>
-#include <unordered_map>
-#include <unordered_set>
+#include <cstddef>
 
 #include "mllm/preprocessor/tokenizers/AutoTokenizer.hpp"
 
@@ -31,80 +29,28 @@ void Trie::update(const std::vector<std::wstring>& words) {
 }
 
 std::vector<std::wstring> Trie::split(const std::wstring& text) {
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
+  std::vector<std::wstring> result;
+  // At each position the longest special token that starts there, if any, is a part of its own.
+  size_t begin = 0;
+  for (size_t current = 0; current < text.size();) {
+    TrieNode* node = root_.get();
+    size_t end = current;
+    for (size_t lookahead = current; lookahead < text.size();) {
+      auto child = node->children.find(text[lookahead]);
+      if (child == node->children.end()) { break; }
+      node = child->second.get();
+      lookahead++;
+      if (node->is_end) { end = lookahead; }
     }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
+    if (end == current) {
+      current++;
+      continue;
     }
+    if (begin < current) { result.push_back(text.substr(begin, current - begin)); }
+    result.push_back(text.substr(current, end - current));
+    begin = current = end;
   }
-
-  sort(offsets.begin(), offsets.end());
-  std::vector<std::wstring> result;
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) { result.push_back(text.substr(offsets[i - 1], offsets[i] - offsets[i - 1])); }
-  }
-  if (offsets[offsets.size() - 1] != text.size()) { result.push_back(text.substr(offsets[offsets.size() - 1])); }
+  if (begin < text.size()) { result.push_back(text.substr(begin)); }
   return result;
 }
 
@@ -129,94 +75,35 @@ void TrieUTF8::update(const std::vector<std::string>& words) {
   for (const auto& word : words) { add(word); }
 }
 
-// I use FSA to implement the split function.
 std::vector<std::string> TrieUTF8::split(const std::string& text_utf8) {
   auto text = utf8String2Cpts(text_utf8);
 
-  std::map<size_t, TrieNode*> states;
-  std::vector<size_t> offsets = {0};
-  size_t skip = 0;
-
-  for (size_t current = 0; current < text.size(); ++current) {
-    if (skip > current) continue;
-
-    std::unordered_set<size_t> to_remove;
-    bool reset = false;
-
-    wchar_t current_char = text[current];
-
-    for (auto& [_start, node] : states) {
-      auto start = _start;
-      if (node->is_end) {
-        // trying to find the longest match
-        size_t max_end = current;
-
-        for (auto& [look_start, look_node] : states) {
-          if (look_start > start) break;
-
-          size_t lookahead = (look_start < start) ? current + 1 : current;
-          size_t end = lookahead;
-          TrieNode* ptr = look_node;
-
-          while (lookahead < text.size()) {
-            wchar_t ch = text[lookahead];
-
-            if (!ptr->children.count(ch)) break;
-
-            ptr = ptr->children[ch].get();
-            lookahead++;
-
-            if (ptr->is_end) {
-              start = look_start;
-              end = lookahead;
-              skip = lookahead;
-            }
-          }
-
-          if (ptr->is_end && end > max_end) { max_end = end; }
-        }
-        offsets.push_back(start);
-        offsets.push_back(max_end);
-        reset = true;
-        break;
-      }
-      if (node->children.count(current_char)) {
-        states[start] = node->children[current_char].get();
-      } else {
-        to_remove.insert(start);
-      }
-    }
-    if (reset) {
-      states.clear();
-    } else {
-      for (auto start : to_remove) { states.erase(start); }
-    }
-    if (current >= skip && root_->children.count(current_char)) { states[current] = root_->children[current_char].get(); }
-  }
-  for (auto& [start, node] : states) {
-    if (node->is_end) {
-      offsets.push_back(start);
-      offsets.push_back(text.size());
-      break;
-    }
-  }
+  auto part = [&](size_t from, size_t to) {
+    return cpts2Utf8String(cpts_string_t(text.begin() + static_cast<std::ptrdiff_t>(from), text.begin() + static_cast<std::ptrdiff_t>(to)));
+  };
 
-  sort(offsets.begin(), offsets.end());
   std::vector<std::string> result;
-
-  for (size_t i = 1; i < offsets.size(); ++i) {
-    if (offsets[i - 1] != offsets[i]) {
-      auto cpts_str = cpts_string_t{};
-      for (int __idx = offsets[i - 1]; __idx < offsets[i]; __idx++) { cpts_str.push_back(text[__idx]); }
-      result.push_back(cpts2Utf8String(cpts_str));
+  // At each position the longest special token that starts there, if any, is a part of its own.
+  size_t begin = 0;
+  for (size_t current = 0; current < text.size();) {
+    TrieNode* node = root_.get();
+    size_t end = current;
+    for (size_t lookahead = current; lookahead < text.size();) {
+      auto child = node->children.find(text[lookahead]);
+      if (child == node->children.end()) { break; }
+      node = child->second.get();
+      lookahead++;
+      if (node->is_end) { end = lookahead; }
     }
+    if (end == current) {
+      current++;
+      continue;
+    }
+    if (begin < current) { result.push_back(part(begin, current)); }
+    result.push_back(part(current, end));
+    begin = current = end;
   }
-  if (offsets[offsets.size() - 1] != text.size()) {
-    auto cpts_str = cpts_string_t{};
-    for (int __idx = offsets[offsets.size() - 1]; __idx < text.size(); __idx++) { cpts_str.push_back(text[__idx]); }
-    result.push_back(cpts2Utf8String(cpts_str));
-  }
-
+  if (begin < text.size()) { result.push_back(part(begin, text.size())); }
   return result;
 }
 
-- 
2.43.0


From 1eca50dba79eb2083ccf3c64dbe9b922308dac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:03 +0000
Subject: [PATCH 36/45] fix: tokenizers: words are cut as the stated pattern
 says (blanks, line ends, capitals, digits and spaces of every script), long
 ones without recursion

---
 .../minicpm_o2_6/tokenization_minicpmo.hpp    | 31 +++++++++++--------
 mllm/models/qwen2vl/tokenization_qwen2vl.hpp  | 31 +++++++++++--------
 mllm/models/qwen3/tokenization_qwen3.hpp      | 31 +++++++++++--------
 .../qwen3_moe/tokenization_qwen3_moe.hpp      | 31 +++++++++++--------
 mllm/models/qwen_npu/tokenization_qwen.hpp    | 31 +++++++++++--------
 mllm/preprocessor/tokenizers/Unicode.hpp      | 10 ++++--
 .../tokenizers/llama_cpp_unicode/unicode.cpp  |  7 +++--
 7 files changed, 103 insertions(+), 69 deletions(-)

diff --git a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
index 569e0e1..d475667 100644
--- a/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
+++ b/mllm/models/minicpm_o2_6/tokenization_minicpmo.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 #include <regex>
@@ -27,8 +28,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t want, wchar_t c) { return want == std::towlower(c); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -80,10 +83,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -104,9 +107,10 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Up to the last newline among the whitespace
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -115,11 +119,12 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Leave the last one to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -128,9 +133,9 @@ inline bool miniCPMOTokenizerMatchPattern(const std::wstring& str, size_t& pos,
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
index 1ff6d03..d237b3b 100644
--- a/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
+++ b/mllm/models/qwen2vl/tokenization_qwen2vl.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -23,8 +24,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t want, wchar_t c) { return want == std::towlower(c); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -76,10 +79,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -100,9 +103,10 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Up to the last newline among the whitespace
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -111,11 +115,12 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Leave the last one to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -124,9 +129,9 @@ inline bool qwen2VLTokenizerMatchPattern(const std::wstring& str, size_t& pos, s
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3/tokenization_qwen3.hpp b/mllm/models/qwen3/tokenization_qwen3.hpp
index 73cb08a..b0a69af 100644
--- a/mllm/models/qwen3/tokenization_qwen3.hpp
+++ b/mllm/models/qwen3/tokenization_qwen3.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t want, wchar_t c) { return want == std::towlower(c); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -75,10 +78,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,9 +102,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Up to the last newline among the whitespace
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -110,11 +114,12 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Leave the last one to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +128,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
index 181d576..90a7238 100644
--- a/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
+++ b/mllm/models/qwen3_moe/tokenization_qwen3_moe.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 
@@ -22,8 +23,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t want, wchar_t c) { return want == std::towlower(c); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -75,10 +78,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
     if (str[pos] == L' ') { ++pos; }
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture from start (after optional space) to current pos
@@ -99,9 +102,10 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Up to the last newline among the whitespace
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -110,11 +114,12 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Leave the last one to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -123,9 +128,9 @@ inline bool qwen3TokenizerMatchPattern(const std::wstring& str, size_t& pos, std
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/models/qwen_npu/tokenization_qwen.hpp b/mllm/models/qwen_npu/tokenization_qwen.hpp
index a5cdc26..ec0c5c2 100644
--- a/mllm/models/qwen_npu/tokenization_qwen.hpp
+++ b/mllm/models/qwen_npu/tokenization_qwen.hpp
@@ -2,6 +2,7 @@
 // Licensed under the MIT License.
 #pragma once
 
+#include <algorithm>
 #include <vector>
 #include <unordered_map>
 #include <fstream>
@@ -22,8 +23,10 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 1. Match contractions: "'s|'t|'re|'ve|'m|'ll|'d"
   static const std::wstring contractions[] = {L"'s", L"'t", L"'re", L"'ve", L"'m", L"'ll", L"'d"};
   for (const auto& contraction : contractions) {
-    if (pos + contraction.size() <= str.size() && str.compare(pos, contraction.size(), contraction) == 0) {
-      matched = contraction;
+    if (pos + contraction.size() <= str.size()
+        && std::equal(contraction.begin(), contraction.end(), str.begin() + pos,
+                      [](wchar_t want, wchar_t c) { return want == std::towlower(c); })) {
+      matched = str.substr(pos, contraction.size());
       pos += contraction.size();
       return true;
     }
@@ -71,11 +74,11 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
     matched.clear();
 
     // Require at least one non-letter/digit/whitespace
-    if (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
+    if (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos]) && !preprocessor::isDigit(str[pos])) {
       do {
         matched += str[pos];
         ++pos;
-      } while (pos < str.size() && !std::iswspace(str[pos]) && !preprocessor::isLetter(str[pos])
+      } while (pos < str.size() && !preprocessor::isSpace(str[pos]) && !preprocessor::isLetter(str[pos])
                && !preprocessor::isDigit(str[pos]));
 
       // Capture trailing newlines
@@ -93,9 +96,10 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   // 5. Match \s*[\r\n]+ (newlines with leading whitespace)
   {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    if (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) {
-      while (pos < str.size() && (str[pos] == L'\r' || str[pos] == L'\n')) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Up to the last newline among the whitespace
+    while (pos > start && str[pos - 1] != L'\r' && str[pos - 1] != L'\n') --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -104,11 +108,12 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 6. Match \s+(?!\S) (whitespace not followed by non-space)
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
-    // Check if at end or followed by whitespace
-    if (pos >= str.size() || std::iswspace(str[pos])) {
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
+    // Leave the last one to what follows, unless at end
+    if (pos < str.size()) --pos;
+    if (pos > start) {
       matched = str.substr(start, pos - start);
       return true;
     } else {
@@ -117,9 +122,9 @@ inline bool qwenTokenizerMatchPattern(const std::wstring& str, size_t& pos, std:
   }
 
   // 7. Match remaining whitespace
-  if (std::iswspace(str[pos])) {
+  if (preprocessor::isSpace(str[pos])) {
     size_t start = pos;
-    while (pos < str.size() && std::iswspace(str[pos])) ++pos;
+    while (pos < str.size() && preprocessor::isSpace(str[pos])) ++pos;
     matched = str.substr(start, pos - start);
     return true;
   }
diff --git a/mllm/preprocessor/tokenizers/Unicode.hpp b/mllm/preprocessor/tokenizers/Unicode.hpp
index 3f570f5..5c56803 100644
--- a/mllm/preprocessor/tokenizers/Unicode.hpp
+++ b/mllm/preprocessor/tokenizers/Unicode.hpp
@@ -11,6 +11,7 @@
 #include <iostream>
 
 #include "mllm/utils/Common.hpp"
+#include "mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.h"
 
 namespace mllm::preprocessor {
 
@@ -30,9 +31,14 @@ inline void initLocal(const std::string& local_name = "en_US.UTF-8") {
   }
 }
 
-inline bool isLetter(wchar_t c) { return std::iswalpha(c); }
+// \p{L}
+inline bool isLetter(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_letter; }
 
-inline bool isDigit(wchar_t c) { return std::iswdigit(c); }
+// \p{N}
+inline bool isDigit(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_number; }
+
+// \s
+inline bool isSpace(wchar_t c) { return unicode_cpt_flags(static_cast<uint32_t>(c)).is_whitespace; }
 
 std::string wideString2Utf8String(const std::wstring& wstr);
 
diff --git a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
index da8a79e..a9f7688 100644
--- a/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
+++ b/mllm/preprocessor/tokenizers/llama_cpp_unicode/unicode.cpp
@@ -553,8 +553,11 @@ static std::vector<size_t> unicode_regex_split_custom(const std::string& text, c
   std::vector<size_t> bpe_offsets;
 
   if (regex_expr
-      == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
-         "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)") {
+          == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
+             "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)"
+      || regex_expr
+             == "'s|'t|'re|'ve|'m|'ll|'d| ?\\p{L}+| ?\\p{N}+| "
+                "?[^\\s\\p{L}\\p{N}]+|\\s+(?!\\S)|\\s+") {
     bpe_offsets = unicode_regex_split_custom_gpt2(text, offsets);
   } else if (regex_expr
                  == "(?i:'s|'t|'re|'ve|'m|'ll|'d)|[^\\r\\n\\p{L}\\p{N}]?\\p{L}+|\\p{N}{1,"
-- 
2.43.0


From 94509013745ab0042a2cfe87d27901b53d598c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:18 +0000
Subject: [PATCH 37/45] fix: StaticCache refuses rows that do not fit instead
 of writing past its buffers

---
 mllm/nn/lmcache/StaticCache.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mllm/nn/lmcache/StaticCache.cpp b/mllm/nn/lmcache/StaticCache.cpp
index d1938d9..876fc83 100644
--- a/mllm/nn/lmcache/StaticCache.cpp
+++ b/mllm/nn/lmcache/StaticCache.cpp
@@ -92,6 +92,10 @@ std::array<Tensor, 2> StaticCache::updateKVCache(int32_t layer_idx, Tensor k, Te
 
     auto inputs_seq_len = k.shape()[2];
 
+    if (current_seq_cnt_[layer_idx] + inputs_seq_len > max_cache_length_) {
+      throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+    }
+
     auto repeat_times = q_heads_ / kv_heads_;
 
     switch (device_type_) {
@@ -157,6 +161,10 @@ std::array<Tensor, 2> StaticCache::getKVCache(int32_t layer_idx) {
 std::array<Tensor, 2> StaticCache::preGetKVWriteLocation(int32_t layer_idx, int32_t s) {
   if (!use_fa2_) { MLLM_ERROR_EXIT(ExitCode::kCoreError, "StaticCache::preGetKVWriteLocation is not supported in eager mode"); }
 
+  if (current_seq_cnt_[layer_idx] + s > max_cache_length_) {
+    throw std::runtime_error("StaticCache: sequence length exceeds cache capacity");
+  }
+
   auto new_shape = {1, s, kv_heads_ * kv_dims_};
   auto k = k_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
   auto v = v_cache_[layer_idx][{kAll, {current_seq_cnt_[layer_idx], current_seq_cnt_[layer_idx] + s}, kAll, kAll}];
-- 
2.43.0


From 92166ba93485b6063dd80bcc98bf5a1d65cbb7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:49 +0000
Subject: [PATCH 38/45] fix: contiguous copies rows whole only when their
 elements follow each other

---
 mllm/backends/cpu/ops/ContiguousOp.cpp | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/mllm/backends/cpu/ops/ContiguousOp.cpp b/mllm/backends/cpu/ops/ContiguousOp.cpp
index 33a1c8f..a5a3add 100644
--- a/mllm/backends/cpu/ops/ContiguousOp.cpp
+++ b/mllm/backends/cpu/ops/ContiguousOp.cpp
@@ -74,33 +74,18 @@ void CPUContiguousOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
     return;
   }
 
-  bool last_dim_contiguous = true;
-  for (int d = ndim - 2; d >= 0; --d) {
-    if (i.stride()[d] != i.stride()[d + 1] * i.stride()[d + 1]) {
-      last_dim_contiguous = false;
-      break;
-    }
-  }
-
-  if (last_dim_contiguous) {
+  if (i.stride()[ndim - 1] == 1) {
     const int32_t inner_size = i.shape()[ndim - 1];
     const int32_t inner_bytes = inner_size * ele_size;
     const int32_t outer_count = total_elements / inner_size;
 
-    std::vector<int32_t> outer_strides(ndim - 1);
-    int64_t cumulative_stride = 1;
-    for (int d = ndim - 2; d >= 0; --d) {
-      cumulative_stride *= i.shape()[d + 1];
-      outer_strides[d] = i.stride()[d] * cumulative_stride;
-    }
-
     for (int32_t idx = 0; idx < outer_count; ++idx) {
       int64_t offset = 0;
       int32_t temp = idx;
-      for (int d = 0; d < ndim - 1; ++d) {
+      for (int d = ndim - 2; d >= 0; --d) {
         const int32_t dim_index = temp % i.shape()[d];
         temp /= i.shape()[d];
-        offset += dim_index * outer_strides[d];
+        offset += static_cast<int64_t>(dim_index) * i.stride()[d];
       }
       std::memcpy(dst_ptr, src_ptr + offset * ele_size, inner_bytes);
       dst_ptr += inner_bytes;
-- 
2.43.0


From c4e10e96b03927de78a6e723bf0d4a5bbba6e607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:49 +0000
Subject: [PATCH 39/45] fix: clone copies the elements of a view and not the
 whole storage behind it

---
 mllm/backends/cpu/ops/CloneOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/backends/cpu/ops/CloneOp.cpp b/mllm/backends/cpu/ops/CloneOp.cpp
index 96109ef..66ec451 100644
--- a/mllm/backends/cpu/ops/CloneOp.cpp
+++ b/mllm/backends/cpu/ops/CloneOp.cpp
@@ -15,7 +15,7 @@ void CPUCloneOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   // Only Support Contiguous Tensor
   MLLM_RT_ASSERT(i.isContiguous());
 
-  std::memcpy(o.ptr<char>(), i.ptr<char>(), i.bytes());
+  std::memcpy(o.ptr<char>(), i.ptr<char>(), o.bytes());
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From f8c607cd151016d8699145768627c0d73e8dc72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:49 +0000
Subject: [PATCH 40/45] fix: scatter to shards along the first and the last
 dimension

---
 mllm/backends/cpu/ops/Scatter2ShardsOp.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
index cde9497..7bf2f29 100644
--- a/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
+++ b/mllm/backends/cpu/ops/Scatter2ShardsOp.cpp
@@ -26,8 +26,6 @@ void CPUScatter2ShardsOp::forward(const std::vector<Tensor>& inputs, std::vector
   for (int i = options_.dim + 1; i < src.rank(); ++i) { floating_shards_point_right *= src.shape()[i]; }
   int32_t floating_shards_point_stride = 1;
   for (int i = options_.dim; i < src.rank(); ++i) { floating_shards_point_stride *= src.shape()[i]; }
-  if (options_.dim == src.rank() - 1) { floating_shards_point_stride = 1; }
-  if (options_.dim == 0) { floating_shards_point_left = src.stride()[0]; }
 
   int32_t loop_times = src.shape()[options_.dim];
   for (int lo = 0; lo < loop_times; ++lo) {
-- 
2.43.0


From 8147de552e93fcd053d2954e060b1137b7523b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:49 +0000
Subject: [PATCH 41/45] fix: the fp16 causal mask counts rows by the number of
 keys

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 56fc0b7..2b7ae74 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -164,9 +164,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             const __m256 mask_ps = _mm256_set1_ps(-65500.f);
             const __m128i mask_val = _mm256_cvtps_ph(mask_ps, _MM_FROUND_TO_NEAREST_INT);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -182,9 +182,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
             const float16x8_t mask_val = vdupq_n_f16(-65500.f);
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
@@ -197,9 +197,9 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             }
 #else
             for (size_t s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const size_t copy_count = s + 1;
-              const size_t fill_count = S - copy_count;
+              const size_t row_offset = s * D;
+              const size_t copy_count = D - S + s + 1;
+              const size_t fill_count = D - copy_count;
 
               if (copy_count > 0) { memcpy(o_ptr + row_offset, i_ptr + row_offset, copy_count * sizeof(mllm_fp16_t)); }
 
-- 
2.43.0


From c7837d1b9dcac92e15f2207f34387673d66270fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:49 +0000
Subject: [PATCH 42/45] fix: the sliding window mask with more keys than rows

---
 mllm/backends/cpu/ops/CausalMaskOp.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/mllm/backends/cpu/ops/CausalMaskOp.cpp b/mllm/backends/cpu/ops/CausalMaskOp.cpp
index 2b7ae74..a67ff14 100644
--- a/mllm/backends/cpu/ops/CausalMaskOp.cpp
+++ b/mllm/backends/cpu/ops/CausalMaskOp.cpp
@@ -26,8 +26,7 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
   auto B = shape[0];
   auto H = shape[1];
   auto S = shape[2];
-  // For self-attention, the last two dimensions are sequence length (S) x sequence length (S).
-  // We assume D == S.
+  // The last two dimensions are sequence length (S) x keys (D): D - S keys came before this sequence.
   auto D = shape[3];
 
   switch (ins.dtype()) {
@@ -98,17 +97,18 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last_idx = D - S + s;
+              const int copy_start_idx = std::max(0, last_idx - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last_idx - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx, copy_count * sizeof(float));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last_idx + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__)
               const __m256 mask_val = _mm256_set1_ps(-1e10f);
@@ -211,18 +211,19 @@ void CPUCausalMaskOp::forward(const std::vector<Tensor>& inputs, std::vector<Ten
             // Sliding window causal mask
             const int window_size = options_.window_size;
             for (int s = 0; s < S; ++s) {
-              const size_t row_offset = s * S;
-              const int copy_start_idx = std::max(0, s - window_size + 1);
+              const size_t row_offset = s * D;
+              const int last_idx = D - S + s;
+              const int copy_start_idx = std::max(0, last_idx - window_size + 1);
 
               // 1. Mask prefix
               const size_t prefix_fill_count = copy_start_idx;
               // 2. Copy content
-              const size_t copy_count = s - copy_start_idx + 1;
+              const size_t copy_count = last_idx - copy_start_idx + 1;
               memcpy(o_ptr + row_offset + copy_start_idx, i_ptr + row_offset + copy_start_idx,
                      copy_count * sizeof(mllm_fp16_t));
               // 3. Mask suffix
-              const size_t suffix_fill_start_idx = s + 1;
-              const size_t suffix_fill_count = S - suffix_fill_start_idx;
+              const size_t suffix_fill_start_idx = last_idx + 1;
+              const size_t suffix_fill_count = D - suffix_fill_start_idx;
 
 #if (defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)) && defined(__AVX2__) && defined(__F16C__)
               const __m256 mask_ps = _mm256_set1_ps(-65500.f);
-- 
2.43.0


From ea4c518651a5f35546aa78abe14ab03fe60bc568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:57 +0000
Subject: [PATCH 43/45] fix: copying into or from a view copies its elements

---
 mllm/backends/cpu/ops/CopyOp.cpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/mllm/backends/cpu/ops/CopyOp.cpp b/mllm/backends/cpu/ops/CopyOp.cpp
index 33f1cad..66a7ff9 100644
--- a/mllm/backends/cpu/ops/CopyOp.cpp
+++ b/mllm/backends/cpu/ops/CopyOp.cpp
@@ -12,9 +12,28 @@ void CPUCopyOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>&
   auto& i0 = inputs[0];
   auto& i1 = inputs[1];
 
-  // FIXME: Maybe we should handle contiguous issues here.
+  MLLM_RT_ASSERT_EQ(i0.numel(), i1.numel());
 
-  std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.bytes());
+  const size_t lanes = lanesOfType(i0.dtype());
+  const size_t ele_size = bytesOfType(i0.dtype());
+
+  if (i0.isContiguous() && i1.isContiguous()) {
+    std::memcpy(i1.ptr<char>(), i0.ptr<char>(), i0.numel() / lanes * ele_size);
+    return;
+  }
+
+  MLLM_RT_ASSERT_EQ(lanes, 1);
+  const auto offset_of = [](const Tensor& t, size_t idx) {
+    int64_t offset = 0;
+    for (int d = t.rank() - 1; d >= 0; --d) {
+      offset += static_cast<int64_t>(idx % t.shape()[d]) * t.stride()[d];
+      idx /= t.shape()[d];
+    }
+    return offset;
+  };
+  for (size_t idx = 0; idx < i0.numel(); ++idx) {
+    std::memcpy(i1.ptr<char>() + offset_of(i1, idx) * ele_size, i0.ptr<char>() + offset_of(i0, idx) * ele_size, ele_size);
+  }
 }
 
 }  // namespace mllm::cpu
-- 
2.43.0


From c85091864811e3f7746cb4a2a31963c653f5fa6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:26 +0000
Subject: [PATCH 44/45] fix: transposing the first two dimensions of a tensor
 of rank three and more

---
 mllm/backends/cpu/ops/TransposeOp.cpp | 28 +++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/mllm/backends/cpu/ops/TransposeOp.cpp b/mllm/backends/cpu/ops/TransposeOp.cpp
index d9817f8..50ab6bb 100644
--- a/mllm/backends/cpu/ops/TransposeOp.cpp
+++ b/mllm/backends/cpu/ops/TransposeOp.cpp
@@ -91,19 +91,19 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
   }
 
   // CASE 3. Exchange last 2 dims.
-  // FIXME: (dim0 + dim1 == 1) is error logic.
-  else if (input_shape.size() != 2 && (dim0 + dim1 == 1)) {
-    int batch = 0;
-    for (int i = 0; i < input_shape.size() - 2; i++) { batch *= input_shape[i]; }
+  else if (const int rank = input_shape.size();
+           rank > 2 && ((dim0 == rank - 1 && dim1 == rank - 2) || (dim0 == rank - 2 && dim1 == rank - 1))) {
+    int batch = 1;
+    for (int i = 0; i < rank - 2; i++) { batch *= input_shape[i]; }
 
     switch (dtype) {
       case kFloat32: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        x86::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp32(input.ptr<mllm_fp32_t>(), output.ptr<mllm_fp32_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #endif
         break;
       }
@@ -111,18 +111,18 @@ void CPUTransposeOp::forward(const std::vector<Tensor>& inputs, std::vector<Tens
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
         NYI("Transpose op(BSHD -> BSDH) fp16 not supported in x86");
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[0],
-                                      input_shape[1]);
+        arm::transpose_last_dims_fp16(input.ptr<mllm_fp16_t>(), output.ptr<mllm_fp16_t>(), batch, input_shape[rank - 2],
+                                      input_shape[rank - 1]);
 #endif
         break;
       }
       case kInt64: {
 #if defined(MLLM_HOST_ARCH_X86_64) || defined(MLLM_HOST_ARCH_X86)
-        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        x86::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[rank - 2],
+                                       input_shape[rank - 1]);
 #elif defined(MLLM_HOST_ARCH_ARM64) || defined(MLLM_HOST_ARCH_ARM)
-        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[0],
-                                       input_shape[1]);
+        arm::transpose_last_dims_int64(input.ptr<mllm_int64_t>(), output.ptr<mllm_int64_t>(), batch, input_shape[rank - 2],
+                                       input_shape[rank - 1]);
 #endif
         break;
       }
-- 
2.43.0


From f1c4f70571a4d6c178543d7a6aa31539eeba7632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:26 +0000
Subject: [PATCH 45/45] fix: indexing a view of part of a tensor

---
 mllm/core/aops/IndexOp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mllm/core/aops/IndexOp.cpp b/mllm/core/aops/IndexOp.cpp
index 2c1b557..a147f4f 100644
--- a/mllm/core/aops/IndexOp.cpp
+++ b/mllm/core/aops/IndexOp.cpp
@@ -39,7 +39,7 @@ void IndexOp::forward(const std::vector<Tensor>& inputs, std::vector<Tensor>& ou
   MLLM_RT_ASSERT(output.isContiguous());
 
   auto output_shape = output.shape();
-  size_t element_size = input.bytes() / input.numel();
+  size_t element_size = bytesOfType(input.dtype());
 
   // Create index vectors for iteration
   std::vector<int> out_indices(output_shape.size(), 0);
-- 
2.43.0

