From 8a7b11454d3b02fdb1f1c666fb5816ecc66284af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 001/140] fix: collect all queued results before leaving the
 parallel stage

The progress thread stopped as soon as the workers were done, dropping
results still in the queue: targets were not yielded and trailing tasks
re-executed their inputs.
---
 mergekit/multigpu_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 64e2bfa..18865b9 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -151,7 +151,10 @@ class MultiGPUExecutor:
             results_snapshot = dict(self.results)
 
             def update_progress():
-                while not self.done_event.is_set():
+                # keep going until every completed result has been collected
+                while not (
+                    self.done_event.is_set() and self.task_completion_queue.empty()
+                ):
                     try:
                         task_idx, result = self.task_completion_queue.get(timeout=0.1)
                         task_handle = TaskHandle(self.universe, task_idx)
-- 
2.43.0


From ad01a299a8f5d93eb729e90c62084b8ab9c2120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:48 +0000
Subject: [PATCH 002/140] fix: run per-GPU tasks even when there are no
 parallel islands

A graph whose requested targets were all per-GPU tasks never executed them.
---
 mergekit/multigpu_executor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/multigpu_executor.py b/mergekit/multigpu_executor.py
index 18865b9..5f0af91 100644
--- a/mergekit/multigpu_executor.py
+++ b/mergekit/multigpu_executor.py
@@ -327,6 +327,9 @@ class MultiGPUExecutor:
             )
             device = torch.device(f"{self.accelerator_type}:{device_idx}")
             assignments[device] = assignments.get(device, []) + island_tasks
+        if self.per_gpu_tasks and not assignments:
+            # nothing to parallelize, but the duplicated tasks still have to run
+            assignments[torch.device(f"{self.accelerator_type}:0")] = []
         return assignments
 
     def _device_worker(
-- 
2.43.0


From c4c9dd6b0d733c00136b53e53bad8f46c2355352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:53 +0000
Subject: [PATCH 003/140] fix: drop stale index or single file when rewriting a
 checkpoint

Writing a single-file checkpoint over a sharded one (or the reverse) left
the old index / old file behind, and loaders picked up the old weights.
---
 mergekit/io/tensor_writer.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 06b6d46..81dae2e 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -162,6 +162,16 @@ class TensorWriter:
                     )
                     name_remap[old_name] = new_name
 
+            # An earlier checkpoint in the same directory must not shadow this one:
+            # loaders look at the index or the single file, whichever they prefer
+            if total_shards == 1:
+                stale_name = f"{prefix}.{extension}.index.json"
+            else:
+                stale_name = f"{prefix}.{extension}"
+            stale_path = os.path.join(self.out_path, stale_name)
+            if total_shards > 0 and os.path.exists(stale_path):
+                os.remove(stale_path)
+
             for old_name, new_name in name_remap.items():
                 old_path = os.path.join(self.out_path, old_name)
                 new_path = os.path.join(self.out_path, new_name)
-- 
2.43.0


From 52e17d8c9c9b35596961ccab8ff2d8b6f3136bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:53 +0000
Subject: [PATCH 004/140] fix: don't finalize a checkpoint when the writer
 context raised

Leaving a 'with TensorWriter(...)' block through an exception still wrote
the index, so an incomplete checkpoint looked finished.
---
 mergekit/io/tensor_writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 81dae2e..a025d0e 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -62,7 +62,11 @@ class TensorWriter:
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
-        self.finalize()
+        if exc_type is None:
+            self.finalize()
+        elif self.use_async:
+            # don't publish an incomplete checkpoint
+            self._executor.shutdown(cancel_futures=True)
 
     def save_tensor(self, name: str, tensor: torch.Tensor, clone: bool = False):
         if not tensor.is_contiguous():
-- 
2.43.0


From d2fd914394cbd94610580dde62a276235f2c61cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 005/140] fix: lazily load strided, scalar, empty and boolean
 tensors correctly

Only numel() elements were read for a pickled view, so tensors whose
strides span more storage came back with garbage; 0-d tensors, empty
tensors and bool tensors raised.
---
 mergekit/io/lazy_unpickle.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index be26d86..a26440a 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -4,11 +4,9 @@
 import codecs
 import collections
 import contextlib
-import operator
 import os
 import pickle
 import zipfile
-from functools import reduce
 from typing import Any, Optional, Tuple, Union
 
 import accelerate
@@ -71,13 +69,22 @@ class DeferredLoad(BaseModel, arbitrary_types_allowed=True):
         reader: "TorchArchiveReader",
         map_location: Any = None,
     ) -> torch.Tensor:
-        total_params = reduce(operator.mul, self.shape)
+        # number of storage elements spanned by the (possibly strided) tensor
+        if any(dim == 0 for dim in self.shape):
+            total_params = 0
+        else:
+            total_params = 1 + sum(
+                (dim - 1) * step for dim, step in zip(self.shape, self.stride)
+            )
         total_bytes = total_params * dtype_bytes(self.dtype)
 
-        f = reader.open_file(file_name=self.name, offset=self.file_offset)
-        storage = torch.UntypedStorage.from_buffer(
-            f.read(total_bytes), "little", dtype=self.dtype
-        )
+        if total_bytes > 0:
+            f = reader.open_file(file_name=self.name, offset=self.file_offset)
+            storage = torch.UntypedStorage.from_buffer(
+                f.read(total_bytes), "little", dtype=self.dtype
+            )
+        else:
+            storage = torch.UntypedStorage(0)
         storage = torch.serialization._get_restore_location(map_location)(
             storage, self.location
         )
@@ -180,11 +187,7 @@ def torch_lazy_load():
 
 def dtype_bytes(dtype: torch.dtype) -> int:
     """Return the number of bytes used to store a single instance of `dtype`."""
-    if dtype.is_floating_point:
-        ti = torch.finfo(dtype)
-    else:
-        ti = torch.iinfo(dtype)
-    return max(1, ti.bits // 8)
+    return dtype.itemsize
 
 
 def get_dtype(storage_type: Any):
-- 
2.43.0


From dcee10186cffdeebdbf5072a65cd45e10d430730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 006/140] fix: serialize the process-wide patches used for lazy
 unpickling

Two threads opening pickled shards at once could restore each other's
patches, leaving pickle and torch permanently monkeypatched.
---
 mergekit/io/lazy_unpickle.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index a26440a..95545fa 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -6,6 +6,7 @@ import collections
 import contextlib
 import os
 import pickle
+import threading
 import zipfile
 from typing import Any, Optional, Tuple, Union
 
@@ -158,12 +159,23 @@ class TorchArchiveReader:
         return self.file
 
 
+# the patches below are process-wide, so only one thread may hold them at a time
+_LAZY_LOAD_LOCK = threading.RLock()
+
+
 @contextlib.contextmanager
 def torch_lazy_load():
     """
     Context manager under which `torch.load` will return a `DeferredLoad` instead
     of `torch.Tensor.`
     """
+    with _LAZY_LOAD_LOCK:
+        with _torch_lazy_load_patched():
+            yield
+
+
+@contextlib.contextmanager
+def _torch_lazy_load_patched():
     old_unpickler = pickle.Unpickler
     old_load = pickle.load
     old_rebuild_tensor = torch._utils._rebuild_tensor
-- 
2.43.0


From d7fb8c5b97158ae6d5706da8e2fc480a82d8ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 007/140] fix: read tensors of state_dict-wrapped pytorch files

The index unwraps a top-level state_dict but the loaders did not, so every
lookup failed.
---
 mergekit/io/loader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/io/loader.py b/mergekit/io/loader.py
index 3f8bff4..ba5ceb9 100644
--- a/mergekit/io/loader.py
+++ b/mergekit/io/loader.py
@@ -53,6 +53,8 @@ class LazyPickleLoader(TensorLoader):
         self.device = device
         with torch_lazy_load():
             self.index = torch.load(path, pickle_module=LazyUnpickleModule)
+        if "state_dict" in self.index:
+            self.index = self.index["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         if key not in self.index:
@@ -71,6 +73,8 @@ class DumbPytorchLoader(TensorLoader):
 
     def __init__(self, path: str, device: Optional[str] = None):
         self.tensors = torch.load(path, map_location=device, weights_only=True)
+        if "state_dict" in self.tensors:
+            self.tensors = self.tensors["state_dict"]
 
     def get_tensor(self, key: str) -> torch.Tensor:
         return self.tensors[key]
-- 
2.43.0


From f1864b15ad6a288f1e9d49d7ec705f242f693442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 008/140] fix: plan optional weights that have aliases

Aliases are stored as a tuple, so building the candidate list raised TypeError.
---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index dcf01fc..82a5b32 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -169,7 +169,7 @@ class MergePlanner:
                 index = LoaderCache().get(model).index
                 if any(
                     name in index.tensor_paths
-                    for name in [w_in.name] + (w_in.aliases or [])
+                    for name in (w_in.name, *(w_in.aliases or ()))
                 ):
                     any_weight = True
                     break
-- 
2.43.0


From d401f1642ebb7785e47e77e147b45078167ec61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:04 +0000
Subject: [PATCH 009/140] fix: merge final weights from every source of the
 last slice

The weight list was sized by the first slice, so when the last slice had more
sources than the first some of its models were silently dropped.
---
 mergekit/plan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 82a5b32..48a743b 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -323,7 +323,7 @@ class MergePlanner:
         for weight_info in module_arch.post_weights():
             self.plan_tensor(
                 weight_info,
-                [weight_info] * len(definition.slices[0].sources),
+                [weight_info] * len(definition.slices[-1].sources),
                 [s.model for s in definition.slices[-1].sources],
                 config_reader.for_tensor(tensor_name=weight_info.name).for_out_slice(
                     definition.slices[-1]
-- 
2.43.0


From 055bdc7d4de75cd6fd01a75e80f396a1fd79ed19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 010/140] fix: pass --write-threads on to the tensor writer
 task

The task's field is called write_threads; the misspelled keyword was ignored.
---
 mergekit/plan.py                      | 2 +-
 mergekit/scripts/extract_lora.py      | 2 +-
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index 48a743b..edc3173 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -339,7 +339,7 @@ class MergePlanner:
             max_shard_size=self.options.out_shard_size,
             safe_serialization=self.options.safe_serialization,
             use_async=self.options.async_write,
-            max_write_threads=self.options.write_threads,
+            write_threads=self.options.write_threads,
         )
         save_tasks = []
         for weight, tensor_task in self._tensors:
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b32233..a40460d 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -366,7 +366,7 @@ def plan_extraction(
         max_shard_size=-1,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     name_to_wi = all_weights_map(model_ref, options)
diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 70d3578..3b84d2b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -93,7 +93,7 @@ def plan_flat_merge(
         max_shard_size=options.out_shard_size,
         safe_serialization=options.safe_serialization,
         use_async=options.async_write,
-        max_write_threads=options.write_threads,
+        write_threads=options.write_threads,
     )
 
     save_tasks = []
-- 
2.43.0


From feb831fced2574e2ebb743e08e798ca667020208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 011/140] fix: list referenced models in the order they are
 configured

The order came from a set of string-keyed references, so without a base model
the donor of the output config, tokenizer and tagalong files depended on the
process's hash seed.
---
 mergekit/config.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/config.py b/mergekit/config.py
index 3114015..f163658 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -99,25 +99,25 @@ class MergeConfiguration(BaseModel):
     parameters: Optional[Dict[str, ParameterSetting]] = None
 
     def referenced_models(self) -> List[ModelReference]:
-        models = set()
+        models: Dict[ModelReference, None] = {}
         if self.base_model:
-            models.add(self.base_model)
+            models[self.base_model] = None
         if self.models:
             for model_in in self.models:
-                models.add(model_in.model)
+                models[model_in.model] = None
         if self.slices:
             for s in self.slices:
                 for src in s.sources:
-                    models.add(src.model)
+                    models[src.model] = None
         if self.modules:
             for m in self.modules.values():
                 if m.models:
                     for model_in in m.models:
-                        models.add(model_in.model)
+                        models[model_in.model] = None
                 if m.slices:
                     for s in m.slices:
                         for src in s.sources:
-                            models.add(src.model)
+                            models[src.model] = None
         return list(models)
 
     @model_validator(mode="after")
-- 
2.43.0


From 2b5db531a83b11966f998a38b4b3c3170acf5f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 012/140] fix: pass tensors to decorated merge methods in
 configured order

They were ordered by a set, i.e. by the process's hash seed.
---
 mergekit/merge_methods/easy_define.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index a0bdcb8..32f6f18 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -140,14 +140,12 @@ def __merge_method(
     tt_fields["uses_accelerator"] = _uses_accelerator
 
     def _execute(self, tensors: Dict[ModelReference, torch.Tensor], **_kwargs):
-        model_refs = set(tensors.keys())
+        model_refs = list(tensors.keys())
         base_model = getattr(self, "base_model", None)
         if base_model and base_model in model_refs:
             model_refs.remove(base_model)
             if not use_base_tensor_arg:
-                model_refs = [base_model] + list(model_refs)
-            else:
-                model_refs = list(model_refs)
+                model_refs = [base_model] + model_refs
         base_tensor = tensors.get(base_model, None)
         tensors = [tensors[key] for key in model_refs]
         inner_kwargs = {}
-- 
2.43.0


From 2a88554d8a099825ea81de4541e8fc9e0f7a1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:23 +0000
Subject: [PATCH 013/140] fix: accept a single conditional value as a parameter
 setting

The configuration schema allows it, but evaluating it raised RuntimeError.
---
 mergekit/config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index f163658..dd04990 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -28,6 +28,8 @@ def evaluate_setting(
 ) -> Optional[float]:
     if isinstance(setting, (float, int, bool, str)):
         return setting
+    elif isinstance(setting, ConditionalParameter):
+        return evaluate_setting(tensor_name, [setting], t)
     elif isinstance(setting, list):
         if all(isinstance(e, (int, float)) for e in setting):
             scaled = t * (len(setting) - 1)
-- 
2.43.0


From 117634f824120acc5b7faedfeb5646024dfebb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:37 +0000
Subject: [PATCH 014/140] fix: put the base tensor first for methods without a
 base_tensor argument

The documentation promises this, but the task only knew its base model when the
function asked for base_model or base_tensor.
---
 mergekit/merge_methods/easy_define.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index 32f6f18..006e960 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -110,10 +110,9 @@ def __merge_method(
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-    if ("base_model" in used_kwargs) or use_base_tensor_arg:
-        bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
-        field_kwargs = {"default": None} if not require_base_tensor else {}
-        tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
+    bm_ty = ModelReference if require_base_tensor else Optional[ModelReference]
+    field_kwargs = {"default": None} if not require_base_tensor else {}
+    tt_fields["base_model"] = (bm_ty, Field(**field_kwargs))
     if "output_weight" in used_kwargs:
         tt_fields["output_weight"] = (WeightInfo, Field(...))
     if parameters:
-- 
2.43.0


From 882a0372d6f268e9b0241778287773e12b127739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 015/140] fix: separate the whisper decoder prefix from the
 weight names

Every decoder weight was looked up as model.decoderXXX and never found.
---
 mergekit/_data/architectures/whisper.json | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/whisper.json b/mergekit/_data/architectures/whisper.json
index 82ac444..fdb8cd7 100644
--- a/mergekit/_data/architectures/whisper.json
+++ b/mergekit/_data/architectures/whisper.json
@@ -10,7 +10,7 @@
     ],
     "modules": {
         "decoder": {
-            "weight_prefix": "model.decoder",
+            "weight_prefix": "model.decoder.",
             "architecture": {
                 "model_type": "",
                 "architectures": [],
-- 
2.43.0


From 48d1572fa819a28095cb661dbea9e1a2eec05e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 016/140] fix: include OLMo 2's query and key norms

They were silently left out of the merged model.
---
 mergekit/_data/architectures/olmo2.json | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 1360496..75e8223 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -24,6 +24,12 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
-- 
2.43.0


From 7fbf49d07dad73c6f3cfe26a2a48e84a74270a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 017/140] fix: include BERT's masked-LM head transform, make
 its pooler optional

The head's transform was silently left out of the merged model, and BertForMaskedLM
checkpoints have no pooler.
---
 .../_data/architectures/bert-masked-lm.json   | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index d6430e4..427dde2 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -34,10 +34,30 @@
     ],
     "post_weights": [
         {
-            "name": "bert.pooler.dense.weight"
+            "name": "bert.pooler.dense.weight",
+            "optional": true
         },
         {
-            "name": "bert.pooler.dense.bias"
+            "name": "bert.pooler.dense.bias",
+            "optional": true
+        },
+        {
+            "name": "cls.predictions.transform.dense.weight"
+        },
+        {
+            "name": "cls.predictions.transform.dense.bias"
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.bias",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.beta"
+            ]
+        },
+        {
+            "name": "cls.predictions.transform.LayerNorm.weight",
+            "aliases": [
+                "cls.predictions.transform.LayerNorm.gamma"
+            ]
         },
         {
             "name": "cls.predictions.bias"
-- 
2.43.0


From c5b7ad3124f32fe897b40e53ddbd4abd2a5834c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 018/140] fix: GPT-NeoX attention buffers are optional

Current checkpoints do not contain them, so no such model could be merged.
---
 mergekit/_data/architectures/gpt-neox.json | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/gpt-neox.json b/mergekit/_data/architectures/gpt-neox.json
index e8bf29a..ea61721 100644
--- a/mergekit/_data/architectures/gpt-neox.json
+++ b/mergekit/_data/architectures/gpt-neox.json
@@ -61,13 +61,16 @@
                 "name": "gpt_neox.layers.${layer_index}.post_attention_layernorm.bias"
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias"
+                "name": "gpt_neox.layers.${layer_index}.attention.masked_bias",
+                "optional": true
             },
             {
-                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq"
+                "name": "gpt_neox.layers.${layer_index}.attention.rotary_emb.inv_freq",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From b8d3a6ec60d5c9006242fb9edf6a22ef69aaba28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 019/140] fix: Cohere query and key norms are optional

Models without use_qk_norm do not have them.
---
 mergekit/_data/architectures/cohere.json | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index 7b36cab..d69dfd2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -35,13 +35,15 @@
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.q_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
             {
-                "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
+                "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
+                "optional": true
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
-- 
2.43.0


From ad45595abb77c0f1dcf627b5f2252ff198ef0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 020/140] fix: look for bare RoBERTa and DistilBERT weights
 without the head prefix

RobertaModel and DistilBertModel checkpoints do not have it.
---
 mergekit/_data/architectures/distilbert.json | 100 +++++++++++++----
 mergekit/_data/architectures/roberta.json    | 112 +++++++++++++++----
 2 files changed, 168 insertions(+), 44 deletions(-)

diff --git a/mergekit/_data/architectures/distilbert.json b/mergekit/_data/architectures/distilbert.json
index bd99716..e5564b6 100644
--- a/mergekit/_data/architectures/distilbert.json
+++ b/mergekit/_data/architectures/distilbert.json
@@ -5,21 +5,31 @@
     ],
     "pre_weights": [
         {
-            "name": "distilbert.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "distilbert.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.word_embeddings.weight",
-            "is_embed": true
+            "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
+            "aliases": [
+                "distilbert.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.bias",
+            "name": "embeddings.LayerNorm.bias",
             "aliases": [
+                "distilbert.embeddings.LayerNorm.bias",
+                "embeddings.LayerNorm.beta",
                 "distilbert.embeddings.LayerNorm.beta"
             ]
         },
         {
-            "name": "distilbert.embeddings.LayerNorm.weight",
+            "name": "embeddings.LayerNorm.weight",
             "aliases": [
+                "distilbert.embeddings.LayerNorm.weight",
+                "embeddings.LayerNorm.gamma",
                 "distilbert.embeddings.LayerNorm.gamma"
             ]
         }
@@ -29,52 +39,100 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.k_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.k_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.q_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.q_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.v_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.v_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                "name": "transformer.layer.${layer_index}.attention.out_lin.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.attention.out_lin.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.sa_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.sa_layer_norm.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin1.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin1.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.weight"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                "name": "transformer.layer.${layer_index}.ffn.lin2.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.ffn.lin2.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.bias",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.bias"
+                ]
             },
             {
-                "name": "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                "name": "transformer.layer.${layer_index}.output_layer_norm.weight",
+                "aliases": [
+                    "distilbert.transformer.layer.${layer_index}.output_layer_norm.weight"
+                ]
             }
         ]
     }
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index cab186c..26475c5 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -5,24 +5,42 @@
     ],
     "pre_weights": [
         {
-            "name": "roberta.embeddings.position_embeddings.weight"
+            "name": "embeddings.position_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.position_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "embeddings.word_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.word_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.token_type_embeddings.weight"
+            "name": "embeddings.token_type_embeddings.weight",
+            "aliases": [
+                "roberta.embeddings.token_type_embeddings.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.weight"
+            "name": "embeddings.LayerNorm.weight",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.weight"
+            ]
         },
         {
-            "name": "roberta.embeddings.LayerNorm.bias"
+            "name": "embeddings.LayerNorm.bias",
+            "aliases": [
+                "roberta.embeddings.LayerNorm.bias"
+            ]
         },
         {
-            "name": "roberta.embeddings.position_ids",
+            "name": "embeddings.position_ids",
             "optional": true,
-            "force_dtype": "int64"
+            "force_dtype": "int64",
+            "aliases": [
+                "roberta.embeddings.position_ids"
+            ]
         }
     ],
     "post_weights": [
@@ -37,52 +55,100 @@
     "layer_templates": {
         "weights": [
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.attention.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.output.LayerNorm.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.query.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.query.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.query.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.key.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.key.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.key.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                "name": "encoder.layer.${layer_index}.attention.self.value.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                "name": "encoder.layer.${layer_index}.attention.self.value.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.attention.self.value.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                "name": "encoder.layer.${layer_index}.intermediate.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.intermediate.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                "name": "encoder.layer.${layer_index}.output.dense.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                "name": "encoder.layer.${layer_index}.output.dense.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.dense.bias"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.weight",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.weight"
+                ]
             },
             {
-                "name": "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                "name": "encoder.layer.${layer_index}.output.LayerNorm.bias",
+                "aliases": [
+                    "roberta.encoder.layer.${layer_index}.output.LayerNorm.bias"
+                ]
             }
         ]
     }
-- 
2.43.0


From 7d6e4d280f85d73157e46fb2327db0c0d8c3049d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:34 +0000
Subject: [PATCH 021/140] fix: support T5's ungated feed-forward layers

The original T5 has a single wi projection instead of wi_0 and wi_1.
---
 mergekit/_data/architectures/t5.json | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/t5.json b/mergekit/_data/architectures/t5.json
index 9ed8a7b..cfea735 100644
--- a/mergekit/_data/architectures/t5.json
+++ b/mergekit/_data/architectures/t5.json
@@ -59,10 +59,16 @@
                             "name": "decoder.block.${layer_index}.layer.1.layer_norm.weight"
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight"
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "decoder.block.${layer_index}.layer.2.DenseReluDense.wo.weight"
@@ -118,10 +124,16 @@
                             "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi.weight",
+                            "optional": true
                         },
                         {
-                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight"
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_0.weight",
+                            "optional": true
+                        },
+                        {
+                            "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wi_1.weight",
+                            "optional": true
                         },
                         {
                             "name": "encoder.block.${layer_index}.layer.1.DenseReluDense.wo.weight"
-- 
2.43.0


From 09fca0fe7019f1125d5aa471776e2bf457e725cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 022/140] fix: carry over optional projection biases

Models configured with attention, MLP, mixer or convolution biases silently lost
them in the merge.
---
 .../_data/architectures/afmoe_partial.json    | 16 +++++++++++
 mergekit/_data/architectures/apertus.json     | 16 +++++++++++
 mergekit/_data/architectures/arcee.json       | 24 ++++++++++++++++
 mergekit/_data/architectures/cohere.json      | 16 +++++++++++
 mergekit/_data/architectures/cohere2.json     | 16 +++++++++++
 mergekit/_data/architectures/gemma.json       | 16 +++++++++++
 mergekit/_data/architectures/gemma2.json      | 16 +++++++++++
 mergekit/_data/architectures/gemma3.json      | 16 +++++++++++
 .../architectures/granite4moehybrid.json      | 16 +++++++++++
 mergekit/_data/architectures/lfm2.json        | 13 ++++++++-
 .../llama-sequence-classification.json        | 28 +++++++++++++++++++
 mergekit/_data/architectures/llama.json       | 28 +++++++++++++++++++
 mergekit/_data/architectures/mamba.json       |  8 ++++++
 mergekit/_data/architectures/olmo2.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3.json       | 16 +++++++++++
 mergekit/_data/architectures/qwen3_moe.json   | 16 +++++++++++
 16 files changed, 276 insertions(+), 1 deletion(-)

diff --git a/mergekit/_data/architectures/afmoe_partial.json b/mergekit/_data/architectures/afmoe_partial.json
index e8a418b..6066180 100644
--- a/mergekit/_data/architectures/afmoe_partial.json
+++ b/mergekit/_data/architectures/afmoe_partial.json
@@ -72,18 +72,34 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/apertus.json b/mergekit/_data/architectures/apertus.json
index 4b6d90a..7e74bfb 100644
--- a/mergekit/_data/architectures/apertus.json
+++ b/mergekit/_data/architectures/apertus.json
@@ -55,17 +55,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/arcee.json b/mergekit/_data/architectures/arcee.json
index 2a1088a..5b17e15 100644
--- a/mergekit/_data/architectures/arcee.json
+++ b/mergekit/_data/architectures/arcee.json
@@ -31,23 +31,47 @@
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.up_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere.json b/mergekit/_data/architectures/cohere.json
index d69dfd2..9cdbab2 100644
--- a/mergekit/_data/architectures/cohere.json
+++ b/mergekit/_data/architectures/cohere.json
@@ -41,6 +41,10 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight",
                 "optional": true
@@ -48,11 +52,23 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/cohere2.json b/mergekit/_data/architectures/cohere2.json
index 755e7db..ce48232 100644
--- a/mergekit/_data/architectures/cohere2.json
+++ b/mergekit/_data/architectures/cohere2.json
@@ -25,15 +25,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight"
             },
diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index 43dbe27..fc4a0d2 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -22,21 +22,37 @@
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_qk_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "h_${layer_index}",
                 "output_space": "attn_v_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "post_attn_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "h_a_${layer_index}"
diff --git a/mergekit/_data/architectures/gemma2.json b/mergekit/_data/architectures/gemma2.json
index 5250524..76f4049 100644
--- a/mergekit/_data/architectures/gemma2.json
+++ b/mergekit/_data/architectures/gemma2.json
@@ -18,15 +18,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/gemma3.json b/mergekit/_data/architectures/gemma3.json
index 787fd04..e8ed110 100644
--- a/mergekit/_data/architectures/gemma3.json
+++ b/mergekit/_data/architectures/gemma3.json
@@ -18,21 +18,37 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight"
             },
diff --git a/mergekit/_data/architectures/granite4moehybrid.json b/mergekit/_data/architectures/granite4moehybrid.json
index 1ef6c64..83c61b5 100644
--- a/mergekit/_data/architectures/granite4moehybrid.json
+++ b/mergekit/_data/architectures/granite4moehybrid.json
@@ -50,18 +50,34 @@
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mamba.A_log",
                 "optional": true
diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index d383d93..6175d28 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -12,7 +12,6 @@
             "name": "model.embedding_norm.weight",
             "is_embed": true
         }
-
     ],
     "post_weights": [
         {
@@ -43,14 +42,26 @@
                 "name": "model.layers.${layer_index}.conv.conv.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.conv.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.in_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.conv.out_proj.weight",
                 "optional": true
             },
+            {
+                "name": "model.layers.${layer_index}.conv.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
                 "optional": true
diff --git a/mergekit/_data/architectures/llama-sequence-classification.json b/mergekit/_data/architectures/llama-sequence-classification.json
index 7c73d12..9a295e2 100644
--- a/mergekit/_data/architectures/llama-sequence-classification.json
+++ b/mergekit/_data/architectures/llama-sequence-classification.json
@@ -24,6 +24,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -31,18 +35,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -52,15 +68,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/llama.json b/mergekit/_data/architectures/llama.json
index 00918a2..f2dfdf1 100644
--- a/mergekit/_data/architectures/llama.json
+++ b/mergekit/_data/architectures/llama.json
@@ -25,6 +25,10 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight",
                 "input_space": "running_residual",
@@ -32,18 +36,30 @@
                 "head_split": "output",
                 "is_kq": true
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "attn_v_${layer_index}",
                 "head_split": "output"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight",
                 "input_space": "attn_v_${layer_index}",
                 "output_space": "running_residual",
                 "head_split": "input"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.post_attention_layernorm.weight",
                 "input_space": "running_residual"
@@ -53,15 +69,27 @@
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.up_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.gate_proj.weight",
                 "input_space": "running_residual",
                 "output_space": "up_${layer_index}"
             },
+            {
+                "name": "model.layers.${layer_index}.mlp.gate_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.mlp.down_proj.weight",
                 "input_space": "up_${layer_index}",
                 "output_space": "running_residual"
+            },
+            {
+                "name": "model.layers.${layer_index}.mlp.down_proj.bias",
+                "optional": true
             }
         ]
     },
diff --git a/mergekit/_data/architectures/mamba.json b/mergekit/_data/architectures/mamba.json
index 1c47353..71e89a7 100644
--- a/mergekit/_data/architectures/mamba.json
+++ b/mergekit/_data/architectures/mamba.json
@@ -46,9 +46,17 @@
             {
                 "name": "backbone.layers.${layer_index}.mixer.in_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.in_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.out_proj.weight"
             },
+            {
+                "name": "backbone.layers.${layer_index}.mixer.out_proj.bias",
+                "optional": true
+            },
             {
                 "name": "backbone.layers.${layer_index}.mixer.x_proj.weight"
             },
diff --git a/mergekit/_data/architectures/olmo2.json b/mergekit/_data/architectures/olmo2.json
index 75e8223..014f241 100644
--- a/mergekit/_data/architectures/olmo2.json
+++ b/mergekit/_data/architectures/olmo2.json
@@ -15,15 +15,31 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
diff --git a/mergekit/_data/architectures/qwen3.json b/mergekit/_data/architectures/qwen3.json
index 917f287..5273bcb 100644
--- a/mergekit/_data/architectures/qwen3.json
+++ b/mergekit/_data/architectures/qwen3.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
diff --git a/mergekit/_data/architectures/qwen3_moe.json b/mergekit/_data/architectures/qwen3_moe.json
index 1c7d849..37d6db2 100644
--- a/mergekit/_data/architectures/qwen3_moe.json
+++ b/mergekit/_data/architectures/qwen3_moe.json
@@ -46,17 +46,33 @@
             {
                 "name": "model.layers.${layer_index}.self_attn.k_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_norm.weight"
             },
             {
                 "name": "model.layers.${layer_index}.self_attn.q_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.v_proj.weight"
             },
+            {
+                "name": "model.layers.${layer_index}.self_attn.v_proj.bias",
+                "optional": true
+            },
             {
                 "name": "model.layers.${layer_index}.self_attn.o_proj.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.o_proj.bias",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From e61ab921852ebaf40cd17a5b27aaa537161ca21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 023/140] fix: carry over Phi's optional query and key layer
 norms

---
 mergekit/_data/architectures/phi2.json | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index f509e51..6b5145b 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -68,6 +68,22 @@
             },
             {
                 "name": "model.layers.${layer_index}.mlp.fc2.weight"
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.q_layernorm.bias",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.weight",
+                "optional": true
+            },
+            {
+                "name": "model.layers.${layer_index}.self_attn.k_layernorm.bias",
+                "optional": true
             }
         ]
     }
-- 
2.43.0


From ac486b3c562280aae604776162b30dc65a80a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 024/140] fix: carry over an untied Gemma output head

---
 mergekit/_data/architectures/gemma.json | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mergekit/_data/architectures/gemma.json b/mergekit/_data/architectures/gemma.json
index fc4a0d2..0db6653 100644
--- a/mergekit/_data/architectures/gemma.json
+++ b/mergekit/_data/architectures/gemma.json
@@ -96,6 +96,14 @@
         {
             "name": "model.norm.weight",
             "input_space": "h_${num_layers}"
+        },
+        {
+            "name": "lm_head.weight",
+            "is_embed": true,
+            "optional": true,
+            "tied_names": [
+                "model.embed_tokens.weight"
+            ]
         }
     ]
 }
-- 
2.43.0


From ba04d33af24d322e17ae4abafc733209122306d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:00 +0000
Subject: [PATCH 025/140] fix: carry over an untied masked-LM decoder bias

---
 mergekit/_data/architectures/bert-masked-lm.json    | 4 ++++
 mergekit/_data/architectures/roberta-masked-lm.json | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index 427dde2..024b4c6 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -69,6 +69,10 @@
                 "bert.embeddings.word_embeddings.weight"
             ],
             "is_embed": true
+        },
+        {
+            "name": "cls.predictions.decoder.bias",
+            "optional": true
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/roberta-masked-lm.json b/mergekit/_data/architectures/roberta-masked-lm.json
index 1aae76a..385d2d0 100644
--- a/mergekit/_data/architectures/roberta-masked-lm.json
+++ b/mergekit/_data/architectures/roberta-masked-lm.json
@@ -49,6 +49,10 @@
             "tied_names": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
+        },
+        {
+            "name": "lm_head.decoder.bias",
+            "optional": true
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
-- 
2.43.0


From 054e1dfb225ad32359e1b439f6b5bdf1c3fa4f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:23 +0000
Subject: [PATCH 026/140] fix: find Qwen-VL layer count and vocabulary size in
 the text config

The top-level keys do not exist (layers) or are ignored when loading (vocabulary).
---
 mergekit/_data/architectures/qwen2_5_vl.json | 2 +-
 mergekit/_data/architectures/qwen2_vl.json   | 4 ++--
 mergekit/_data/architectures/qwen3_vl.json   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index cd3258b..53c6828 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -5,7 +5,7 @@
         "Qwen2_5_VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 7e5ee74..1e91f18 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -5,7 +5,7 @@
         "Qwen2VLForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
@@ -17,7 +17,7 @@
                     "Qwen2ForCausalLM"
                 ],
                 "model_type": "qwen2",
-                "num_layers_config_key": "num_hidden_layers",
+                "num_layers_config_key": "text_config.num_hidden_layers",
                 "pre_weights": [
                     {
                         "name": "model.embed_tokens.weight",
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index a257dbf..571303d 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -5,7 +5,7 @@
         "Qwen3VLMoeForConditionalGeneration"
     ],
     "num_vision_layers_config_key": "vision_config.depth",
-    "vocab_size_config_key": "vocab_size",
+    "vocab_size_config_key": "text_config.vocab_size",
     "tagalong_files": [
         "preprocessor_config.json",
         "vocab.json"
-- 
2.43.0


From ea13790566e92c1a47909a566c333cbb410269c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:43 +0000
Subject: [PATCH 027/140] fix: keep per-layer types in step with the sliced
 layers

The layer types of a config (Qwen 2/3, Gemma 2/3, LFM2, Cohere 2, ...) kept
the base model's length when slices changed the number of layers, so the
output configuration could not be saved or described the wrong layers.
---
 mergekit/merge.py | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5c3a7ea..eefd597 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -15,8 +15,8 @@ import transformers
 from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
 from mergekit.card import generate_card
-from mergekit.common import ModelReference, set_config_value
-from mergekit.config import MergeConfiguration
+from mergekit.common import ModelReference, get_config_value, set_config_value
+from mergekit.config import MergeConfiguration, OutputSliceDefinition
 from mergekit.graph import Executor
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
@@ -331,6 +331,15 @@ def _model_out_config(
                 continue
             try:
                 set_config_value(res, cfg_key, module_layers[module_name])
+                if config.modules and module_name in config.modules:
+                    slices = config.modules[module_name].slices
+                else:
+                    slices = config.slices
+                layer_types = _sliced_layer_types(slices, cfg_key, trust_remote_code)
+                if layer_types is not None:
+                    set_config_value(
+                        res, _layer_types_config_key(cfg_key), layer_types
+                    )
             except Exception as e:
                 LOG.warning(
                     f"Unable to set number of layers for module {module_name} in output config "
@@ -341,6 +350,32 @@ def _model_out_config(
     return res
 
 
+def _layer_types_config_key(num_layers_key: str) -> str:
+    return ".".join(num_layers_key.split(".")[:-1] + ["layer_types"])
+
+
+def _sliced_layer_types(
+    slices: List[OutputSliceDefinition],
+    num_layers_key: str,
+    trust_remote_code: bool = False,
+) -> Optional[List[str]]:
+    """Return the type of each output layer, if the architecture declares them."""
+    res = []
+    for s in slices:
+        source = s.sources[0]
+        source_config = source.model.config(trust_remote_code=trust_remote_code)
+        try:
+            layer_types = get_config_value(
+                source_config, _layer_types_config_key(num_layers_key)
+            )
+        except RuntimeError:
+            return None
+        if layer_types is None:
+            return None
+        res.extend(layer_types[source.layer_range[0] : source.layer_range[1]])
+    return res
+
+
 def _update_config_vocab(
     config: transformers.PretrainedConfig,
     arch_info: ModelArchitecture,
-- 
2.43.0


From ff9dbb580af1e8f04184db1d09e5f9af76b91bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:30 +0000
Subject: [PATCH 028/140] fix: write the layer count of sliced models with
 inferred architectures

---
 mergekit/architecture/auto.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 019e20a..0db53b9 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -106,6 +106,19 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
     return ignore_on_save, tied_keys, embed_names, tensor_names
 
 
+def _num_layers_config_key(
+    model: ModelReference, num_layers: int, options: MergeOptions
+) -> Optional[str]:
+    """Find the config key that holds the number of layers, if there is one."""
+    try:
+        cfg = model.config(trust_remote_code=options.trust_remote_code)
+    except Exception:
+        return None
+    if num_layers and getattr(cfg, "num_hidden_layers", None) == num_layers:
+        return "num_hidden_layers"
+    return None
+
+
 def _target_present_in_all_models(
     target_name: str,
     model_tensor_names: dict[ModelReference, set[str]],
@@ -274,7 +287,11 @@ def infer_architecture_info(
                     ]
                 ),
                 post_weights=[],
-                num_layers_config_key=None,
+                num_layers_config_key=(
+                    _num_layers_config_key(base_model, num_layers, options)
+                    if len(module_prefixes) == 1
+                    else None
+                ),
                 override_num_layers=num_layers,
             ),
         )
-- 
2.43.0


From 06e40d86e2fb6f3c3a59a70af0fe34bca99839b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:02 +0000
Subject: [PATCH 029/140] fix: take a module's layer count from the models it
 is merged from

---
 mergekit/merge.py | 48 +++++++++++++++++++++++++++++------------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index eefd597..fccbcbb 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -16,7 +16,11 @@ from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
 from mergekit.card import generate_card
 from mergekit.common import ModelReference, get_config_value, set_config_value
-from mergekit.config import MergeConfiguration, OutputSliceDefinition
+from mergekit.config import (
+    InputSliceDefinition,
+    MergeConfiguration,
+    OutputSliceDefinition,
+)
 from mergekit.graph import Executor
 from mergekit.io.tasks import LoaderCache
 from mergekit.multigpu_executor import MultiGPUExecutor
@@ -294,24 +298,34 @@ def _model_out_config(
     elif config.dtype:
         res.torch_dtype = config.dtype
 
-    module_layers = {}
+    module_slices = {}
     for module_name in arch_info.modules:
         if config.modules and module_name in config.modules:
             module_def = config.modules.get(module_name)
             if module_def and module_def.slices:
-                module_layers[module_name] = sum(
-                    [
-                        s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
-                        for s in module_def.slices
-                    ]
+                module_slices[module_name] = module_def.slices
+            elif module_def and module_def.models:
+                model = module_def.models[0].model
+                num_layers = arch_info.modules[module_name].architecture.num_layers(
+                    model.config(trust_remote_code=trust_remote_code)
                 )
-        elif config.slices:
-            module_layers[module_name] = sum(
-                [
-                    s.sources[0].layer_range[1] - s.sources[0].layer_range[0]
-                    for s in config.slices
+                module_slices[module_name] = [
+                    OutputSliceDefinition(
+                        sources=[
+                            InputSliceDefinition(
+                                model=model, layer_range=(0, num_layers)
+                            )
+                        ]
+                    )
                 ]
-            )
+        elif config.slices:
+            module_slices[module_name] = config.slices
+    module_layers = {
+        module_name: sum(
+            s.sources[0].layer_range[1] - s.sources[0].layer_range[0] for s in slices
+        )
+        for module_name, slices in module_slices.items()
+    }
 
     if module_layers:
         for module_name in module_layers:
@@ -331,11 +345,9 @@ def _model_out_config(
                 continue
             try:
                 set_config_value(res, cfg_key, module_layers[module_name])
-                if config.modules and module_name in config.modules:
-                    slices = config.modules[module_name].slices
-                else:
-                    slices = config.slices
-                layer_types = _sliced_layer_types(slices, cfg_key, trust_remote_code)
+                layer_types = _sliced_layer_types(
+                    module_slices[module_name], cfg_key, trust_remote_code
+                )
                 if layer_types is not None:
                     set_config_value(
                         res, _layer_types_config_key(cfg_key), layer_types
-- 
2.43.0


From 3e20222886654ce475f5b3c7c15f1885e1f3ab96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 030/140] fix: don't remove entries from input tensors shared
 between merge tasks

---
 mergekit/merge_methods/generalized_task_arithmetic.py | 1 -
 mergekit/merge_methods/nuslerp.py                     | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index b421269..5198a64 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -216,7 +216,6 @@ def get_task_vectors(
 
         delta = x - base
         del x
-        del tensors[model]
 
         d = {}
         d["model"] = model
diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index efa0f7d..25bf441 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -41,11 +41,11 @@ class NuSlerpTask(Task[torch.Tensor]):
                 raise RuntimeError(
                     "NuSlerp base model can not be one of the two models to merge"
                 )
-            base_tensor = tensors.pop(self.base_model)
+            base_tensor = tensors[self.base_model]
         else:
             base_tensor = None
 
-        keys = list(tensors.keys())
+        keys = [key for key in tensors if key != self.base_model]
         tensors = [tensors[key] for key in keys]
         weights = [self.tensor_parameters[key]["weight"] for key in keys]
 
-- 
2.43.0


From c7fbda2aa16a1117d8b3d9459610a04a5cc27ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 031/140] fix: keep the largest elements when no outliers are
 removed

---
 mergekit/sparsify.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 13789e1..8e3140c 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -110,7 +110,7 @@ def magnitude_outliers(
     indices = torch.sort(w, descending=False).indices
     mask = torch.zeros_like(tensor)
 
-    mask.view(-1)[indices[n_bot:-n_top]] = 1
+    mask.view(-1)[indices[n_bot : num_elems - n_top]] = 1
 
     res = rescaled_masked_tensor(tensor, mask, rescale_norm)
     return res
-- 
2.43.0


From ce445b1d3d51be6d1876a2a15e6ad734a758f59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 032/140] fix: handle single-element rows in della_magprune

---
 mergekit/sparsify.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 8e3140c..4d29974 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -167,7 +167,11 @@ def della_magprune(
 
     min_ranks = ranks.min(dim=1, keepdim=True).values
     max_ranks = ranks.max(dim=1, keepdim=True).values
-    rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    if tensor.shape[1] > 1:
+        rank_norm = ((ranks - min_ranks) / (max_ranks - min_ranks)).clamp(0, 1)
+    else:
+        # only one element to rank, keep it with probability `density`
+        rank_norm = torch.full_like(ranks, 0.5)
     probs = (density - epsilon) + rank_norm * 2 * epsilon
     mask = torch.bernoulli(probs).to(work_dtype)
 
-- 
2.43.0


From 4d512fb6a3119ae16214d1aa90d6a7a5740f6291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 033/140] fix: compute norms for rescaling in single precision

---
 mergekit/sparsify.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index 4d29974..a3cfb57 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -35,14 +35,16 @@ def rescaled_masked_tensor(
         eps (float): Tolerance for small norms to avoid division by zero.
     """
     masked = tensor * mask
+    # sums over half-precision tensors overflow easily
+    norm_dtype = torch.promote_types(tensor.dtype, torch.float32)
     if norm is None:
         return masked
     elif norm == RescaleNorm.l1:
-        before_scale = tensor.abs().sum()
-        after_scale = masked.abs().sum()
+        before_scale = tensor.abs().sum(dtype=norm_dtype)
+        after_scale = masked.abs().sum(dtype=norm_dtype)
     elif norm == RescaleNorm.l2:
-        before_scale = tensor.norm()
-        after_scale = masked.norm()
+        before_scale = tensor.norm(dtype=norm_dtype)
+        after_scale = masked.norm(dtype=norm_dtype)
     elif norm == RescaleNorm.linf:
         before_scale = tensor.abs().max()
         after_scale = masked.abs().max()
-- 
2.43.0


From a1aef8bf418bf7e0434235bdbc744b1200a7a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 034/140] fix: keep the configured dtype in arcee_fusion

---
 mergekit/merge_methods/arcee_fusion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/arcee_fusion.py b/mergekit/merge_methods/arcee_fusion.py
index fb355d9..edcb7db 100644
--- a/mergekit/merge_methods/arcee_fusion.py
+++ b/mergekit/merge_methods/arcee_fusion.py
@@ -92,7 +92,7 @@ class ArceeFusionMergeTask(Task[torch.Tensor]):
         )
 
         delta = prepped_tensors[1] - prepped_tensors[0]
-        masked_delta = delta * fusion_mask
+        masked_delta = delta * fusion_mask.to(delta.dtype)
         fused = prepped_tensors[0] + masked_delta
 
         return fused
-- 
2.43.0


From 7695df54dc6cca76ebad5b8982393938bcf06985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 035/140] fix: use the common submatrix of mismatched
 embeddings in karcher

---
 mergekit/merge_methods/karcher.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/karcher.py b/mergekit/merge_methods/karcher.py
index e15cc1c..95486ad 100644
--- a/mergekit/merge_methods/karcher.py
+++ b/mergekit/merge_methods/karcher.py
@@ -45,8 +45,7 @@ class KarcherTask(Task[torch.Tensor]):
         model_tensors = list(tensors.values())
 
         # Ensure all tensors have compatible shapes
-        for i in range(1, len(model_tensors)):
-            rectify_embed_sizes(self.weight_info, [model_tensors[0], model_tensors[i]])
+        rectify_embed_sizes(self.weight_info, model_tensors)
 
         # Calculate weights (equal by default)
         alphas = [1.0 / len(model_tensors)] * len(model_tensors)
-- 
2.43.0


From 640c665163a8ca6dbe56e097c36e5a07c3eeef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 036/140] fix: return an SCE mask of the right shape when
 nothing is selected

---
 mergekit/merge_methods/sce.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge_methods/sce.py b/mergekit/merge_methods/sce.py
index 477e118..9a8d5d1 100644
--- a/mergekit/merge_methods/sce.py
+++ b/mergekit/merge_methods/sce.py
@@ -56,15 +56,15 @@ def sce_mask(
     tvs: torch.Tensor, density: float, mask_dtype: Optional[torch.dtype] = None
 ):
     if density <= 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
     if density >= 1:
-        return torch.ones_like(tvs, dtype=mask_dtype)
+        return torch.ones_like(tvs[0], dtype=mask_dtype)
 
     var = torch.var(tvs, dim=0, unbiased=False)
     nonzero = torch.count_nonzero(var)
     k = int(nonzero * density)
     if k == 0:
-        return torch.zeros_like(tvs, dtype=mask_dtype)
+        return torch.zeros_like(tvs[0], dtype=mask_dtype)
 
     _, indices = torch.topk(var.abs().view(-1), k=k, largest=True)
     mask = torch.zeros_like(var, dtype=mask_dtype)
-- 
2.43.0


From cc214f946f4c618ba6dfb7278edc7173e44341fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 037/140] fix: keep multislerp's stabilizing constant from
 underflowing

---
 mergekit/merge_methods/multislerp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/merge_methods/multislerp.py b/mergekit/merge_methods/multislerp.py
index 0a10bc4..98abcb2 100644
--- a/mergekit/merge_methods/multislerp.py
+++ b/mergekit/merge_methods/multislerp.py
@@ -48,6 +48,8 @@ def multislerp(
         tensors -= base_tensor
 
     tensors_flat = tensors.view(tensors.shape[0], -1)
+    # the default is zero in half precision
+    eps = max(eps, torch.finfo(tensors.dtype).tiny)
 
     weights = torch.tensor(weight, dtype=tensors.dtype, device=tensors.device)
     if normalize_weights:
-- 
2.43.0


From 58c38bf9509a66d3b4ec426b684a99230f25b3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 038/140] fix: recognize colinear vectors of any shape and
 dtype in nuslerp

---
 mergekit/merge_methods/nuslerp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index 25bf441..b304ff6 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -154,7 +154,8 @@ def nuslerp(
     theta = torch.acos(cos_theta.clamp(-1, 1))
     sin_theta = torch.sin(theta)
 
-    colinear = (sin_theta.abs() < eps).squeeze()
+    # eps may round to zero in half precision
+    colinear = (sin_theta.abs() <= eps).squeeze(-1)
 
     res = (torch.sin((1 - t) * theta) * v0 + torch.sin(t * theta) * v1) / sin_theta
     # Use linear interpolation for (nearly) colinear vectors
-- 
2.43.0


From b237bac1f94a894366e9e410b97a79a7799280d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:49 +0000
Subject: [PATCH 039/140] fix: accept embedding submatrices in nuslerp

---
 mergekit/merge_methods/nuslerp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge_methods/nuslerp.py b/mergekit/merge_methods/nuslerp.py
index b304ff6..413b8f8 100644
--- a/mergekit/merge_methods/nuslerp.py
+++ b/mergekit/merge_methods/nuslerp.py
@@ -141,8 +141,8 @@ def nuslerp(
         return x / torch.norm(x, dim=-1, keepdim=True).clamp(min=eps)
 
     if flatten:
-        v0 = v0.view(-1)
-        v1 = v1.view(-1)
+        v0 = v0.reshape(-1)
+        v1 = v1.reshape(-1)
     elif dim != -1:
         v0 = v0.transpose(dim, -1)
         v1 = v1.transpose(dim, -1)
-- 
2.43.0


From cabe80a2230594e3b35db308aaa06a5f94da3a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:42 +0000
Subject: [PATCH 040/140] fix: don't divide by a zero weight sum in half
 precision

---
 mergekit/merge_methods/generalized_task_arithmetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index 5198a64..cfb6866 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -173,7 +173,7 @@ class GTATask(Task[torch.Tensor]):
         else:
             mixed_delta = weighted_deltas.sum(dim=0)
             divisor = weights.sum(dim=0)
-            divisor[divisor.abs() < 1e-8] = 1
+            divisor[divisor.abs() <= 1e-8] = 1
 
         if self.normalize:
             mixed_delta /= divisor
-- 
2.43.0


From 5b06db10695f44aa7d90d133f9c995d4a1c7f795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:23 +0000
Subject: [PATCH 041/140] fix: compute the maximum norm's ratio in single
 precision too

---
 mergekit/sparsify.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/sparsify.py b/mergekit/sparsify.py
index a3cfb57..384bc92 100644
--- a/mergekit/sparsify.py
+++ b/mergekit/sparsify.py
@@ -46,8 +46,8 @@ def rescaled_masked_tensor(
         before_scale = tensor.norm(dtype=norm_dtype)
         after_scale = masked.norm(dtype=norm_dtype)
     elif norm == RescaleNorm.linf:
-        before_scale = tensor.abs().max()
-        after_scale = masked.abs().max()
+        before_scale = tensor.abs().max().to(norm_dtype)
+        after_scale = masked.abs().max().to(norm_dtype)
     else:
         raise NotImplementedError(norm)
     if before_scale < eps or after_scale < eps:
-- 
2.43.0


From 4d6daac94db1b1d827470f170c401a3189e51957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 042/140] fix: treat tokens beyond a model's embedding matrix
 as missing

---
 mergekit/tokenizer/build.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 91a0c61..988b12e 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -262,6 +262,7 @@ def build_tokenizer(
                 LOG.warning(
                     f"{model} token {repr(tok)} has index {orig_idx}>{vocab_size - 1} (padding?)"
                 )
+                p[new_idx] = -1
                 continue
 
             p[new_idx] = orig_idx
-- 
2.43.0


From ad854dd6de96494fbcba2e0ba10faad24549beba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 043/140] fix: keep added tokens out of the base model's own
 vocabulary

---
 mergekit/tokenizer/build.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index 988b12e..dde7544 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -231,6 +231,9 @@ def build_tokenizer(
     else:
         raise RuntimeError(f"Unimplemented tokenizer source: {tokenizer_source}")
 
+    # tokenizer_out may be one of the input tokenizers, so take these first
+    original_vocabs = {model: tok.get_vocab() for model, tok in tokenizers.items()}
+
     for tok in add_tokens:
         tokenizer_out.add_tokens(tok)
 
@@ -241,10 +244,10 @@ def build_tokenizer(
     for model in (
         pbar := tqdm.tqdm(referenced_models, desc="Building tokenizer permutations")
     ):
-        if model in tokenizers:
-            model_vocab = tokenizers[model].get_vocab()
+        if model in original_vocabs:
+            model_vocab = original_vocabs[model]
         else:
-            model_vocab = tokenizers[base_model].get_vocab()
+            model_vocab = original_vocabs[base_model]
 
         vocab_size = get_vocab_size(model.model, trust_remote_code=trust_remote_code)
         if vocab_size is None:
@@ -274,7 +277,7 @@ def build_tokenizer(
     return TokenizerInfo(
         tokenizer=tokenizer_out,
         permutations=permutations,
-        original_vocabs={model: tok.get_vocab() for model, tok in tokenizers.items()},
+        original_vocabs=original_vocabs,
     )
 
 
-- 
2.43.0


From 21f8161ac8b04f75bf031fcb1dfaa9808d3805fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 044/140] fix: permute embeddings when the base model is not
 among them

---
 mergekit/tokenizer/embed.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 74dc93b..547d0dd 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -33,10 +33,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokenizer = tokenizer_info.tokenizer
         permutations = tokenizer_info.permutations
 
-        models = set(tensors.keys())
-        if self.base_model:
-            models.add(self.base_model)
-        models = list(models)
+        models = list(tensors.keys())
 
         vocab = tokenizer.get_vocab()
         vocab_size = len(vocab)
@@ -134,7 +131,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
-            if num_present > 0 and self.base_model is not None:
+            if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
                     token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
                     continue
-- 
2.43.0


From cdc91b36496dc4c17dce65df4351decff9ae6ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 045/140] fix: support zero embeddings for tokens

---
 mergekit/tokenizer/embed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 547d0dd..09a3d2f 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -127,7 +127,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding())
+                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding(kind="zero"))
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
@@ -149,7 +149,8 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         cfg: TokenEmbeddingConfig,
     ) -> torch.Tensor:
         if isinstance(cfg.source, ZeroEmbedding):
-            pass
+            any_tensor = next(iter(tensors.values()))
+            embed = torch.zeros_like(any_tensor[0])
         elif isinstance(cfg.source, ModelTokenEmbedding):
             model = cfg.source.model
             assert (
-- 
2.43.0


From 95f1143e1396d5352e6282525650f3562a71365f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:54 +0000
Subject: [PATCH 046/140] fix: use the default embedding for listed tokens
 without a source

---
 mergekit/tokenizer/embed.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 09a3d2f..69bd7be 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -116,24 +116,31 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         tokens_to_average = set()
         # find tokens that are only present in one model
         for token, token_id in vocab.items():
-            if token in token_configs:
+            cfg = token_configs.get(token, TokenEmbeddingConfig())
+            if cfg.source is not None:
                 continue
 
             has_token = [p[token_id] >= 0 for p in permutation_list]
             num_present = sum(int(x) for x in has_token)
             if num_present == 1:
                 donor_model = models[has_token.index(True)]
-                token_configs[token] = TokenEmbeddingConfig(source=donor_model)
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=donor_model, force=cfg.force
+                )
                 continue
 
             if num_present == 0:
-                token_configs[token] = TokenEmbeddingConfig(source=ZeroEmbedding(kind="zero"))
+                token_configs[token] = TokenEmbeddingConfig(
+                    source=ZeroEmbedding(kind="zero"), force=cfg.force
+                )
                 logging.warning(f"Token {repr(token)} not found in any model")
                 continue
 
             if num_present > 0 and self.base_model in models:
                 if permutations[self.base_model][token_id] >= 0:
-                    token_configs[token] = TokenEmbeddingConfig(source=self.base_model)
+                    token_configs[token] = TokenEmbeddingConfig(
+                        source=self.base_model, force=cfg.force
+                    )
                     continue
 
             tokens_to_average.add(token)
-- 
2.43.0


From 789aba75def3f1291debc1cd3a363104e98cc18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 047/140] fix: accept literal chat templates longer than a file
 name

---
 mergekit/merge.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index fccbcbb..e52470b 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -190,10 +190,13 @@ def _set_chat_template(
         LOG.info(f"Auto-selected chat template: {chat_template}")
 
     elif (
-        t := importlib.resources.files(chat_templates).joinpath(
-            chat_template + ".jinja"
-        )
-    ).is_file():
+        "{" not in chat_template
+        and (
+            t := importlib.resources.files(chat_templates).joinpath(
+                chat_template + ".jinja"
+            )
+        ).is_file()
+    ):
         chat_template = t.read_text()
 
     elif len(chat_template) < 20 or "{" not in chat_template:
-- 
2.43.0


From 9312aa8bc056e0bc308b6bc63d71eb91889d3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 048/140] fix: honour trust_remote_code when choosing a chat
 template

---
 mergekit/merge.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index e52470b..8af2039 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -119,7 +119,9 @@ def run_merge(
 
     if tokenizer is not None:
         LOG.info("Saving tokenizer")
-        _set_chat_template(tokenizer, merge_config)
+        _set_chat_template(
+            tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+        )
         tokenizer.save_pretrained(out_path, safe_serialization=True)
     else:
         if options.copy_tokenizer:
@@ -282,7 +284,9 @@ def _copy_tokenizer(
         revision=donor_model.model.revision,
         trust_remote_code=options.trust_remote_code,
     )
-    _set_chat_template(tokenizer, merge_config)
+    _set_chat_template(
+        tokenizer, merge_config, trust_remote_code=options.trust_remote_code
+    )
     tokenizer.save_pretrained(out_path, safe_serialization=True)
 
 
-- 
2.43.0


From a8e6adb939775be9093406738c700aa554e126a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:54 +0000
Subject: [PATCH 049/140] fix: size the vocabulary for tokenizers with gaps in
 their ids

---
 mergekit/merge.py           | 3 ++-
 mergekit/tokenizer/embed.py | 9 +++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 8af2039..5a2ccb8 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -401,7 +401,8 @@ def _update_config_vocab(
     tokenizer: transformers.PreTrainedTokenizerBase,
     pad_to_multiple_of: Optional[int] = None,
 ):
-    vocab_size = len(tokenizer.get_vocab())
+    vocab = tokenizer.get_vocab()
+    vocab_size = max(len(vocab), max(vocab.values()) + 1)
     if pad_to_multiple_of and vocab_size % pad_to_multiple_of:
         vocab_size = vocab_size + pad_to_multiple_of - (vocab_size % pad_to_multiple_of)
     try:
diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 69bd7be..7b94502 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -36,7 +36,8 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
         models = list(tensors.keys())
 
         vocab = tokenizer.get_vocab()
-        vocab_size = len(vocab)
+        vocab_size = max(len(vocab), max(vocab.values()) + 1)
+        num_used = vocab_size
         if self.pad_to_multiple_of and vocab_size % self.pad_to_multiple_of:
             vocab_size = (
                 vocab_size // self.pad_to_multiple_of + 1
@@ -96,10 +97,10 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                         f"No embedding for token {repr(token)} in model {model}!"
                     )
 
-            if vocab_size > len(vocab):
+            if vocab_size > num_used:
                 # as suggested by https://nlp.stanford.edu/~johnhew/vocab-expansion.html
-                avg_embed = torch.mean(new_embed[: len(vocab), :], dim=0)
-                new_embed[len(vocab) :, :] = avg_embed
+                avg_embed = torch.mean(new_embed[:num_used, :], dim=0)
+                new_embed[num_used:, :] = avg_embed
             result[model] = new_embed
 
         return result
-- 
2.43.0


From f56fbcf04504b91b759e930ff63a7433b1ee7d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:57 +0000
Subject: [PATCH 050/140] fix: don't reuse another merge's tensor loaders

---
 mergekit/io/tasks.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 4e32cf5..209c40d 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -50,6 +50,8 @@ class LoaderCache:
             loader.flush()
 
     def setup(self, options: MergeOptions):
+        # the options or the files may have changed since the last merge
+        self.loaders.clear()
         self.lora_cache_dir = options.lora_merge_cache
         self.hf_cache_dir = options.transformers_cache
         self.lazy_unpickle = options.lazy_unpickle
-- 
2.43.0


From 8a9e515ac0b920b629f09bb186b6ee67d4238db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:57 +0000
Subject: [PATCH 051/140] fix: return absent optional tensors from in-memory
 merges

---
 mergekit/io/tasks.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 209c40d..199c92a 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -267,7 +267,9 @@ class ReturnTensor(Task[torch.Tensor]):
     def group_label(self) -> Optional[str]:
         return self.tensor_task.group_label()
 
-    def execute(self, tensor: torch.Tensor) -> torch.Tensor:
+    def execute(self, tensor: Optional[torch.Tensor]) -> Optional[torch.Tensor]:
+        if tensor is None:
+            return None
         if self.dtype and (dtype := dtype_from_name(self.dtype)) != tensor.dtype:
             tensor = tensor.to(dtype=dtype)
         return tensor
-- 
2.43.0


From e5b36ad1a7f76e75faa4d97627bf9849bf68ecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:59 +0000
Subject: [PATCH 052/140] fix: order the union vocabulary reproducibly

---
 mergekit/tokenizer/build.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/build.py b/mergekit/tokenizer/build.py
index dde7544..71ea39c 100644
--- a/mergekit/tokenizer/build.py
+++ b/mergekit/tokenizer/build.py
@@ -121,7 +121,7 @@ def build_union_tokenizer(
         added_tokens = tokenizer.added_tokens_decoder
 
         vocab = tokenizer.get_vocab()
-        for tok, idx in vocab.items():
+        for tok, idx in sorted(vocab.items(), key=lambda x: x[1]):
             if idx >= vocab_size:
                 LOG.warning(
                     f"Token {repr(tok)} present in {str(model)} tokenizer but >= vocab_size"
-- 
2.43.0


From 4ec9f67a9d5ba029cfdac28ed42ea865ccff5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 053/140] fix: load shared experts that are not routed experts

---
 mergekit/moe/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/moe/common.py b/mergekit/moe/common.py
index 2b1ea00..8593cf9 100644
--- a/mergekit/moe/common.py
+++ b/mergekit/moe/common.py
@@ -24,7 +24,10 @@ def initialize_io(
     base_model = config.base_model
     loaders: Dict[ModelReference, LazyTensorLoader] = {}
     for model in tqdm.tqdm(
-        [base_model] + [e.source_model for e in config.experts], desc="Warm up loaders"
+        [base_model]
+        + [e.source_model for e in config.experts]
+        + [e.source_model for e in (config.shared_experts or [])],
+        desc="Warm up loaders",
     ):
         loaders[model] = model.lazy_loader(
             cache_dir=merge_options.transformers_cache,
-- 
2.43.0


From 1970d213fc7fca0a99672899739d1bc5a39ccbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 054/140] fix: create the output directory for DeepSeek MoE
 models

---
 mergekit/moe/deepseek.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/moe/deepseek.py b/mergekit/moe/deepseek.py
index 03ff072..a877e58 100644
--- a/mergekit/moe/deepseek.py
+++ b/mergekit/moe/deepseek.py
@@ -118,6 +118,7 @@ class DeepseekMoE(MoEOutputArchitecture):
         )
         if out_dtype is not None:
             out_cfg["torch_dtype"] = str(out_dtype).removeprefix("torch.")
+        os.makedirs(out_path, exist_ok=True)
         with open(os.path.join(out_path, "config.json"), "w", encoding="utf-8") as f:
             json.dump(out_cfg, f, indent=4)
 
-- 
2.43.0


From 5807ef171aa3da3739a627edaf71ff8106565fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:37 +0000
Subject: [PATCH 055/140] fix: honour trust_remote_code for the MoE tokenizer

---
 mergekit/scripts/moe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 44061ad..7111fb6 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -34,7 +34,9 @@ def build(
     out_arch = select_output_arch(config, merge_options, verbose=verbose)
 
     tokenizer = transformers.AutoTokenizer.from_pretrained(
-        base_model.model.path, revision=base_model.model.revision
+        base_model.model.path,
+        revision=base_model.model.revision,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     tokenizer.padding_side = "left"
     tokenizer.pad_token_id = tokenizer.bos_token_id
-- 
2.43.0


From 0c2146bb398e504e564041f157b1c1a8e0c8ee7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:11 +0000
Subject: [PATCH 056/140] fix: apply LoRA adapters of models in MoE merges

---
 mergekit/scripts/moe.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index 7111fb6..f4200d4 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -31,6 +31,7 @@ def build(
         sys.exit(1)
 
     base_model = config.base_model
+    config = merge_adapters(config, merge_options)
     out_arch = select_output_arch(config, merge_options, verbose=verbose)
 
     tokenizer = transformers.AutoTokenizer.from_pretrained(
@@ -54,7 +55,7 @@ def build(
             need_gates.extend(config.shared_experts)
 
     gate_vecs = get_gate_params(
-        base_model,
+        config.base_model,
         tokenizer,
         need_gates,
         mode=config.gate_mode,
@@ -86,6 +87,21 @@ def build(
     logging.info("Done.")
 
 
+def merge_adapters(
+    config: MoEMergeConfig, merge_options: MergeOptions
+) -> MoEMergeConfig:
+    config = config.model_copy(deep=True)
+    lora_options = dict(
+        cache_dir=merge_options.lora_merge_cache,
+        trust_remote_code=merge_options.trust_remote_code,
+        lora_merge_dtype=merge_options.lora_merge_dtype,
+    )
+    config.base_model = config.base_model.merged(**lora_options)
+    for expert in config.experts + (config.shared_experts or []):
+        expert.source_model = expert.source_model.merged(**lora_options)
+    return config
+
+
 def select_output_arch(
     config: MoEMergeConfig,
     merge_options: MergeOptions,
-- 
2.43.0


From 203a89f44be7bcd04014bfb8fe48058e46072a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:18 +0000
Subject: [PATCH 057/140] fix: infer architectures of models with LoRA adapters

---
 mergekit/architecture/auto.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 0db53b9..8e8098f 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -35,7 +35,12 @@ LOG = logging.getLogger(__name__)
 
 
 def get_model_tensor_names(model: ModelReference, options: MergeOptions) -> List[str]:
-    loader = model.lazy_loader(
+    merged = model.merged(
+        cache_dir=options.lora_merge_cache,
+        trust_remote_code=options.trust_remote_code,
+        lora_merge_dtype=options.lora_merge_dtype,
+    )
+    loader = merged.lazy_loader(
         cache_dir=options.transformers_cache, lazy_unpickle=options.lazy_unpickle
     )
     return list(loader.index.tensor_paths.keys())
-- 
2.43.0


From 6f42bb05c038190f0c7c768b2a5a51d235647452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:18 +0000
Subject: [PATCH 058/140] fix: do not reuse merged adapters of another dtype

---
 mergekit/common.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 1bc6339..643f708 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -112,7 +112,10 @@ class ModelReference(BaseModel, frozen=True):
 
         out_path = os.path.join(
             cache_dir,
-            self.model._unique_id() + "_" + self.lora._unique_id(),
+            self.model._unique_id()
+            + "_"
+            + self.lora._unique_id()
+            + (f"_{lora_merge_dtype}" if lora_merge_dtype else ""),
         )
 
         if not os.path.exists(out_path):
-- 
2.43.0


From 6c9860f93c1da6fd808a6e68bdd118d250df51a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:18 +0000
Subject: [PATCH 059/140] fix: do not reuse merged adapters that were not
 completely written

---
 mergekit/common.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 643f708..ce0537e 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -5,6 +5,7 @@ import binascii
 import logging
 import os
 import os.path
+import tempfile
 from typing import (
     Any,
     Callable,
@@ -119,8 +120,6 @@ class ModelReference(BaseModel, frozen=True):
         )
 
         if not os.path.exists(out_path):
-            os.makedirs(out_path, exist_ok=True)
-
             config = self.config(trust_remote_code)
             auto_cls = get_auto_cls(config.architectures[0])
 
@@ -137,7 +136,18 @@ class ModelReference(BaseModel, frozen=True):
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
-            model.save_pretrained(out_path, safe_serialization=True)
+
+            # only a completely written copy gets its final name
+            os.makedirs(cache_dir, exist_ok=True)
+            with tempfile.TemporaryDirectory(dir=cache_dir, prefix="tmp") as tmp_dir:
+                tmp_path = os.path.join(tmp_dir, "model")
+                model.save_pretrained(tmp_path, safe_serialization=True)
+                try:
+                    os.rename(tmp_path, out_path)
+                except OSError:
+                    # another process may have merged the same adapter
+                    if not os.path.exists(out_path):
+                        raise
             del model
 
         return ModelReference(model=ModelPath(path=out_path))
-- 
2.43.0


From 6915b792560ddacd669920e298465322d5e36ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 060/140] fix: extract LoRAs from models without optional
 weights

---
 mergekit/scripts/extract_lora.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index a40460d..768796a 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -159,7 +159,7 @@ def main(
 
     module_real_ranks = {}
     for task, result in executor.run():
-        if isinstance(task, TaskVectorDecompositionTask):
+        if isinstance(task, TaskVectorDecompositionTask) and result[0] is not None:
             module_real_ranks[task.weight_info.name.removesuffix(".weight")] = result[
                 0
             ].shape[0]
@@ -218,7 +218,9 @@ def make_config_dict(
     }
 
 
-class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
+class TaskVectorDecompositionTask(
+    Task[Tuple[Optional[torch.Tensor], Optional[torch.Tensor]]]
+):
     weight_info: WeightInfo
     input_task: Task
     max_rank: int
@@ -229,7 +231,11 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
     def arguments(self) -> Dict[str, Any]:
         return {"task_vector": self.input_task}
 
-    def execute(self, task_vector: torch.Tensor) -> Tuple[torch.Tensor, torch.Tensor]:
+    def execute(
+        self, task_vector: Optional[torch.Tensor]
+    ) -> Tuple[Optional[torch.Tensor], Optional[torch.Tensor]]:
+        if task_vector is None:
+            return None, None
         if self.transpose:
             task_vector = task_vector.T
         out_dtype = task_vector.dtype
@@ -259,14 +265,19 @@ class TaskVectorDecompositionTask(Task[Tuple[torch.Tensor, torch.Tensor]]):
         return True
 
 
-class TaskVectorTask(Task[torch.Tensor]):
+class TaskVectorTask(Task[Optional[torch.Tensor]]):
     base_tensor: Task
     model_tensor: Task
 
     def arguments(self) -> Dict[str, Any]:
         return {"base": self.base_tensor, "model": self.model_tensor}
 
-    def execute(self, base: torch.Tensor, model: torch.Tensor) -> torch.Tensor:
+    def execute(
+        self, base: Optional[torch.Tensor], model: Optional[torch.Tensor]
+    ) -> Optional[torch.Tensor]:
+        if base is None and model is None:
+            # optional weight that neither model has
+            return None
         return model - base
 
     def group_label(self):
-- 
2.43.0


From ae2ad661234e615e85ce7720ec4bdfa9fa5e8b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 061/140] fix: keep bias changes when extracting LoRAs

---
 mergekit/scripts/extract_lora.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 768796a..c96d504 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -213,6 +213,7 @@ def make_config_dict(
         "rank_pattern": different_ranked,
         "alpha_pattern": different_ranked,
         "lora_dropout": 0.0,
+        "bias": "lora_only",
         "fan_in_fan_out": False,
         "inference_mode": True,
     }
@@ -518,17 +519,13 @@ def plan_lora_module(
         )
     )
     if bias_wi is not None:
-        base_bias_load_task = _wi_load(base_model_ref, bias_wi)
-        model_bias_load_task = _wi_load(model_ref, bias_wi)
-        tv_bias_task = TaskVectorTask(
-            base_tensor=base_bias_load_task, model_tensor=model_bias_load_task
-        )
-        base_bias_name = bias_wi.name.removesuffix(".bias")
-        name_out = f"base_model.model.{base_bias_name}.lora_B.bias"
+        # stored whole - lora_B biases would need every adapted module to have one
+        bias_base_name = bias_wi.name.removesuffix(".bias")
+        name_out = f"base_model.model.{bias_base_name}.base_layer.bias"
         targets.append(
             SaveTensor(
                 tensor_name=name_out,
-                tensor_task=tv_bias_task,
+                tensor_task=_wi_load(model_ref, bias_wi),
                 writer_task=writer_task,
                 optional=bias_wi.optional,
                 clone=False,
-- 
2.43.0


From c2002c124921fc870c3c295f25c05360f8f0df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 062/140] fix: extract tied embeddings once

---
 mergekit/scripts/extract_lora.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index c96d504..0b6c602 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -396,6 +396,10 @@ def plan_extraction(
         )
         LOG.warning("Enforcing embeddings in modules_to_save, embed_lora=False")
         embed_lora = False
+    if embed_lora and embed_out is not None and embed_out.weight is embed_in.weight:
+        LOG.warning("Input and output embeddings are tied, a LoRA would apply twice")
+        LOG.warning("Enforcing embeddings in modules_to_save, embed_lora=False")
+        embed_lora = False
     del dummy_base
 
     warned_modules = set()
-- 
2.43.0


From 7b510cc46d4b0d534b95a13542940bcc11eb8383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 063/140] fix: leave out LoRA modules of rank zero

---
 mergekit/scripts/extract_lora.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 0b6c602..1cc3a41 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -246,6 +246,9 @@ class TaskVectorDecompositionTask(
         rank = min(self.max_rank, s.shape[0])
         if self.sv_epsilon > 0:
             rank = min((s > self.sv_epsilon).sum().item(), rank)
+        if rank < 1:
+            # nothing left to approximate, and PEFT has no adapters of rank 0
+            return None, None
         if self.distribute_scale:
             sqrt_s = torch.diag(torch.sqrt(s[:rank]))
             scale_a = sqrt_s
@@ -304,10 +307,6 @@ class LoRAModuleSaveTask(Task):
     ) -> None:
         weight_a, weight_b = decomp
         if weight_a is None or weight_b is None:
-            if not self.weight_info.optional:
-                raise RuntimeError(
-                    f"No SVD decomposition for required weight {self.weight_info.name}"
-                )
             return
         lora_type = "lora_embedding" if self.decomposition_task.transpose else "lora"
         lora_suffix = ".weight" if not self.decomposition_task.transpose else ""
-- 
2.43.0


From be096e9e9c95317dfa1bb31574e57e41b4082b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 064/140] fix: allow LoRA extraction plans without exclusions

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 1cc3a41..cd770d1 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -406,7 +406,7 @@ def plan_extraction(
     def _should_extract(name: str) -> bool:
         if include_regexes and not any(re.search(r, name) for r in include_regexes):
             return False
-        if any(re.search(r, name) for r in exclude_regexes):
+        if any(re.search(r, name) for r in exclude_regexes or []):
             return False
         return True
 
-- 
2.43.0


From 86f9a64b57f066bc48d60db22bf6a35712c67bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:33:56 +0000
Subject: [PATCH 065/140] fix: extract LoRAs from models without an
 architecture definition

---
 mergekit/scripts/extract_lora.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index cd770d1..926bd08 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -16,6 +16,7 @@ import transformers
 from pydantic import BaseModel
 
 from mergekit.architecture import WeightInfo, arch_info_for_config
+from mergekit.architecture.auto import infer_architecture_info
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
@@ -572,6 +573,8 @@ def all_weights_map(
     name_to_wi = {}
     model_cfg = model_ref.config(trust_remote_code=options.trust_remote_code)
     arch_info = arch_info_for_config(model_cfg)
+    if arch_info is None:
+        arch_info = infer_architecture_info((model_ref,), model_ref, options)
     for wi in arch_info.all_weights(model_cfg):
         name_to_wi[wi.name] = wi
     return name_to_wi
-- 
2.43.0


From ae2592d8fdc8d2ac66122ede7abe670dd89060d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 066/140] fix: name exactly the extracted modules in LoRA
 configurations

---
 mergekit/scripts/extract_lora.py | 44 ++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 926bd08..64c33a1 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -116,9 +116,6 @@ def main(
 ):
     merge_options.apply_global_options()
 
-    if not modules_to_save:
-        modules_to_save = []
-
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
     plan_result = plan_extraction(
@@ -169,9 +166,11 @@ def main(
     config_dict = make_config_dict(
         base_ref=base_model_ref,
         max_rank=real_max_rank,
-        modules_to_save=modules_to_save,
-        target_modules=list(
-            set(key.split(".")[-1] for key in module_real_ranks.keys())
+        modules_to_save=peft_module_names(
+            plan_result.saved_modules, plan_result.all_modules
+        ),
+        target_modules=peft_module_names(
+            list(module_real_ranks), plan_result.all_modules
         ),
         module_ranks=module_real_ranks,
     )
@@ -194,6 +193,20 @@ def main(
     LOG.info(f"LoRA adapter extracted to {out_path}")
 
 
+def peft_module_names(selected: List[str], all_modules: List[str]) -> List[str]:
+    """Names by which PEFT finds the selected modules and no others.
+
+    PEFT matches the ends of module names, so the last component of a name is
+    only used if all modules it matches are selected."""
+    selected = set(selected)
+    res = set()
+    for name in selected:
+        key = name.split(".")[-1]
+        unambiguous = all(n in selected for n in all_modules if n.endswith(key))
+        res.add(key if unambiguous else name)
+    return sorted(res)
+
+
 def make_config_dict(
     base_ref: ModelReference,
     max_rank: int,
@@ -355,6 +368,8 @@ class PlanResults(BaseModel):
     tasks: List[Task]
     base_vocab_size: int
     final_vocab_size: int
+    saved_modules: List[str]
+    all_modules: List[str]
 
 
 def plan_extraction(
@@ -372,6 +387,7 @@ def plan_extraction(
     skip_undecomposable: bool = False,
 ) -> PlanResults:
     targets = []
+    saved_modules = []
     writer_task = TensorWriterTask(
         out_path=out_path,
         override_basename="adapter_model",
@@ -429,6 +445,7 @@ def plan_extraction(
             else:
                 continue
 
+        save_whole = name in modules_to_save or name.split(".")[-1] in modules_to_save
         if (
             (not embed_lora)
             and (
@@ -440,13 +457,13 @@ def plan_extraction(
         ):
             # If embeddings are not explicitly excluded but embed_lora is False,
             # save them at full rank instead of decomposing
-            key = name.split(".")[-1]
-            if key not in modules_to_save:
-                LOG.warning(f"Adding {key} to modules_to_save")
-                modules_to_save.append(key)
+            if not save_whole:
+                LOG.warning(f"Adding {name} to modules_to_save")
+            save_whole = True
 
-        if name in modules_to_save or (name.split(".")[-1] in modules_to_save):
+        if save_whole:
             LOG.info(f"Planning to save {name} at full rank")
+            saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
             if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
@@ -472,8 +489,7 @@ def plan_extraction(
                 )
                 if not skip_undecomposable:
                     # into modules_to_save it goes
-                    if key not in modules_to_save:
-                        modules_to_save.append(key)
+                    saved_modules.append(name)
                     targets.extend(
                         plan_module_to_save(model_ref, writer_task, wi, bias_wi)
                     )
@@ -487,6 +503,8 @@ def plan_extraction(
         tasks=targets + [finalize],
         base_vocab_size=base_vocab,
         final_vocab_size=ft_vocab,
+        saved_modules=saved_modules,
+        all_modules=[name for name, _ in dummy_model.named_modules()],
     )
 
 
-- 
2.43.0


From 0b5eb15a0e25a0abae8bca506944b7c1a2700595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 067/140] fix: save convolutions at full rank when extracting
 LoRAs

---
 mergekit/scripts/extract_lora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 64c33a1..66d0176 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -466,7 +466,7 @@ def plan_extraction(
             saved_modules.append(name)
             targets.extend(plan_module_to_save(model_ref, writer_task, wi, bias_wi))
         elif _should_extract(name):
-            if isinstance(module, (nn.Linear, nn.Conv1d, nn.Conv2d, nn.Embedding)):
+            if isinstance(module, (nn.Linear, nn.Embedding)):
                 LOG.info(f"Planning LoRA extraction for {name}")
                 targets.extend(
                     plan_lora_module(
-- 
2.43.0


From 3f52ae06d69b43fcd452b8cadd3cc09f47f23638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:47 +0000
Subject: [PATCH 068/140] fix: save output embeddings that share the input's
 when extracting LoRAs

---
 mergekit/scripts/extract_lora.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 66d0176..675e5d2 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -418,6 +418,14 @@ def plan_extraction(
         embed_lora = False
     del dummy_base
 
+    tied_names = None
+    if embed_out is not None and embed_out.weight is embed_in.weight:
+        tied_names = tuple(
+            f"{name}.weight"
+            for name, module in dummy_model.named_modules()
+            if module is embed_in
+        )
+
     warned_modules = set()
 
     def _should_extract(name: str) -> bool:
@@ -444,6 +452,8 @@ def plan_extraction(
                 )
             else:
                 continue
+        if module is embed_out and tied_names:
+            wi = wi.model_copy(update={"tied_names": tied_names})
 
         save_whole = name in modules_to_save or name.split(".")[-1] in modules_to_save
         if (
-- 
2.43.0


From 74a211b6b9beb44410601ad97ed36160fc3249ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:35 +0000
Subject: [PATCH 069/140] fix: recognise the word start mark of unknown
 tokenizers

---
 mergekit/tokenizer/normalization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mergekit/tokenizer/normalization.py b/mergekit/tokenizer/normalization.py
index cd4b050..1e68e72 100644
--- a/mergekit/tokenizer/normalization.py
+++ b/mergekit/tokenizer/normalization.py
@@ -108,8 +108,12 @@ def normalized_vocabulary(
         else:
             word_start_prefix = "▁"
     else:
-        LOG.warning("Unknown tokenizer type - assuming 'Ġ' word start prefix")
-        word_start_prefix = "Ġ"
+        word_start_prefix = max(
+            ("Ġ", "▁"), key=lambda mark: sum(tok.startswith(mark) for tok in vocab)
+        )
+        LOG.warning(
+            f"Unknown tokenizer type - assuming '{word_start_prefix}' word start prefix"
+        )
 
     return {
         normalize_token(
-- 
2.43.0


From a66dc02190639f564c50b32afbd59756fee87b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:35 +0000
Subject: [PATCH 070/140] fix: pass the sparsity level to the token basis

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c6e079..14a68ee 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -437,7 +437,7 @@ def build_embedding_matrix(
             safe_orig_vocab,
             safe_donor_vocab,
             junk_tokens,
-            options,
+            options.k,
         )
     else:
         token_basis = None
-- 
2.43.0


From 049dbd2a8a6a2ed5630c4de426c29bc81e388a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 071/140] fix: john_hewitt fallback for singular covariances

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 14a68ee..cc12dee 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -238,7 +238,7 @@ def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Ten
         )
         return (
             torch.randn(
-                len(num_new_tokens),
+                num_new_tokens,
                 orig_embed.shape[1],
                 device=orig_embed.device,
                 dtype=orig_embed.dtype,
-- 
2.43.0


From c4f6e165f74fddb016332c352b7e0acdb2b85c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 072/140] fix: noise and scale for mean embeddings

---
 mergekit/scripts/tokensurgeon.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index cc12dee..83dec7e 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -267,7 +267,7 @@ def compute_new_embeddings(
     assert all(t in donor_vocab for t in target_tokens)
     if options.method == ApproximationMethod.MEAN:
         mean = orig_embed.mean(dim=0)
-        return mean.unsqueeze(0).expand(len(target_tokens), -1)
+        return mean.unsqueeze(0).repeat(len(target_tokens), 1)
     elif options.method == ApproximationMethod.ZERO:
         return torch.zeros(
             len(target_tokens),
-- 
2.43.0


From 382e3edbc999f861063d8af26f221813dc5d3252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 073/140] fix: apply prefix and byte matches to the embeddings
 they name

---
 mergekit/scripts/tokensurgeon.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 83dec7e..ad9819a 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -717,8 +717,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
             is_lm_head=False,
             options=options,
         )
@@ -741,8 +741,8 @@ def main(
             orig_vocab=orig_vocab,
             donor_vocab=donor_vocab,
             junk_tokens=junk_tokens,
-            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
-            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.EMBED_ONLY),
+            allow_prefix=prefix_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
+            allow_byte=byte_match in (AllowMatch.YES, AllowMatch.LM_HEAD_ONLY),
             is_lm_head=True,
             options=options,
         )
-- 
2.43.0


From 6197ae77dded26d7002426739b528c8f35be497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 074/140] fix: weigh the last subword most for input embeddings

---
 mergekit/tokensurgeon/subword.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index e30cc26..8811bbc 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -41,7 +41,7 @@ def subword_approximate(
                 res[idx] /= len(token_ids)
         elif subword_method == SubwordMethod.WEIGHTED_MEAN:
             weights = list(range(1, len(token_ids) + 1))
-            if not is_lm_head:
+            if is_lm_head:
                 # for embed_tokens, want last token to have highest weight
                 # (vs. first token for lm_head)
                 weights = weights[::-1]
-- 
2.43.0


From 8cfd83776cf701d3eea42d754f4dbbe3ff59152b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 075/140] fix: skip subwords without an embedding

---
 mergekit/tokensurgeon/subword.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/subword.py b/mergekit/tokensurgeon/subword.py
index 8811bbc..e902559 100644
--- a/mergekit/tokensurgeon/subword.py
+++ b/mergekit/tokensurgeon/subword.py
@@ -32,7 +32,11 @@ def subword_approximate(
     )
     for idx, token in enumerate(target_tokens):
         text = unnormalize_token(token)
-        token_ids = tok_0(text, add_special_tokens=False)["input_ids"]
+        token_ids = [
+            id
+            for id in tok_0(text, add_special_tokens=False)["input_ids"]
+            if id < orig_embed.shape[0]
+        ]
 
         if subword_method in (SubwordMethod.MEAN, SubwordMethod.SUM):
             for id in token_ids:
-- 
2.43.0


From 7b5ca486623840f2c377cba940c34e6642c0a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 076/140] fix: transplant tokenizers into models without an
 output embedding

---
 mergekit/scripts/tokensurgeon.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index ad9819a..86042a0 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -159,12 +159,14 @@ def get_stuff(
         aliases=maybe_aliases(embed_wi, get_tied),
         raise_on_missing=not embed_wi.optional,
     )
-    lm_head = loader.get_tensor(
-        lm_head_wi.name,
-        device=device,
-        aliases=maybe_aliases(lm_head_wi, get_tied),
-        raise_on_missing=not lm_head_wi.optional,
-    )
+    lm_head = None
+    if lm_head_wi is not None:
+        lm_head = loader.get_tensor(
+            lm_head_wi.name,
+            device=device,
+            aliases=maybe_aliases(lm_head_wi, get_tied),
+            raise_on_missing=not lm_head_wi.optional,
+        )
     return vocab, embed, lm_head
 
 
@@ -747,7 +749,7 @@ def main(
             options=options,
         )
     else:
-        if not lm_head_wi.optional:
+        if lm_head_wi is not None and not lm_head_wi.optional:
             raise RuntimeError(
                 f"Missing tensor {lm_head_wi.name} in model {options.model}"
             )
-- 
2.43.0


From 681d07ca74f73acb6ca57ad3aeca10a420f1258e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 077/140] fix: interpolate half precision embeddings in single
 precision

---
 mergekit/scripts/tokensurgeon.py              | 3 ++-
 mergekit/tokensurgeon/common_interpolation.py | 4 ++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 86042a0..c3cb621 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -345,7 +345,8 @@ def compute_new_embeddings(
         if res is None:
             res = (
                 torch.bmm(
-                    coeffs.unsqueeze(1), orig_shared_embeds[indices].to(torch.float)
+                    coeffs.unsqueeze(1).float(),
+                    orig_shared_embeds[indices].to(torch.float),
                 )
                 .squeeze(1)
                 .to(orig_embed.dtype)
diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 0f1dde3..77cf931 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -90,6 +90,10 @@ def common_interp_approximate(
     assert targets.size(1) == a_embeddings.size(1)
     assert (k is None) or (k > 0), "k must be positive"
 
+    if targets.dtype not in (torch.float32, torch.float64):
+        targets = targets.float()
+    a_embeddings = a_embeddings.to(targets.dtype)
+
     if metric == DistanceMetric.EUCLIDEAN:
         distances = torch.cdist(targets, a_embeddings, p=2)
     elif metric == DistanceMetric.COSINE:
-- 
2.43.0


From 72f7ffd7a62eede815eb49331ac45fe55d8a2e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 078/140] fix: lfm2's embedding norm is not an embedding

---
 mergekit/_data/architectures/lfm2.json | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mergekit/_data/architectures/lfm2.json b/mergekit/_data/architectures/lfm2.json
index 6175d28..067cdd6 100644
--- a/mergekit/_data/architectures/lfm2.json
+++ b/mergekit/_data/architectures/lfm2.json
@@ -9,8 +9,7 @@
             "is_embed": true
         },
         {
-            "name": "model.embedding_norm.weight",
-            "is_embed": true
+            "name": "model.embedding_norm.weight"
         }
     ],
     "post_weights": [
-- 
2.43.0


From d888b36ed48dd8514c4e199cb929e0251f24bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 079/140] fix: load converted tensors when transplanting
 tokenizers

---
 mergekit/scripts/tokensurgeon.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index c3cb621..87251c6 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -21,6 +21,7 @@ from mergekit.architecture.auto import infer_architecture_info
 from mergekit.common import ModelReference, set_config_value
 from mergekit.io.tasks import (
     LoaderCache,
+    LoadTensor,
 )
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -778,9 +779,12 @@ def main(
         elif lm_head_wi is not None and weight_info.name == lm_head_wi.name:
             tensor = new_lm_head
         else:
-            tensor = cache.get(options.model).get_tensor(
-                weight_info.name, aliases=weight_info.aliases, raise_on_missing=False
-            )
+            tensor = LoadTensor(
+                model=options.model,
+                tensor=weight_info.name,
+                optional=True,
+                aliases=weight_info.aliases,
+            ).execute()
         if tensor is None:
             if weight_info.optional:
                 continue
-- 
2.43.0


From f211155fcc0f96a03d74b6c993ec2308f1e3a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:36 +0000
Subject: [PATCH 080/140] fix: find the RoPE base in current configurations

---
 mergekit/scripts/tokensurgeon.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 87251c6..00fb6f2 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -229,6 +229,16 @@ def get_out_arch_info(
     return ConfiguredModelArchitecture(info=arch_info_out, config=cfg_out)
 
 
+def get_rope_base(config: transformers.PretrainedConfig) -> float:
+    base = getattr(config, "rope_theta", None)
+    if base is None:
+        # newer transformers keep it with the other RoPE parameters
+        params = getattr(config, "rope_parameters", None) or {}
+        params = params.get("full_attention", params)
+        base = params.get("rope_theta", None)
+    return base if base is not None else 10000.0
+
+
 def john_hewitt_init(orig_embed: torch.Tensor, num_new_tokens: int) -> torch.Tensor:
     orig_embed_f32 = orig_embed.to(torch.float32)
     mean = orig_embed_f32.mean(dim=0)
@@ -337,8 +347,8 @@ def compute_new_embeddings(
                 k=options.k,
                 num_heads_a=donor_config.num_attention_heads,
                 num_heads_b=model_config.num_attention_heads,
-                a_rope_base=donor_config.rope_theta,
-                b_rope_base=model_config.rope_theta,
+                a_rope_base=get_rope_base(donor_config),
+                b_rope_base=get_rope_base(model_config),
             )
         else:
             indices, coeffs = batch_omp(targets, donor_shared_embeds, options.k)
-- 
2.43.0


From 846dbb551c3655b427200e624f1749dc26097a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:16 +0000
Subject: [PATCH 081/140] fix: rotate landmark PCA targets towards the base
 model

---
 mergekit/tokensurgeon/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/pca.py b/mergekit/tokensurgeon/pca.py
index 9a1a8fc..f50ee73 100644
--- a/mergekit/tokensurgeon/pca.py
+++ b/mergekit/tokensurgeon/pca.py
@@ -50,7 +50,7 @@ def landmark_pca_approximate(
     B_pca = torch.mm(centered_b, V_b)  # (N, effective_dim)
 
     # Compute Procrustes matrix and solve for optimal rotation
-    M = torch.mm(B_pca.t(), A_pca)  # (effective_dim, effective_dim)
+    M = torch.mm(A_pca.t(), B_pca)  # (effective_dim, effective_dim)
     U, S, V = torch.svd(M)
     R = torch.mm(U, V.t())  # (effective_dim, effective_dim)
 
-- 
2.43.0


From f62de5b25d574eb8fc8f03102904a2d11eb618e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:16 +0000
Subject: [PATCH 082/140] fix: give linearly dependent OMP atoms no weight

---
 mergekit/tokensurgeon/omp.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/mergekit/tokensurgeon/omp.py b/mergekit/tokensurgeon/omp.py
index 1ce3979..73c6df4 100644
--- a/mergekit/tokensurgeon/omp.py
+++ b/mergekit/tokensurgeon/omp.py
@@ -50,6 +50,8 @@ def batch_omp(
     r = torch.zeros((B, k, k), dtype=work_dtype, device=device)
     selected_indices = torch.zeros((B, k), dtype=torch.long, device=device)
     mask = torch.zeros((B, N), dtype=torch.bool, device=device)
+    # atoms in the span of those before them, which get a coefficient of zero
+    dependent = torch.zeros((B, k), dtype=torch.bool, device=device)
     residuals = targets_work.clone()
 
     for t in range(k):
@@ -65,10 +67,10 @@ def batch_omp(
         mask[torch.arange(B, device=device), new_idx] = True
 
         new_atom = points_work[new_idx]  # (B, D)
+        atom_norm = new_atom.norm(dim=1)
         if t == 0:
-            r[:, 0, 0] = new_atom.norm(dim=1)
-            norm = r[:, 0, 0].clamp(min=eps)
-            q[:, :, 0] = new_atom / norm.unsqueeze(1)
+            residual = new_atom
+            norm = atom_norm
         else:
             # Project onto existing basis
             projections = torch.bmm(
@@ -81,17 +83,20 @@ def batch_omp(
             ).squeeze(
                 -1
             )  # (B, D)
-            norm = torch.clamp(torch.norm(residual, dim=1), min=eps)
-            # Update R and Q
+            norm = torch.norm(residual, dim=1)
             r[:, :t, t] = projections
-            r[:, t, t] = norm
-            q[:, :, t] = residual / norm.unsqueeze(-1)
-
-        if t > 0 and t % reorthogonalize_interval == 0:
-            q_b = q[:, :, : t + 1]
-            q_new, r_new = torch.linalg.qr(q_b, mode="reduced")
-            r[:, : t + 1, : t + 1] = torch.bmm(r_new, r[:, : t + 1, : t + 1])
-            q[:, :, : t + 1] = q_new
+        # Update R and Q
+        dependent[:, t] = norm <= (1e-4 * atom_norm).clamp(min=eps)
+        r[:, t, t] = norm.masked_fill(dependent[:, t], 1.0)
+        q[:, :, t] = (residual / r[:, t, t].unsqueeze(-1)).masked_fill(
+            dependent[:, t].unsqueeze(-1), 0.0
+        )
+
+        if 0 < t < D and t % reorthogonalize_interval == 0:
+            rows = ~dependent[:, : t + 1].any(dim=1)
+            q_new, r_new = torch.linalg.qr(q[rows, :, : t + 1], mode="reduced")
+            r[rows, : t + 1, : t + 1] = torch.bmm(r_new, r[rows, : t + 1, : t + 1])
+            q[rows, :, : t + 1] = q_new
 
         qt_targets = torch.bmm(
             q[:, :, : t + 1].transpose(1, 2), targets_work.unsqueeze(-1)
-- 
2.43.0


From 5ce96b864200b9ce533cfd456b6c9073fc5b44fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:19 +0000
Subject: [PATCH 083/140] fix: give dissimilar neighbours no weight in cosine
 interpolation

---
 mergekit/tokensurgeon/common_interpolation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokensurgeon/common_interpolation.py b/mergekit/tokensurgeon/common_interpolation.py
index 77cf931..951b18d 100644
--- a/mergekit/tokensurgeon/common_interpolation.py
+++ b/mergekit/tokensurgeon/common_interpolation.py
@@ -40,7 +40,8 @@ def approximate_from_landmarks(
 
     if scheme == WeightingScheme.DISTANCE_PROPORTIONAL:
         if cosine_similarity:
-            weights = 1 - distances
+            # the sum of similarities of either sign may be arbitrarily small
+            weights = (1 - distances).clamp_min(0)
         else:
             weights = 1 / distances.clamp_min(1e-6)
         weights = weights / weights.sum(dim=1, keepdim=True).clamp_min(1e-6)
-- 
2.43.0


From f04ecf1c04e6e34bbce3c49e6d1235ae6003e9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:50 +0000
Subject: [PATCH 084/140] fix: transplant the bias of output embeddings with
 its rows

---
 mergekit/scripts/tokensurgeon.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 00fb6f2..6c80f77 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -537,6 +537,21 @@ def build_embedding_matrix(
     return res
 
 
+def build_output_bias(
+    orig_bias: torch.Tensor,
+    orig_vocab: Dict[NormalizedToken, int],
+    donor_vocab: Dict[NormalizedToken, int],
+    num_rows: int,
+) -> torch.Tensor:
+    """Bias for a transplanted output embedding: new tokens get the mean."""
+    res = orig_bias.float().mean().to(orig_bias.dtype).repeat(num_rows)
+    for token, donor_idx in donor_vocab.items():
+        orig_idx = orig_vocab.get(token, None)
+        if orig_idx is not None and orig_idx < orig_bias.shape[0]:
+            res[donor_idx] = orig_bias[orig_idx]
+    return res
+
+
 class AllowMatch(enum.Enum):
     LM_HEAD_ONLY = "lm_head"
     EMBED_ONLY = "embed"
@@ -795,6 +810,16 @@ def main(
                 optional=True,
                 aliases=weight_info.aliases,
             ).execute()
+            if (
+                tensor is not None
+                and lm_head_wi is not None
+                and new_lm_head is not None
+                and weight_info.name
+                == lm_head_wi.name.removesuffix(".weight") + ".bias"
+            ):
+                tensor = build_output_bias(
+                    tensor, orig_vocab, donor_vocab, new_lm_head.shape[0]
+                )
         if tensor is None:
             if weight_info.optional:
                 continue
-- 
2.43.0


From fc2251544e9ddb9aa32dfd1288c131de0750b6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 085/140] fix: keep model references intact when written out

A path containing a space or a double quote made serialization recurse
forever (ValueError), so merging without a configuration source failed
for such a model. Paths containing '@' or '+', and models called union or
base, were written as strings that read back as something else.
---
 mergekit/common.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index ce0537e..8fee52e 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -223,8 +223,19 @@ class ModelReference(BaseModel, frozen=True):
                 "override_architecture": self.override_architecture,
             }
         res = str(self)
-        if '"' in res or " " in res:
-            return self
+        try:
+            unambiguous = (
+                res not in ("union", "base")
+                and ModelReference.model_validate(res) == self
+            )
+        except (RuntimeError, ValueError):
+            unambiguous = False
+        if not unambiguous:
+            return {
+                "model": self.model,
+                "lora": self.lora,
+                "override_architecture": None,
+            }
         return res
 
     @classmethod
-- 
2.43.0


From 23affc581a5afb9433101847e02c2358b8101f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 086/140] fix: write the model card for local models without
 network access

A model given by a relative path of at most two components was looked up
on the hub. Without network that raised an error after all weights had been
computed, and the output was left without tokenizer.
---
 mergekit/card.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/card.py b/mergekit/card.py
index aab595c..1e1a823 100644
--- a/mergekit/card.py
+++ b/mergekit/card.py
@@ -1,6 +1,7 @@
 # Copyright (C) 2026 Arcee AI
 # SPDX-License-Identifier: LGPL-3.0-only
 
+import logging
 import os
 from typing import Generator, List, Optional
 
@@ -12,6 +13,8 @@ from yaml.nodes import SequenceNode as SequenceNode
 from mergekit import merge_methods
 from mergekit.config import MergeConfiguration, ModelReference
 
+LOG = logging.getLogger(__name__)
+
 CARD_TEMPLATE = """---
 {metadata}
 ---
@@ -74,6 +77,9 @@ def is_hf(path: str) -> bool:
         return huggingface_hub.repo_exists(path, repo_type="model", token=False)
     except HFValidationError:
         return False
+    except Exception as e:
+        LOG.warning(f"Unable to look up {path} on the hub, assuming a local path: {e}")
+        return False
 
 
 def extract_hf_paths(models: List[ModelReference]) -> Generator[str, None, None]:
-- 
2.43.0


From 34662a615990643ee244b4bc5b6bb282081606be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 087/140] fix: do not modify the dict that merge options are
 validated from

Reusing it with another setting kept the device derived from the first one.
---
 mergekit/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/options.py b/mergekit/options.py
index f06c02e..3ec26ce 100644
--- a/mergekit/options.py
+++ b/mergekit/options.py
@@ -59,6 +59,7 @@ class MergeOptions(BaseModel, frozen=True):
     @model_validator(mode="before")
     def handle_gpu_rich(cls, value):
         if isinstance(value, dict) and value.get("gpu_rich"):
+            value = dict(value)
             value["cuda"] = True
             value["low_cpu_memory"] = True
             value["read_to_gpu"] = True
@@ -70,6 +71,7 @@ class MergeOptions(BaseModel, frozen=True):
         if not isinstance(value, dict):
             return value
 
+        value = dict(value)
         # If `device` is not set, determine it based on other flags
         if not value.get("device"):
             if value.get("cuda") or value.get("gpu_rich"):
-- 
2.43.0


From dec018f88b0aa25bc4225df4fbc1a899aaa2bba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 088/140] fix: name merges wherever a model can be named, and
 nowhere else

Every string of the recipe equal to the name of a merge was replaced by a
path: a merge called linear, union, float16 or like a parameter filter broke
the recipes that use these words.
---
 mergekit/scripts/multimerge.py | 50 +++++++++++++---------------------
 1 file changed, 19 insertions(+), 31 deletions(-)

diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 1735d4c..0b841e5 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -3,10 +3,11 @@
 
 import logging
 import os
-from typing import Dict, Optional, Set, Tuple, Union
+from typing import Any, Dict, Optional, Set, Tuple
 
 import click
 import yaml
+from pydantic import BaseModel
 
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import MergeConfiguration
@@ -133,39 +134,26 @@ def patched_config(config: MergeConfiguration, merge_names: Set[str], working_di
     """
     used = set()
 
-    def _patch_mr(value: Union[dict, list, str, int, None]):
-        nonlocal used
-        if isinstance(value, list):
-            return [_patch_mr(x) for x in value]
-        elif isinstance(value, dict):
-            if set(value.keys()) == {"model", "lora", "override_architecture"}:
-                # is a ModelReference
-                base = value["model"]["path"]
-                if base in merge_names:
-                    value["model"] = value["model"].copy()
-                    value["model"]["path"] = os.path.join(working_dir, base)
-                    used.add(base)
+    def _patch(value: Any):
+        if isinstance(value, ModelReference):
+            if value.model.path not in merge_names:
                 return value
-            return {k: _patch_mr(v) for k, v in value.items()}
-        elif isinstance(value, str):
-            try:
-                mr = ModelReference.model_validate(value)
-                if mr.model.path in merge_names:
-                    used.add(mr.model.path)
-                    return ModelReference(
-                        model={
-                            "path": os.path.join(working_dir, mr.model.path),
-                            "revision": mr.model.revision,
-                        },
-                        lora=mr.lora,
-                        override_architecture=mr.override_architecture,
-                    ).model_dump()
-            except ValueError:
-                pass
+            used.add(value.model.path)
+            path = os.path.join(working_dir, value.model.path)
+            return value.model_copy(
+                update={"model": value.model.model_copy(update={"path": path})}
+            )
+        elif isinstance(value, BaseModel):
+            return value.model_copy(
+                update={k: _patch(getattr(value, k)) for k in value.model_fields_set}
+            )
+        elif isinstance(value, list):
+            return [_patch(x) for x in value]
+        elif isinstance(value, dict):
+            return {k: _patch(v) for k, v in value.items()}
         return value
 
-    new_dict = _patch_mr(config.model_dump())
-    return MergeConfiguration.model_validate(new_dict), used
+    return _patch(config), used
 
 
 def make_tasks(
-- 
2.43.0


From ad698866f2f0d0a012ee29dfb7205aa54ba9b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:31 +0000
Subject: [PATCH 089/140] fix: do not take an interrupted merge for a finished
 one

config.json was written before the model card, the tokenizer and the other
files, and an earlier one stayed in place while a merge was redone, so
mergekit-multi reused outputs of merges that had been interrupted.
---
 mergekit/merge.py              | 7 ++++---
 mergekit/scripts/multimerge.py | 5 +++++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index 5a2ccb8..a00f46c 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -97,9 +97,6 @@ def run_merge(
             cfg_out, arch_info, tokenizer, pad_to_multiple_of=pad_to_multiple_of
         )
 
-    LOG.info("Saving config")
-    cfg_out.save_pretrained(out_path)
-
     if options.write_model_card:
         if not config_source:
             config_source = merge_config.to_yaml()
@@ -144,6 +141,10 @@ def run_merge(
         options=options,
     )
 
+    # last, as the presence of the config marks a finished merge
+    LOG.info("Saving config")
+    cfg_out.save_pretrained(out_path)
+
     if getattr(arch_info, "post_fill_parameters", False):
         from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
 
diff --git a/mergekit/scripts/multimerge.py b/mergekit/scripts/multimerge.py
index 0b841e5..e22c191 100644
--- a/mergekit/scripts/multimerge.py
+++ b/mergekit/scripts/multimerge.py
@@ -49,6 +49,11 @@ class MergeModelTask(Task[str]):
             LOG.info(f"Model already exists at {self.out_path}, skipping")
             return self.out_path
 
+        # the config marks a finished merge, so an earlier one must not stay
+        config_path = os.path.join(self.out_path, "config.json")
+        if os.path.exists(config_path):
+            os.remove(config_path)
+
         LOG.info(f"Running merge for {self.name}")
         cfg = MergeConfiguration.model_validate(yaml.safe_load(self.config_yaml))
 
-- 
2.43.0


From 43830ba602b849fd3805c9a0b211927c289d3570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:42 +0000
Subject: [PATCH 090/140] fix: accept models with revision and adapter as
 sources of single tokens

All alternatives for a token's source were tried, and the RuntimeError from
parsing 'model@rev+lora@rev' as a plain path ended validation.
---
 mergekit/tokenizer/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mergekit/tokenizer/config.py b/mergekit/tokenizer/config.py
index ae35c10..d84e2c1 100644
--- a/mergekit/tokenizer/config.py
+++ b/mergekit/tokenizer/config.py
@@ -30,7 +30,9 @@ class ZeroEmbedding(BaseModel, frozen=True):
 
 
 class TokenEmbeddingConfig(BaseModel, frozen=True):
-    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = None
+    source: Union[ModelTokenEmbedding, ZeroEmbedding, ModelReference, None] = (
+        pydantic.Field(default=None, union_mode="left_to_right")
+    )
     force: bool = False
 
 
-- 
2.43.0


From de747a937ff28336dfeaaa95898205fcc6686858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:10 +0000
Subject: [PATCH 091/140] fix: keep the order of modules when writing a recipe

The recipe written with a model listed modules alphabetically, which changes
the first model, and with it config and tokenizer, when it is run again.
---
 mergekit/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/config.py b/mergekit/config.py
index dd04990..ec58a4b 100644
--- a/mergekit/config.py
+++ b/mergekit/config.py
@@ -148,6 +148,7 @@ class MergeConfiguration(BaseModel):
         return yaml.dump(
             self.model_dump(exclude_defaults=True, mode="json"),
             Dumper=ConfigYamlDumper,
+            sort_keys=False,
         ).rstrip()
 
 
-- 
2.43.0


From 1d8711a761fca3b3c44c9f34ac3a5c296bda8f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:34 +0000
Subject: [PATCH 092/140] fix: write the config of a merged model in one step

A merge stopped while config.json was being written left a truncated one,
and mergekit-multi took that output for finished.
---
 mergekit/merge.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index a00f46c..f056594 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -6,6 +6,7 @@ import importlib.resources
 import logging
 import os
 import shutil
+import tempfile
 from collections import Counter
 from typing import List, Optional, Tuple
 
@@ -141,9 +142,14 @@ def run_merge(
         options=options,
     )
 
-    # last, as the presence of the config marks a finished merge
+    # last and in one step, as the presence of the config marks a finished merge
     LOG.info("Saving config")
-    cfg_out.save_pretrained(out_path)
+    with tempfile.TemporaryDirectory(dir=out_path, prefix="tmp") as tmp_dir:
+        cfg_out.save_pretrained(tmp_dir)
+        for file_name in sorted(os.listdir(tmp_dir), key="config.json".__eq__):
+            os.replace(
+                os.path.join(tmp_dir, file_name), os.path.join(out_path, file_name)
+            )
 
     if getattr(arch_info, "post_fill_parameters", False):
         from mergekit.scripts.fill_missing_params import copy_and_fill_missing_params
-- 
2.43.0


From 9441c46616f067511404d9ac1b16ef55d061a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 093/140] fix: read parameters of raw merges like those of
 other merges

A tensor parameter given neither for the model nor globally raised
IndexError, a model without parameters AttributeError, values of zero fell
through to the next level, and a base model that is not among the models had
no parameters at all.
---
 mergekit/scripts/merge_raw_pytorch.py | 29 +++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 3b84d2b..81799ad 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -184,21 +184,24 @@ def construct_param_dicts(
             else:
                 global_params[param_def.name] = param_def.default_value
 
+    model_settings = {
+        model_def.model: model_def.parameters or {} for model_def in config.models
+    }
+    if config.base_model is not None:
+        model_settings.setdefault(config.base_model, {})
+
     tensor_params = {}
-    for param_def in merge_method.tensor_parameters():
-        for model_def in config.models:
-            mr = ModelReference.model_validate({"model": {"path": model_def.model}})
-            tensor_params[mr] = tensor_params.get(mr, {})
-            if value := evaluate_setting(
-                tensor_name, model_def.parameters.get(param_def.name, [])
-            ):
-                tensor_params[mr][param_def.name] = value
-            elif value := evaluate_setting(
-                tensor_name,
-                config.parameters.get(param_def.name, []) if config.parameters else [],
-            ):
+    for model, settings in model_settings.items():
+        mr = ModelReference.model_validate({"model": {"path": model}})
+        tensor_params[mr] = {}
+        for param_def in merge_method.tensor_parameters():
+            value = None
+            for level in (settings, config.parameters or {}):
+                if value is None and param_def.name in level:
+                    value = evaluate_setting(tensor_name, level[param_def.name])
+            if value is not None:
                 tensor_params[mr][param_def.name] = value
-            elif param_def.required:
+            elif param_def.required and model != config.base_model:
                 raise RuntimeError(
                     f"Missing required parameter {param_def.name} for model {mr} tensor {tensor_name}"
                 )
-- 
2.43.0


From f30e9c8a8a04700fad650956ffa60d2e56b57b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 094/140] fix: count the tensors of the base model of a raw
 merge

Tensors only the base model has were neither reported as missing nor part
of the union of all tensors.
---
 mergekit/scripts/merge_raw_pytorch.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 81799ad..289bf4b 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -84,8 +84,11 @@ def plan_flat_merge(
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = set()
-    for model_def in tqdm.tqdm(config.models, desc="Preparing model loaders"):
-        loader = loaders.get(model_def.model)
+    models = [model_def.model for model_def in config.models]
+    if config.base_model is not None and config.base_model not in models:
+        models.append(config.base_model)
+    for model in tqdm.tqdm(models, desc="Preparing model loaders"):
+        loader = loaders.get(model)
         all_tensor_names.update(loader.index.tensor_paths.keys())
 
     writer_task = TensorWriterTask(
@@ -99,15 +102,11 @@ def plan_flat_merge(
     save_tasks = []
     for tensor_name in tqdm.tqdm(list(all_tensor_names), desc="Planning operations"):
         inputs = {
-            model_def.model: SimpleLoadTensor(
-                model=model_def.model, tensor_name=tensor_name, dtype=config.dtype
+            model: SimpleLoadTensor(
+                model=model, tensor_name=tensor_name, dtype=config.dtype
             )
-            for model_def in config.models
+            for model in models
         }
-        if config.base_model is not None and config.base_model not in inputs:
-            inputs[config.base_model] = SimpleLoadTensor(
-                model=config.base_model, tensor_name=tensor_name, dtype=config.dtype
-            )
 
         has_tensor = [
             lt.model
-- 
2.43.0


From ea507c40af22e1625cae355158080fc49106d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:14 +0000
Subject: [PATCH 095/140] fix: merge each tensor of a union from the models
 that have it

With --tensor-union, the models that lack a tensor were asked for it, and the
merge failed with KeyError.
---
 mergekit/scripts/merge_raw_pytorch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 289bf4b..2b5a2ca 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -117,7 +117,7 @@ def plan_flat_merge(
             if tensor_intersection:
                 continue
             elif tensor_union:
-                pass
+                inputs = {model: inputs[model] for model in has_tensor}
             else:
                 missing = set(inputs) - set(has_tensor)
                 logging.warning(f"Tensor {tensor_name} not found in models:")
-- 
2.43.0


From e6af58ddffb507019367ad649e34bf236599a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:12 +0000
Subject: [PATCH 096/140] fix: plan raw merges in an order that does not depend
 on the hash seed

The tensors, and the models of each, were processed in the order of a set or
map of strings, so a random seed did not make randomized raw merges
reproducible.
---
 mergekit/scripts/merge_raw_pytorch.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index 2b5a2ca..dc496a8 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -83,13 +83,13 @@ def plan_flat_merge(
 
     loaders = SimpleLoaderCache()
     loaders.lazy_unpickle = options.lazy_unpickle
-    all_tensor_names = set()
+    all_tensor_names = {}  # ordered, unlike a set
     models = [model_def.model for model_def in config.models]
     if config.base_model is not None and config.base_model not in models:
         models.append(config.base_model)
     for model in tqdm.tqdm(models, desc="Preparing model loaders"):
         loader = loaders.get(model)
-        all_tensor_names.update(loader.index.tensor_paths.keys())
+        all_tensor_names.update(dict.fromkeys(loader.index.tensor_paths))
 
     writer_task = TensorWriterTask(
         out_path=out_path,
@@ -139,7 +139,7 @@ def plan_flat_merge(
 
         tensor_task = merge_method.make_task(
             output_weight=WeightInfo(name=tensor_name),
-            tensors=TensorDictWrapper(tensors=inputs),
+            tensors=TensorDictWrapper(tensors=ImmutableMap(data=inputs)),
             parameters=ImmutableMap(global_params),
             tensor_parameters=ImmutableMap(
                 data={
-- 
2.43.0


From fadb31eee152234fef4cc8289e775fdb7456d0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:12 +0000
Subject: [PATCH 097/140] fix: read the inputs of each raw merge anew

Files that changed since an earlier merge in the same process were read with
their old index, or their old contents.
---
 mergekit/scripts/merge_raw_pytorch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mergekit/scripts/merge_raw_pytorch.py b/mergekit/scripts/merge_raw_pytorch.py
index dc496a8..a525164 100644
--- a/mergekit/scripts/merge_raw_pytorch.py
+++ b/mergekit/scripts/merge_raw_pytorch.py
@@ -82,6 +82,8 @@ def plan_flat_merge(
     merge_method = merge_methods.get(config.merge_method)
 
     loaders = SimpleLoaderCache()
+    # the options or the files may have changed since the last merge
+    loaders.loaders.clear()
     loaders.lazy_unpickle = options.lazy_unpickle
     all_tensor_names = {}  # ordered, unlike a set
     models = [model_def.model for model_def in config.models]
-- 
2.43.0


From 688dcd05872c66f3be67f7f04ba1c6ddcaacef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:39 +0000
Subject: [PATCH 098/140] fix: count layers and keep models as given when
 shuffling layers

---
 mergekit/scripts/layershuffle.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index e961427..d5692d5 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -65,21 +65,26 @@ def main(
 
     m0_cfg = models[0].config()
     arch_info = arch_info_for_config(m0_cfg)
-    total_num_layers = arch_info.num_layers(m0_cfg)
+    if len(arch_info.modules) != 1:
+        raise click.UsageError("Models with multiple modules are not supported")
+    module_arch = list(arch_info.modules.values())[0].architecture
+    total_num_layers = module_arch.num_layers(m0_cfg)
+    if not weight:
+        weight = [1.0 / len(models)] * len(models)
 
     out_slices: List[OutputSliceDefinition] = []
 
     if full_random:
         for model, frac in zip(models, weight):
             cfg = model.config()
-            num_layers = int(arch_info.num_layers(cfg) * frac)
-            for _ in range(num_layers):
-                src_idx = random.randrange(0, num_layers)
+            model_layers = module_arch.num_layers(cfg)
+            for _ in range(int(model_layers * frac)):
+                src_idx = random.randrange(0, model_layers)
                 out_slices.append(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(model),
+                                model=model,
                                 layer_range=(src_idx, src_idx + 1),
                             )
                         ]
@@ -89,7 +94,7 @@ def main(
     else:
         for layer_idx in range(total_num_layers):
             src_model = random.choices(models, weights=weight, k=1)[0]
-            if out_slices and out_slices[-1].sources[0].model == str(src_model):
+            if out_slices and out_slices[-1].sources[0].model == src_model:
                 out_slices[-1].sources[0].layer_range = (
                     out_slices[-1].sources[0].layer_range[0],
                     layer_idx + 1,
@@ -99,7 +104,7 @@ def main(
                     OutputSliceDefinition(
                         sources=[
                             InputSliceDefinition(
-                                model=str(src_model),
+                                model=src_model,
                                 layer_range=(layer_idx, layer_idx + 1),
                             )
                         ]
-- 
2.43.0


From 63a88fb7cf61f3ea306ab182f0bdf394e7729d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:39 +0000
Subject: [PATCH 099/140] fix: default weights of legacy merges to 1.0

---
 mergekit/scripts/legacy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index 922a9a9..c774325 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -96,11 +96,11 @@ def main(
         assert len(weight) == 1, "Must specify exactly one weight for SLERP"
         parameters["t"] = weight[0]
     else:
-        if weight:
-            if len(weight) == 1:
-                weight = [weight[0]] * len(models)
-            for idx, w in enumerate(weight):
-                models[idx].parameters["weight"] = w
+        weight = weight or [1.0]
+        if len(weight) == 1:
+            weight = [weight[0]] * len(models)
+        for idx, w in enumerate(weight):
+            models[idx].parameters["weight"] = w
 
     if int8_mask:
         parameters["int8_mask"] = True
-- 
2.43.0


From 2cc727a7996c3090498196aa43108e84b38354d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:39 +0000
Subject: [PATCH 100/140] fix: build slices of bakllama merges

---
 mergekit/scripts/bakllama.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/mergekit/scripts/bakllama.py b/mergekit/scripts/bakllama.py
index e2d4b04..9dc0991 100644
--- a/mergekit/scripts/bakllama.py
+++ b/mergekit/scripts/bakllama.py
@@ -7,13 +7,14 @@ import click
 import yaml
 from pydantic import BaseModel
 
-from mergekit.common import MergeOptions
 from mergekit.config import (
     ConditionalParameter,
     InputSliceDefinition,
     MergeConfiguration,
+    OutputSliceDefinition,
 )
 from mergekit.merge import run_merge
+from mergekit.options import MergeOptions
 
 
 class LayerSlice(BaseModel):
@@ -58,8 +59,14 @@ def main(
                 value=s.scale, filter="down_proj"
             )
         slices.append(
-            InputSliceDefinition(
-                model=s.model, layer_range=(s.start, s.end), parameters=parameters
+            OutputSliceDefinition(
+                sources=[
+                    InputSliceDefinition(
+                        model=s.model,
+                        layer_range=(s.start, s.end),
+                        parameters=parameters,
+                    )
+                ]
             )
         )
 
-- 
2.43.0


From 32c51f714bb84c9cba6c36994165cc302b2b30ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:27 +0000
Subject: [PATCH 101/140] fix: lazily read pickled files that were renamed

---
 mergekit/io/lazy_unpickle.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/mergekit/io/lazy_unpickle.py b/mergekit/io/lazy_unpickle.py
index 95545fa..297e3d8 100644
--- a/mergekit/io/lazy_unpickle.py
+++ b/mergekit/io/lazy_unpickle.py
@@ -134,7 +134,8 @@ class TorchArchiveReader:
 
     def __init__(self, path: str):
         self.archive = zipfile.ZipFile(path, mode="r")
-        self.archive_name = os.path.basename(os.path.normpath(path)).split(".")[0]
+        # named after the file as it was first saved, whatever it is called now
+        self.archive_name = self.archive.namelist()[0].split("/", 1)[0]
 
     def open_file(self, file_name: str, offset: int = 0) -> zipfile.ZipExtFile:
         if self.file_name != file_name or (
@@ -143,13 +144,9 @@ class TorchArchiveReader:
             if self.file is not None:
                 self.file.close()
 
-            try:
-                fd = self.archive.open(f"archive/data/{file_name}", mode="r")
-            except Exception:
-                fd = self.archive.open(
-                    f"{self.archive_name}/data/{file_name}", mode="r"
-                )
-            self.file = fd
+            self.file = self.archive.open(
+                f"{self.archive_name}/data/{file_name}", mode="r"
+            )
             self.file_name = file_name
 
         skip_bytes = offset - self.file.tell()
-- 
2.43.0


From 971bfeee5078ca0f88d3a14a655db84fac948f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:23 +0000
Subject: [PATCH 102/140] fix: apply global options in legacy and layershuffle
 merges

---
 mergekit/scripts/layershuffle.py | 2 ++
 mergekit/scripts/legacy.py       | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index d5692d5..a5c45aa 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -61,6 +61,8 @@ def main(
     full_random: bool,
     merge_options: MergeOptions,
 ):
+    merge_options.apply_global_options()
+
     models = [ModelReference.parse(m) for m in model]
 
     m0_cfg = models[0].config()
diff --git a/mergekit/scripts/legacy.py b/mergekit/scripts/legacy.py
index c774325..03e01f6 100644
--- a/mergekit/scripts/legacy.py
+++ b/mergekit/scripts/legacy.py
@@ -80,6 +80,8 @@ def main(
     merge_options: MergeOptions,
 ):
     """Wrapper for using a subset of legacy-style script arguments."""
+    merge_options.apply_global_options()
+
     models = [InputModelDefinition(model=model, parameters={}) for model in merge]
     if base_model and base_model not in merge:
         models.append(InputModelDefinition(model=base_model, parameters={}))
-- 
2.43.0


From f37e61d6138f75dc9214cc91ab139344eb130f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 103/140] fix: run fill_missing_params as a script

---
 mergekit/scripts/fill_missing_params.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index b0bb7b0..6fa4e62 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -196,10 +196,6 @@ def main(
     )
 
 
-if __name__ == "__main__":
-    main()
-
-
 class ParameterNamesUtils:
     """Utility functions for handling parameter names."""
 
@@ -394,3 +390,7 @@ class ParameterNamesUtils:
             Path(index.base_path) / index.tensor_paths[name], framework="pt"
         ) as f:
             return f.get_slice(name).get_shape()
+
+
+if __name__ == "__main__":
+    main()
-- 
2.43.0


From a64e59f469e8ccdebe62211c2e16d7218d5ec0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 104/140] fix: pick the prefix of a submodel by the names it
 gives

---
 mergekit/scripts/fill_missing_params.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index 6fa4e62..d3e4f9a 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -227,17 +227,18 @@ class ParameterNamesUtils:
         """
         assert len(list1) >= len(list2), "params name list1 can't be shorter than list2"
 
-        possible_prefixes = {item.split(".")[0] for item in list1 if "." in item}
-        possible_prefixes = [""] + list(possible_prefixes)
+        # in order of appearance, so that ties do not depend on the hash seed
+        possible_prefixes = [""] + list(
+            dict.fromkeys(item.split(".")[0] for item in list1 if "." in item)
+        )
 
+        names = set(list1)
         prefix_matches = {}
         best_prefix = ""  # Default to no prefix
         for prefix in possible_prefixes:
-            stripped_list1 = [
-                ParameterNamesUtils.strip_prefix(item, prefix) for item in list1
-            ]
+            start = f"{prefix}." if prefix else ""
             prefix_matches[prefix] = len(
-                [item for item in list2 if item in stripped_list1]
+                [item for item in list2 if start + item in names]
             )
 
         if max(prefix_matches.values()) > prefix_matches[""]:
-- 
2.43.0


From c6e3a8b4b79bf4c5cd3621f9fbcbe8059a48a4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:12 +0000
Subject: [PATCH 105/140] fix: refuse to fill in a submodel that shares no
 parameters

---
 mergekit/scripts/fill_missing_params.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mergekit/scripts/fill_missing_params.py b/mergekit/scripts/fill_missing_params.py
index d3e4f9a..cce424e 100644
--- a/mergekit/scripts/fill_missing_params.py
+++ b/mergekit/scripts/fill_missing_params.py
@@ -137,6 +137,10 @@ def copy_and_fill_missing_params(
     common_param_names = ParameterNamesUtils.find_common_ordered_names(
         [base_param_names, submodel_param_names], ["", prefix]
     )
+    if not common_param_names:
+        raise ValueError(
+            f"No parameter of {sub_model_dir} is a parameter of {base_model_repo_id}"
+        )
 
     # Load parameter indices for tensor storage
     base_index = ShardedTensorIndex.from_disk(str(base_dir))
-- 
2.43.0


From f524d2fb181f095f8e69a0f246822cd1c5891227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 106/140] fix: merge two models only in slerp genomes with a
 base model

---
 mergekit/evo/genome.py | 13 -------------
 1 file changed, 13 deletions(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index fdb1ac7..7bf0ce1 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -299,19 +299,6 @@ class ModelGenome:
                 s["sources"][0]["parameters"] = {"weight": 1 - t}
                 s["sources"][1]["parameters"] = {"weight": t}
 
-            if self.definition.base_model and (
-                self.definition.base_model not in self.definition.models
-            ):
-                s["sources"].append(
-                    {
-                        "model": self.definition.base_model,
-                        "layer_range": [
-                            slice_idx * layer_step,
-                            (slice_idx + 1) * layer_step,
-                        ],
-                    }
-                )
-
             slices.append(s)
         return slices
 
-- 
2.43.0


From cba4d8de1d94fb4c9b24be0424187ab5b59bde8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 107/140] fix: use absolute weights in slerp genomes unless
 told otherwise

---
 mergekit/evo/genome.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/genome.py b/mergekit/evo/genome.py
index 7bf0ce1..6baf3bb 100644
--- a/mergekit/evo/genome.py
+++ b/mergekit/evo/genome.py
@@ -287,7 +287,10 @@ class ModelGenome:
 
             # Choose the two models with the highest weight and
             # calculate the interpolation parameter t
-            chosen = torch.topk(genotype[slice_idx, :, 0, 0], 2)
+            weights = genotype[slice_idx, :, 0, 0]
+            if not self.definition.allow_negative_weights:
+                weights = torch.abs(weights)
+            chosen = torch.topk(weights, 2)
             t = torch.softmax(chosen.values, dim=-1)[1].item()
             s["parameters"] = {"t": t}
             s["base_model"] = self.definition.models[chosen.indices[0].item()]
-- 
2.43.0


From b35dda98f0381c9882bc2ae00ed7f1f56e8a652b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:08 +0000
Subject: [PATCH 108/140] fix: evaluate merges made on the CPU

---
 mergekit/evo/actors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 8d0f231..15dc7a8 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -94,7 +94,8 @@ class OnDiskMergeEvaluator(MergeActorBase):
         torch_accelerator_module = get_torch_accelerator_module(
             self.merge_options.device
         )
-        torch_accelerator_module.empty_cache()
+        if hasattr(torch_accelerator_module, "empty_cache"):
+            torch_accelerator_module.empty_cache()
         LOG.info("Merging model")
         merged_path = merge_model(
             genotype, self.genome, self.model_storage_path, self.merge_options
-- 
2.43.0


From 87fc77c012ca28bd1bbc3490e033b1668c45d94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 109/140] fix: never reuse a model whose resharding was
 interrupted

---
 mergekit/scripts/evolve.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index ae3bcbf..1301331 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -410,8 +410,10 @@ def _reshard_model(
         torch_dtype=torch.bfloat16,
         cache_dir=os.path.join(storage_path, "transformers_cache"),
     )
+    # takes its final name only once complete, as an existing directory is reused
+    incomplete_path = out_path + ".incomplete"
     model_hf.save_pretrained(
-        out_path, safe_serialization=True, out_shard_size=1_000_000_000_000
+        incomplete_path, safe_serialization=True, out_shard_size=1_000_000_000_000
     )
     try:
         tokenizer = transformers.AutoTokenizer.from_pretrained(
@@ -420,9 +422,10 @@ def _reshard_model(
             trust_remote_code=trust_remote_code,
             use_fast=True,
         )
-        tokenizer.save_pretrained(out_path)
+        tokenizer.save_pretrained(incomplete_path)
     except Exception as e:
         logging.warning(f"Could not save tokenizer for {model.model}", exc_info=e)
+    os.rename(incomplete_path, out_path)
 
     return ModelReference(model=out_path)
 
-- 
2.43.0


From 7acd77a5f13cba074952f2bb9015a6fe5bd97254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 110/140] fix: infer architectures transformers cannot
 instantiate

---
 mergekit/architecture/auto.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 8e8098f..ef0a0af 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -98,8 +98,12 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
         ignore_on_save = set(ignore_on_save)
 
     embed_names = set()
-    _embed_out = model_obj.get_output_embeddings()
-    _embed_in = model_obj.get_input_embeddings()
+    try:
+        _embed_out = model_obj.get_output_embeddings()
+        _embed_in = model_obj.get_input_embeddings()
+    except NotImplementedError:
+        # not every model has them
+        _embed_out = _embed_in = None
     for name, module in model_obj.named_modules():
         if (
             isinstance(module, torch.nn.Embedding)
@@ -267,8 +271,8 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = (full_name in embed_names) or any(
-            re.search(pat, full_name) for pat in tied_keys
+        is_embed = full_name in (embed_names or ()) or any(
+            re.search(pat, full_name) for pat in tied_keys or ()
         )  # strictly speaking you can have tied non-embedding/lm-head weights
         # but i've never seen it so let's not worry about it until this breaks something
         return WeightInfo(
-- 
2.43.0


From 26e4550e3b64a4f850e9027a83c806100095c4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 111/140] fix: infer architectures from the class the config
 names

Any class that is not known to be for masked language modelling or
classification was taken for a causal language model, and weights that such
a model does not have, at worst all of them, were left out of the merge.
---
 mergekit/architecture/auto.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index ef0a0af..ebedec8 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -8,6 +8,7 @@ from functools import lru_cache
 from typing import List, Optional, Tuple
 
 import torch
+import transformers
 from transformers.initialization import no_init_weights
 
 from mergekit.architecture.base import (
@@ -52,6 +53,7 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
             trust_remote_code=options.trust_remote_code,
         )
         auto_cls = get_auto_cls(cfg.architectures[0])
+        model_cls = getattr(transformers, cfg.architectures[0], None)
     except Exception as e:
         LOG.warning(
             f"Unable to load config for {model.model} - tied/ignored weights will not be detected",
@@ -61,10 +63,13 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
     model_obj = None
     try:
         with torch.device("meta"), no_init_weights():
-            model_obj = auto_cls.from_config(
-                cfg,
-                trust_remote_code=options.trust_remote_code,
-            )
+            if model_cls is not None:
+                model_obj = model_cls(cfg)
+            else:
+                model_obj = auto_cls.from_config(
+                    cfg,
+                    trust_remote_code=options.trust_remote_code,
+                )
     except Exception as e:
         LOG.warning(
             f"Unable to instantiate model {model.model} with transformers config",
-- 
2.43.0


From 34660b7efe03b655804a6160aab1eb35cdb4b6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 112/140] fix: merge optional weights that need conversion

An optional weight was skipped unless it is stored under its own name, so
e.g. the experts of models with a few dense layers were left out.
---
 mergekit/plan.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mergekit/plan.py b/mergekit/plan.py
index edc3173..b5954bb 100644
--- a/mergekit/plan.py
+++ b/mergekit/plan.py
@@ -12,6 +12,7 @@ from mergekit.architecture import (
     WeightInfo,
 )
 from mergekit.architecture.base import ConfiguredModelArchitecture
+from mergekit.architecture.conversion import can_convert_checkpoint_keys
 from mergekit.common import ImmutableMap, ModelReference
 from mergekit.config import (
     ConfigReader,
@@ -167,8 +168,13 @@ class MergePlanner:
             any_weight = False
             for model, w_in in zip(models, weights_in):
                 index = LoaderCache().get(model).index
+                model_cfg = model.config(
+                    trust_remote_code=self.options.trust_remote_code
+                )
                 if any(
-                    name in index.tensor_paths
+                    can_convert_checkpoint_keys(
+                        model_cfg.model_type, set(index.tensor_paths), name
+                    )
                     for name in (w_in.name, *(w_in.aliases or ()))
                 ):
                     any_weight = True
-- 
2.43.0


From 666190dcf7d40c6312e546758a1ad9809a608dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 113/140] fix: keep the stored layout where it cannot be
 converted to transformers'

The weights concerned were silently left out.
---
 mergekit/architecture/auto.py       | 39 +++++++++++++++++++++++++++--
 mergekit/architecture/conversion.py | 22 ++++++++++++++++
 2 files changed, 59 insertions(+), 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index ebedec8..7527c66 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -5,7 +5,7 @@ import logging
 import re
 from collections import defaultdict
 from functools import lru_cache
-from typing import List, Optional, Tuple
+from typing import Iterable, List, Optional, Tuple
 
 import torch
 import transformers
@@ -16,7 +16,10 @@ from mergekit.architecture.base import (
     ModuleDefinition,
     WeightInfo,
 )
-from mergekit.architecture.conversion import can_convert_checkpoint_keys
+from mergekit.architecture.conversion import (
+    can_convert_checkpoint_keys,
+    is_checkpoint_key_used,
+)
 from mergekit.architecture.json_definitions import (
     JsonLayerTemplates,
     JsonModuleArchDef,
@@ -133,6 +136,26 @@ def _num_layers_config_key(
     return None
 
 
+def _checkpoint_provides(
+    model: ModelReference,
+    stored_names: set[str],
+    wanted_names: set[str],
+    tied_keys: Iterable[str],
+    options: MergeOptions,
+) -> bool:
+    """Check that stored tensors with other names can be converted to those wanted."""
+    model_type = model.config(trust_remote_code=options.trust_remote_code).model_type
+    if all(
+        is_checkpoint_key_used(model_type, name, wanted_names) for name in stored_names
+    ):
+        return True
+    return all(
+        can_convert_checkpoint_keys(model_type, stored_names, name)
+        or any(re.search(pat, name) for pat in tied_keys)
+        for name in wanted_names
+    )
+
+
 def _target_present_in_all_models(
     target_name: str,
     model_tensor_names: dict[ModelReference, set[str]],
@@ -200,6 +223,18 @@ def infer_architecture_info(
     ignore_on_save, tied_keys, embed_names, transformer_tensor_names = (
         get_transformers_info(base_model, options)
     )
+    if transformer_tensor_names and not _checkpoint_provides(
+        base_model,
+        model_tensor_names[base_model],
+        set(transformer_tensor_names),
+        tied_keys or (),
+        options,
+    ):
+        LOG.warning(
+            f"Keeping the names of the tensors stored in {base_model} - "
+            "unable to derive those transformers uses"
+        )
+        transformer_tensor_names = None
     if transformer_tensor_names:
         all_tensor_names = set(transformer_tensor_names)
         model_types = {
diff --git a/mergekit/architecture/conversion.py b/mergekit/architecture/conversion.py
index e9da6c7..dc34955 100644
--- a/mergekit/architecture/conversion.py
+++ b/mergekit/architecture/conversion.py
@@ -125,6 +125,28 @@ def convert_checkpoint_tensors(
     return tensor if isinstance(tensor, torch.Tensor) else None
 
 
+def is_checkpoint_key_used(
+    model_type: Optional[str], source_key: str, target_keys: set[str]
+) -> bool:
+    """Return whether a source checkpoint key is a part of any of the target keys."""
+    if source_key in target_keys:
+        return True
+    available = {source_key}
+    for transform in get_checkpoint_conversion_mapping(model_type or "") or ():
+        additions = set()
+        for match in _iter_transform_matches(transform, {key: key for key in available}):
+            if isinstance(transform, WeightRenaming):
+                additions.add(match.renamed_key)
+            else:
+                additions.update(
+                    _expanded_target_keys(match.renamed_key, transform.target_patterns)
+                )
+        if additions & target_keys:
+            return True
+        available.update(additions)
+    return False
+
+
 def can_convert_checkpoint_keys(
     model_type: Optional[str],
     source_keys: set[str],
-- 
2.43.0


From 0f363f23ec42373f39f223a64f192e3e584ef9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:49 +0000
Subject: [PATCH 114/140] fix: keep weights named like a stack of layers

Depending on the hash seed, a weight whose name begins like the prefix of
numbered layers was looked for without that prefix, and left out.
---
 mergekit/architecture/auto.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 7527c66..f6e4f9f 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -278,9 +278,9 @@ def infer_architecture_info(
     for tensor_name in all_tensor_names:
         if RE_LAYER_INDEX.search(tensor_name):
             continue
-        for prefix in module_prefixes:
-            if tensor_name.startswith(prefix):
-                module_loose_weights[prefix].add(tensor_name[len(prefix) :])
+        for prefix in sorted(module_prefixes, key=len, reverse=True):
+            if not prefix or tensor_name.startswith(prefix + "."):
+                module_loose_weights[prefix].add(tensor_name)
                 break
 
     if "" in module_prefixes and not (module_loose_weights[""] or module_templates[""]):
-- 
2.43.0


From 24b2f586b8193a499563bcebd071d6ce34eef5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:47 +0000
Subject: [PATCH 115/140] fix: infer an architecture anew for every merge

The files may have changed since the last one.
---
 mergekit/architecture/auto.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index f6e4f9f..0523074 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -4,7 +4,6 @@
 import logging
 import re
 from collections import defaultdict
-from functools import lru_cache
 from typing import Iterable, List, Optional, Tuple
 
 import torch
@@ -206,7 +205,6 @@ def _template_present_in_all_models(
     )
 
 
-@lru_cache(maxsize=128)
 def infer_architecture_info(
     models: Tuple[ModelReference, ...],
     base_model: Optional[ModelReference],
-- 
2.43.0


From 55b26f10eb00f4e2bb57df765a60a07354e39860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:07 +0000
Subject: [PATCH 116/140] fix: resize only the embeddings of an inferred
 architecture that hold the vocabulary

---
 mergekit/architecture/auto.py | 40 ++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 0523074..25abf27 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -104,24 +104,43 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
     if ignore_on_save is not None:
         ignore_on_save = set(ignore_on_save)
 
-    embed_names = set()
     try:
         _embed_out = model_obj.get_output_embeddings()
         _embed_in = model_obj.get_input_embeddings()
     except NotImplementedError:
         # not every model has them
         _embed_out = _embed_in = None
-    for name, module in model_obj.named_modules():
-        if (
-            isinstance(module, torch.nn.Embedding)
-            or module == _embed_out
-            or module == _embed_in
-        ):
-            embed_names.add(name + ".weight")
     tensor_names = list(model_obj.state_dict().keys())
+    embed_names = _vocabulary_weights(model_obj, _embed_in, _embed_out, tied_keys)
     return ignore_on_save, tied_keys, embed_names, tensor_names
 
 
+def _vocabulary_weights(
+    model_obj: torch.nn.Module,
+    embed_in: Optional[torch.nn.Module],
+    embed_out: Optional[torch.nn.Module],
+    tied_keys: Optional[Iterable[str]],
+) -> set[str]:
+    """Find the weights that have a row for every token.
+
+    Other embeddings (of positions or token types, for instance) do not depend
+    on the tokenizer."""
+    vocab_size = getattr(getattr(embed_in, "weight", None), "shape", (None,))[0]
+    candidates = set()
+    for name, module in model_obj.named_modules():
+        if module is embed_in or module is embed_out:
+            candidates.update((name + ".weight", name + ".bias"))
+    # weights shared with others may be stored under either name
+    candidates.update((getattr(model_obj, "all_tied_weights_keys", None) or {}).values())
+    return {
+        name
+        for name, tensor in model_obj.state_dict().items()
+        if (name in candidates or any(re.search(p, name) for p in tied_keys or ()))
+        and tensor.ndim > 0
+        and tensor.shape[0] == vocab_size
+    }
+
+
 def _num_layers_config_key(
     model: ModelReference, num_layers: int, options: MergeOptions
 ) -> Optional[str]:
@@ -309,10 +328,7 @@ def infer_architecture_info(
             tied_keys is not None
             and any(re.search(pat, full_name) for pat in tied_keys)
         )
-        is_embed = full_name in (embed_names or ()) or any(
-            re.search(pat, full_name) for pat in tied_keys or ()
-        )  # strictly speaking you can have tied non-embedding/lm-head weights
-        # but i've never seen it so let's not worry about it until this breaks something
+        is_embed = full_name in (embed_names or ())
         return WeightInfo(
             name=template,
             optional=optional,
-- 
2.43.0


From 5ea76190922a6cbf63e34ec1b9ca723e7b5e8371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 117/140] fix: resize output biases along with the vocabulary

---
 mergekit/_data/architectures/bert-masked-lm.json  |  4 +++-
 .../_data/architectures/distilbert-masked-lm.json |  3 ++-
 mergekit/_data/architectures/phi2-old.json        |  3 ++-
 mergekit/_data/architectures/phi2.json            |  3 ++-
 .../_data/architectures/roberta-masked-lm.json    |  4 +++-
 .../merge_methods/generalized_task_arithmetic.py  |  2 +-
 mergekit/scripts/tokensurgeon.py                  |  2 +-
 mergekit/tokenizer/embed.py                       | 15 ++++++++-------
 8 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/mergekit/_data/architectures/bert-masked-lm.json b/mergekit/_data/architectures/bert-masked-lm.json
index 024b4c6..35c39d6 100644
--- a/mergekit/_data/architectures/bert-masked-lm.json
+++ b/mergekit/_data/architectures/bert-masked-lm.json
@@ -60,7 +60,8 @@
             ]
         },
         {
-            "name": "cls.predictions.bias"
+            "name": "cls.predictions.bias",
+            "is_embed": true
         },
         {
             "name": "cls.predictions.decoder.weight",
@@ -72,6 +73,7 @@
         },
         {
             "name": "cls.predictions.decoder.bias",
+            "is_embed": true,
             "optional": true
         }
     ],
diff --git a/mergekit/_data/architectures/distilbert-masked-lm.json b/mergekit/_data/architectures/distilbert-masked-lm.json
index 1a07981..226cac0 100644
--- a/mergekit/_data/architectures/distilbert-masked-lm.json
+++ b/mergekit/_data/architectures/distilbert-masked-lm.json
@@ -46,7 +46,8 @@
             ]
         },
         {
-            "name": "vocab_projector.bias"
+            "name": "vocab_projector.bias",
+            "is_embed": true
         }
     ],
     "num_layers_config_key": "num_hidden_layers",
diff --git a/mergekit/_data/architectures/phi2-old.json b/mergekit/_data/architectures/phi2-old.json
index a735ecc..b41e8d7 100644
--- a/mergekit/_data/architectures/phi2-old.json
+++ b/mergekit/_data/architectures/phi2-old.json
@@ -11,7 +11,8 @@
     ],
     "post_weights": [
         {
-            "name": "lm_head.linear.bias"
+            "name": "lm_head.linear.bias",
+            "is_embed": true
         },
         {
             "name": "lm_head.linear.weight",
diff --git a/mergekit/_data/architectures/phi2.json b/mergekit/_data/architectures/phi2.json
index 6b5145b..568ecd6 100644
--- a/mergekit/_data/architectures/phi2.json
+++ b/mergekit/_data/architectures/phi2.json
@@ -11,7 +11,8 @@
     ],
     "post_weights": [
         {
-            "name": "lm_head.bias"
+            "name": "lm_head.bias",
+            "is_embed": true
         },
         {
             "name": "lm_head.weight",
diff --git a/mergekit/_data/architectures/roberta-masked-lm.json b/mergekit/_data/architectures/roberta-masked-lm.json
index 385d2d0..d6928e6 100644
--- a/mergekit/_data/architectures/roberta-masked-lm.json
+++ b/mergekit/_data/architectures/roberta-masked-lm.json
@@ -28,7 +28,8 @@
     ],
     "post_weights": [
         {
-            "name": "lm_head.bias"
+            "name": "lm_head.bias",
+            "is_embed": true
         },
         {
             "name": "lm_head.dense.weight"
@@ -52,6 +53,7 @@
         },
         {
             "name": "lm_head.decoder.bias",
+            "is_embed": true,
             "optional": true
         }
     ],
diff --git a/mergekit/merge_methods/generalized_task_arithmetic.py b/mergekit/merge_methods/generalized_task_arithmetic.py
index cfb6866..ee8a9f0 100644
--- a/mergekit/merge_methods/generalized_task_arithmetic.py
+++ b/mergekit/merge_methods/generalized_task_arithmetic.py
@@ -206,7 +206,7 @@ def get_task_vectors(
         x = tensors[model].to(base.dtype)
         if x.shape != base.shape:
             if weight_info.is_embed:
-                x = x[: base.shape[0], : base.shape[1]]
+                x = x[tuple(slice(0, n) for n in base.shape)]
                 logging.warning(f"Using submatrix of {model}:{parameter_name}")
             else:
                 logging.warning(
diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 6c80f77..519439e 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -123,7 +123,7 @@ def get_embedding_info(
             embed = weight_info
 
     for weight_info in module_def.post_weights():
-        if weight_info.is_embed:
+        if weight_info.is_embed and not weight_info.name.endswith(".bias"):
             if lm_head is not None:
                 raise RuntimeError("Multiple output embeddings found")
             lm_head = weight_info
diff --git a/mergekit/tokenizer/embed.py b/mergekit/tokenizer/embed.py
index 7b94502..1ff0ca3 100644
--- a/mergekit/tokenizer/embed.py
+++ b/mergekit/tokenizer/embed.py
@@ -42,9 +42,10 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
             vocab_size = (
                 vocab_size // self.pad_to_multiple_of + 1
             ) * self.pad_to_multiple_of
-        embed_size = tensors[models[0]].shape[1]
+        # the shape of one row - empty for the bias of an output embedding
+        embed_size = tensors[models[0]].shape[1:]
         assert all(
-            t.shape[1] == embed_size for t in tensors.values()
+            t.shape[1:] == embed_size for t in tensors.values()
         ), "Embedding sizes must match"
 
         dtype = tensors[models[0]].dtype
@@ -81,7 +82,7 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
             p = permutations[model]
             old_embed = tensors[model]
             new_embed = torch.zeros(
-                (vocab_size, embed_size), dtype=dtype, device=device
+                (vocab_size, *embed_size), dtype=dtype, device=device
             )
             for token, token_id in vocab.items():
                 force = False
@@ -89,9 +90,9 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
                     force = token_configs[token].force
 
                 if p[token_id] >= 0 and not force:
-                    new_embed[token_id, :] = old_embed[p[token_id]]
+                    new_embed[token_id] = old_embed[p[token_id]]
                 elif token in default_embeds:
-                    new_embed[token_id, :] = default_embeds[token]
+                    new_embed[token_id] = default_embeds[token]
                 else:
                     logging.error(
                         f"No embedding for token {repr(token)} in model {model}!"
@@ -99,8 +100,8 @@ class PermutedEmbeddings(Task[Dict[ModelReference, torch.Tensor]]):
 
             if vocab_size > num_used:
                 # as suggested by https://nlp.stanford.edu/~johnhew/vocab-expansion.html
-                avg_embed = torch.mean(new_embed[:num_used, :], dim=0)
-                new_embed[num_used:, :] = avg_embed
+                avg_embed = torch.mean(new_embed[:num_used], dim=0)
+                new_embed[num_used:] = avg_embed
             result[model] = new_embed
 
         return result
-- 
2.43.0


From e56598daef0ab3291fe2f1646a96a0c190954637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 118/140] fix: keep vision weights apart from the vocabulary

---
 mergekit/_data/architectures/qwen2_5_vl.json     | 3 +--
 mergekit/_data/architectures/qwen2_vl.json       | 3 +--
 mergekit/_data/architectures/qwen3_vl.json       | 6 ++----
 mergekit/_data/architectures/qwen3_vl_dense.json | 6 ++----
 4 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/mergekit/_data/architectures/qwen2_5_vl.json b/mergekit/_data/architectures/qwen2_5_vl.json
index 53c6828..dfc0d82 100644
--- a/mergekit/_data/architectures/qwen2_5_vl.json
+++ b/mergekit/_data/architectures/qwen2_5_vl.json
@@ -117,8 +117,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen2_vl.json b/mergekit/_data/architectures/qwen2_vl.json
index 1e91f18..6be56d9 100644
--- a/mergekit/_data/architectures/qwen2_vl.json
+++ b/mergekit/_data/architectures/qwen2_vl.json
@@ -120,8 +120,7 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "visual.patch_embed.proj.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl.json b/mergekit/_data/architectures/qwen3_vl.json
index 571303d..298a722 100644
--- a/mergekit/_data/architectures/qwen3_vl.json
+++ b/mergekit/_data/architectures/qwen3_vl.json
@@ -135,15 +135,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
diff --git a/mergekit/_data/architectures/qwen3_vl_dense.json b/mergekit/_data/architectures/qwen3_vl_dense.json
index 4e46477..596da95 100644
--- a/mergekit/_data/architectures/qwen3_vl_dense.json
+++ b/mergekit/_data/architectures/qwen3_vl_dense.json
@@ -134,15 +134,13 @@
                 "num_layers_config_key": "vision_config.depth",
                 "pre_weights": [
                     {
-                        "name": "model.visual.patch_embed.proj.weight",
-                        "is_embed": true
+                        "name": "model.visual.patch_embed.proj.weight"
                     },
                     {
                         "name": "model.visual.patch_embed.proj.bias"
                     },
                     {
-                        "name": "model.visual.pos_embed.weight",
-                        "is_embed": true
+                        "name": "model.visual.pos_embed.weight"
                     }
                 ],
                 "post_weights": [],
-- 
2.43.0


From 69261b97c90cb64b18127024b6a343392d940637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:05 +0000
Subject: [PATCH 119/140] fix: resize the embeddings of encoders and
 classifiers with the vocabulary

---
 mergekit/_data/architectures/gpt2-sequence-classification.json | 3 ++-
 .../_data/architectures/roberta-sequence-classification.json   | 3 ++-
 mergekit/_data/architectures/roberta-token-classification.json | 3 ++-
 mergekit/_data/architectures/roberta.json                      | 1 +
 4 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mergekit/_data/architectures/gpt2-sequence-classification.json b/mergekit/_data/architectures/gpt2-sequence-classification.json
index 54cf31f..2919e47 100644
--- a/mergekit/_data/architectures/gpt2-sequence-classification.json
+++ b/mergekit/_data/architectures/gpt2-sequence-classification.json
@@ -5,7 +5,8 @@
     ],
     "pre_weights": [
         {
-            "name": "transformer.wte.weight"
+            "name": "transformer.wte.weight",
+            "is_embed": true
         },
         {
             "name": "transformer.wpe.weight"
diff --git a/mergekit/_data/architectures/roberta-sequence-classification.json b/mergekit/_data/architectures/roberta-sequence-classification.json
index 6e137e6..8d1f47e 100644
--- a/mergekit/_data/architectures/roberta-sequence-classification.json
+++ b/mergekit/_data/architectures/roberta-sequence-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta-token-classification.json b/mergekit/_data/architectures/roberta-token-classification.json
index 2b9cae9..1927836 100644
--- a/mergekit/_data/architectures/roberta-token-classification.json
+++ b/mergekit/_data/architectures/roberta-token-classification.json
@@ -8,7 +8,8 @@
             "name": "roberta.embeddings.position_embeddings.weight"
         },
         {
-            "name": "roberta.embeddings.word_embeddings.weight"
+            "name": "roberta.embeddings.word_embeddings.weight",
+            "is_embed": true
         },
         {
             "name": "roberta.embeddings.token_type_embeddings.weight"
diff --git a/mergekit/_data/architectures/roberta.json b/mergekit/_data/architectures/roberta.json
index 26475c5..8071501 100644
--- a/mergekit/_data/architectures/roberta.json
+++ b/mergekit/_data/architectures/roberta.json
@@ -12,6 +12,7 @@
         },
         {
             "name": "embeddings.word_embeddings.weight",
+            "is_embed": true,
             "aliases": [
                 "roberta.embeddings.word_embeddings.weight"
             ]
-- 
2.43.0


From dbad2cb14f43ac5a3eb62c27c59eac3f3d07b9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 120/140] fix: load tokenizers with remote code in tokensurgeon
 only where it is trusted

The tokenizers used for the approximation were always loaded with
trust_remote_code=True, so that the code of a model ran without
--trust-remote-code. The configurations matching pursuit needs were never,
so that trusted models failed.
---
 mergekit/scripts/tokensurgeon.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 519439e..3116be6 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -93,6 +93,7 @@ class TokenSurgeonOptions(BaseModel):
     batch_size: Optional[int] = None
     new_vocab_noise: Optional[float] = None
     new_vocab_scale: Optional[float] = None
+    trust_remote_code: bool = False
 
 
 def get_arch_info(
@@ -338,8 +339,12 @@ def compute_new_embeddings(
                 weight_scheme=options.weight_scheme,
             )
         elif options.method == ApproximationMethod.MATCHING_PURSUIT_ROPE:
-            model_config = options.model.config(trust_remote_code=False)
-            donor_config = options.donor.config(trust_remote_code=False)
+            model_config = options.model.config(
+                trust_remote_code=options.trust_remote_code
+            )
+            donor_config = options.donor.config(
+                trust_remote_code=options.trust_remote_code
+            )
             indices, coeffs, res, in_donor = batch_mp_rope(
                 targets,
                 donor_shared_embeds,
@@ -489,12 +494,12 @@ def build_embedding_matrix(
     donor_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.donor.model.path,
         revision=options.donor.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
     orig_tokenizer = transformers.AutoTokenizer.from_pretrained(
         options.model.model.path,
         revision=options.model.model.revision,
-        trust_remote_code=True,
+        trust_remote_code=options.trust_remote_code,
     )
 
     LOG.info(stats.pretty_print())
@@ -681,6 +686,7 @@ def main(
         batch_size=batch_size,
         new_vocab_noise=new_vocab_noise,
         new_vocab_scale=new_vocab_scale,
+        trust_remote_code=merge_options.trust_remote_code,
     )
     prefix_match = AllowMatch(prefix_match)
     byte_match = AllowMatch(byte_match)
-- 
2.43.0


From 766c281263613985ec3fa2e557b8caf747e0fda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:54 +0000
Subject: [PATCH 121/140] fix: trust the code of the tokenizer where that of
 the model is, in evolution

---
 mergekit/evo/actors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 15dc7a8..0b2e558 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -216,7 +216,10 @@ class InMemoryMergeEvaluator(MergeActorBase):
                     )
                     tokenizer_donor = self.genome.definition.models[0]
                 tok = transformers.AutoTokenizer.from_pretrained(
-                    tokenizer_donor.model.path, use_fast=True
+                    tokenizer_donor.model.path,
+                    revision=tokenizer_donor.model.revision,
+                    use_fast=True,
+                    trust_remote_code=self.merge_options.trust_remote_code,
                 )
                 tok.save_pretrained(tempdir)
 
-- 
2.43.0


From 383deba6f1b686dae13ab2d263934329d9fdbad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:47 +0000
Subject: [PATCH 122/140] fix: keep the code of a custom architecture with the
 merged model

The configuration of a model with modules of its own refers to them by
name, but merges of models in local directories were written without
them (but for that of the configuration), and could not be loaded.
---
 mergekit/merge.py                | 33 ++++++++++++++++++++++++++++++++
 mergekit/scripts/tokensurgeon.py | 11 +++++++++++
 2 files changed, 44 insertions(+)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index f056594..d37c648 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -3,6 +3,7 @@
 
 import importlib
 import importlib.resources
+import json
 import logging
 import os
 import shutil
@@ -12,6 +13,7 @@ from typing import List, Optional, Tuple
 
 import tqdm
 import transformers
+from transformers.dynamic_module_utils import get_relative_imports
 
 from mergekit._data import chat_templates
 from mergekit.architecture import ModelArchitecture, get_architecture_info
@@ -141,6 +143,8 @@ def run_merge(
         files=arch_info.tagalong_files or [],
         options=options,
     )
+    _, donor_local_path = _get_donor_model(merge_config, options=options)
+    copy_custom_code("config.json", donor_local_path, out_path)
 
     # last and in one step, as the presence of the config marks a finished merge
     LOG.info("Saving config")
@@ -249,6 +253,34 @@ def _copy_tagalong_files(
     return
 
 
+def copy_custom_code(config_name: str, donor_local_path: str, out_path: str):
+    """Copy the modules that a model's configuration file refers to by name"""
+    config_path = os.path.join(donor_local_path, config_name)
+    if not os.path.exists(config_path):
+        return
+    with open(config_path, "r", encoding="utf-8") as fp:
+        auto_map = json.load(fp).get("auto_map") or {}
+
+    modules = []
+    # tokenizers have one class for each implementation
+    refs = auto_map.values() if isinstance(auto_map, dict) else [auto_map]
+    for ref in refs:
+        for class_ref in ref if isinstance(ref, (list, tuple)) else [ref]:
+            if class_ref and "--" not in class_ref:
+                modules.append(class_ref.split(".")[0])
+
+    copied = set()
+    while modules:
+        file_name = os.path.basename(modules.pop()) + ".py"
+        module_path = os.path.join(donor_local_path, file_name)
+        if file_name in copied or not os.path.exists(module_path):
+            continue
+        LOG.info(f"Copying {file_name} from {donor_local_path}")
+        shutil.copy(module_path, os.path.join(out_path, file_name))
+        copied.add(file_name)
+        modules.extend(get_relative_imports(module_path))
+
+
 def _copy_tokenizer(
     merge_config: MergeConfiguration, out_path: str, options: MergeOptions
 ):
@@ -281,6 +313,7 @@ def _copy_tokenizer(
                     os.path.join(donor_local_path, file_name),
                     os.path.join(out_path, file_name),
                 )
+        copy_custom_code("tokenizer_config.json", donor_local_path, out_path)
 
         return
 
diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 3116be6..7d7bba1 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -24,6 +24,7 @@ from mergekit.io.tasks import (
     LoadTensor,
 )
 from mergekit.io.tensor_writer import TensorWriter
+from mergekit.merge import copy_custom_code
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
 from mergekit.tokenizer.normalization import (
     NormalizedToken,
@@ -835,6 +836,16 @@ def main(
         writer.save_tensor(weight_info.name, tensor, clone=merge_options.clone_tensors)
     writer.finalize()
     out_arch_info.config.save_pretrained(out_path)
+    merged_model = options.model.merged(
+        cache_dir=merge_options.lora_merge_cache,
+        trust_remote_code=merge_options.trust_remote_code,
+        lora_merge_dtype=merge_options.lora_merge_dtype,
+    )
+    copy_custom_code(
+        "config.json",
+        merged_model.local_path(cache_dir=merge_options.transformers_cache),
+        out_path,
+    )
 
     tokenizer_out = transformers.AutoTokenizer.from_pretrained(
         options.donor.model.path,
-- 
2.43.0


From d8c30b7cce9a61b3cef74e95310e2a6684a18124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 123/140] fix: apply the loading options in LoRA extraction

The loader cache was left with its defaults, or with what an earlier merge
of the same process had set, --trust-remote-code included.
---
 mergekit/scripts/extract_lora.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index 675e5d2..b49d567 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -20,7 +20,13 @@ from mergekit.architecture.auto import infer_architecture_info
 from mergekit.card import generate_card_lora
 from mergekit.common import ModelReference, get_auto_cls
 from mergekit.graph import Executor, Task
-from mergekit.io.tasks import FinalizeModel, LoadTensor, SaveTensor, TensorWriterTask
+from mergekit.io.tasks import (
+    FinalizeModel,
+    LoaderCache,
+    LoadTensor,
+    SaveTensor,
+    TensorWriterTask,
+)
 from mergekit.io.tensor_writer import TensorWriter
 from mergekit.multigpu_executor import MultiGPUExecutor
 from mergekit.options import MergeOptions, PrettyPrintHelp, add_merge_options
@@ -115,6 +121,7 @@ def main(
     merge_options: MergeOptions,
 ):
     merge_options.apply_global_options()
+    LoaderCache().setup(options=merge_options)
 
     base_model_ref = ModelReference.model_validate(base_model)
     model_ref = ModelReference.model_validate(model)
-- 
2.43.0


From 118b995c42acba37722378bb1dc8f81f4e2909c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:00 +0000
Subject: [PATCH 124/140] fix: trust the code of the models to shuffle where
 the options do

---
 mergekit/scripts/layershuffle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mergekit/scripts/layershuffle.py b/mergekit/scripts/layershuffle.py
index a5c45aa..d4912c3 100644
--- a/mergekit/scripts/layershuffle.py
+++ b/mergekit/scripts/layershuffle.py
@@ -65,7 +65,7 @@ def main(
 
     models = [ModelReference.parse(m) for m in model]
 
-    m0_cfg = models[0].config()
+    m0_cfg = models[0].config(trust_remote_code=merge_options.trust_remote_code)
     arch_info = arch_info_for_config(m0_cfg)
     if len(arch_info.modules) != 1:
         raise click.UsageError("Models with multiple modules are not supported")
@@ -78,7 +78,7 @@ def main(
 
     if full_random:
         for model, frac in zip(models, weight):
-            cfg = model.config()
+            cfg = model.config(trust_remote_code=merge_options.trust_remote_code)
             model_layers = module_arch.num_layers(cfg)
             for _ in range(int(model_layers * frac)):
                 src_idx = random.randrange(0, model_layers)
-- 
2.43.0


From efffb264b80a64d1cc15200576d1f82ef40c9e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:24 +0000
Subject: [PATCH 125/140] fix: refuse merge method arguments that nothing can
 be configured for

Arguments without an annotation, or with one that is not supported, were
left out of the parameters without notice, so that a configured value never
reached the method. The errors documented for them were not raised.
---
 mergekit/merge_methods/easy_define.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mergekit/merge_methods/easy_define.py b/mergekit/merge_methods/easy_define.py
index 006e960..dd4f268 100644
--- a/mergekit/merge_methods/easy_define.py
+++ b/mergekit/merge_methods/easy_define.py
@@ -71,7 +71,12 @@ def __merge_method(
         if arg in STANDARD_KWARGS:
             used_kwargs.add(arg)
         else:
-            if arg_info.annotation is None:
+            if arg_info.kind in (
+                inspect.Parameter.VAR_POSITIONAL,
+                inspect.Parameter.VAR_KEYWORD,
+            ):
+                continue
+            if arg_info.annotation in (None, inspect.Parameter.empty):
                 raise ValueError(
                     "All merge method arguments must have type annotations"
                 )
@@ -107,6 +112,10 @@ def __merge_method(
                         name=arg, required=required, default_value=default_value
                     )
                 )
+            else:
+                raise TypeError(
+                    f"Unsupported annotation {arg_info.annotation} for merge method argument '{arg}'"
+                )
 
     tt_fields = {}
     tt_fields["gather_tensors"] = (MergeTensorInput, Field(...))
-- 
2.43.0


From c28e7b5cfdc2ffa88411c8738a2f0e8fac4f0271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:20 +0000
Subject: [PATCH 126/140] fix: average integer tensors in linear merges without
 truncating the weights

---
 mergekit/merge_methods/linear.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mergekit/merge_methods/linear.py b/mergekit/merge_methods/linear.py
index efe2a7f..c31fdd3 100644
--- a/mergekit/merge_methods/linear.py
+++ b/mergekit/merge_methods/linear.py
@@ -46,6 +46,10 @@ class LinearMergeTask(Task[torch.Tensor]):
             )
 
         tensors = torch.stack(tensors, dim=0)
+        dtype = tensors.dtype
+        if not (dtype.is_floating_point or dtype.is_complex):
+            # position ids, counters or masks - fractional weights need floats
+            tensors = tensors.to(torch.float64)
         weights = torch.tensor(weights, dtype=tensors.dtype, device=tensors.device)
         while len(weights.shape) < len(tensors.shape):
             weights.unsqueeze_(-1)
@@ -54,6 +58,8 @@ class LinearMergeTask(Task[torch.Tensor]):
         if self.normalize:
             res = res / weights.sum(dim=0)
 
+        if res.dtype != dtype:
+            res = res.round().to(dtype)
         return res
 
     def group_label(self) -> Optional[str]:
-- 
2.43.0


From a898b97043fa258d7d5b5c94953cca26e7b09802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 127/140] fix: quantize the evaluated model in the buffered and
 serial strategies

---
 mergekit/evo/strategy.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index adb6929..06c13d0 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -157,9 +157,9 @@ class BufferedRayEvaluationStrategyActor:
 
                 while merged and len(evaluating) < self.num_gpus:
                     future_result, merged_path = merged.pop()
-                    kwargs = {}
+                    model_kwargs = {}
                     if self.quantization_config is not None:
-                        kwargs["quantization_config"] = self.quantization_config
+                        model_kwargs["quantization_config"] = self.quantization_config
                     evaluating[
                         evaluate_model_ray.remote(
                             merged_path,
@@ -171,7 +171,7 @@ class BufferedRayEvaluationStrategyActor:
                             task_manager=self.task_manager,
                             apply_chat_template=self.config.apply_chat_template,
                             fewshot_as_multiturn=self.config.fewshot_as_multiturn,
-                            **kwargs,
+                            model_kwargs=model_kwargs,
                         )
                     ] = future_result
 
@@ -259,9 +259,9 @@ def evaluate_genotype_serial(
     )
     if not merged_path:
         return {"score": None, "results": None}
-    kwargs = {}
+    model_kwargs = {}
     if quantization_config is not None:
-        kwargs["quantization_config"] = quantization_config
+        model_kwargs["quantization_config"] = quantization_config
     res = ray.get(
         evaluate_model_ray.options(scheduling_strategy=strat).remote(
             merged_path,
@@ -273,7 +273,7 @@ def evaluate_genotype_serial(
             task_manager=task_manager,
             apply_chat_template=config.apply_chat_template,
             fewshot_as_multiturn=config.fewshot_as_multiturn,
-            **kwargs,
+            model_kwargs=model_kwargs,
         )
     )
     ray.util.remove_placement_group(pg)
-- 
2.43.0


From 1e1540449bf33ee69cf626de964d11c9a71d4064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 128/140] fix: evaluate merged models with the trust the
 options give in evolution

---
 mergekit/evo/actors.py   | 2 +-
 mergekit/evo/strategy.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 0b2e558..77a2d60 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -104,7 +104,7 @@ class OnDiskMergeEvaluator(MergeActorBase):
             LOG.error("Model merge failed")
             return {"score": None, "results": None}
 
-        model_kwargs = {}
+        model_kwargs = {"trust_remote_code": self.merge_options.trust_remote_code}
         if self.quantization_config is not None:
             model_kwargs["quantization_config"] = self.quantization_config
         LOG.info(f"Model merged to {merged_path}")
diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index 06c13d0..1e12ace 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -157,7 +157,9 @@ class BufferedRayEvaluationStrategyActor:
 
                 while merged and len(evaluating) < self.num_gpus:
                     future_result, merged_path = merged.pop()
-                    model_kwargs = {}
+                    model_kwargs = {
+                        "trust_remote_code": self.merge_options.trust_remote_code
+                    }
                     if self.quantization_config is not None:
                         model_kwargs["quantization_config"] = self.quantization_config
                     evaluating[
@@ -259,7 +261,7 @@ def evaluate_genotype_serial(
     )
     if not merged_path:
         return {"score": None, "results": None}
-    model_kwargs = {}
+    model_kwargs = {"trust_remote_code": merge_options.trust_remote_code}
     if quantization_config is not None:
         model_kwargs["quantization_config"] = quantization_config
     res = ray.get(
-- 
2.43.0


From 3b6a687f2ee407ebb26868e501a26eaaf0ee2395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:50 +0000
Subject: [PATCH 129/140] fix: evolve models without an architecture definition
 in memory

---
 mergekit/evo/actors.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index 77a2d60..d470dff 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -26,7 +26,7 @@ except ImportError:
     vllm = None
 
 
-from mergekit.architecture import arch_info_for_config
+from mergekit.architecture import get_architecture_info
 from mergekit.common import get_torch_accelerator_module, get_torch_accelerator_type
 from mergekit.config import MergeConfiguration
 from mergekit.evo.config import EvolMergeConfiguration
@@ -149,7 +149,7 @@ class InMemoryMergeEvaluator(MergeActorBase):
         super().__init__(*args, vllm=vllm, **kwargs)
 
     def _maybe_init_model(self, config: MergeConfiguration):
-        ai = arch_info_for_config(self.genome._input_config_example)
+        ai = get_architecture_info(config, self.merge_options)
         cfg_out = _model_out_config(
             config,
             ai,
@@ -249,13 +249,9 @@ class InMemoryMergeEvaluator(MergeActorBase):
                 )
         else:
             self.model = lm_eval.models.huggingface.HFLM(pretrained=inner_model)
-        self.arch_info = (
-            ConfiguredModelArchitecture(
-                info=ai,
-                config=cfg_out,
-            )
-            if ai
-            else None
+        self.arch_info = ConfiguredModelArchitecture(
+            info=ai,
+            config=cfg_out,
         )
         LOG.info("Model initialized")
 
-- 
2.43.0


From 98f1a76e9f9fb57c4544c23619b0b4661ff85279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 130/140] fix: report failed evaluations in the buffered
 strategy instead of hanging

---
 mergekit/evo/strategy.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index 1e12ace..b399399 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -189,7 +189,10 @@ class BufferedRayEvaluationStrategyActor:
                         merged.append((future_result, r))
                     elif r in evaluating:
                         future_result = evaluating.pop(r)
-                        future_result.set_result(await r)
+                        try:
+                            future_result.set_result(await r)
+                        except Exception as e:
+                            future_result.set_exception(e)
 
                 if (
                     not self.input_queue
-- 
2.43.0


From e1da17da7aa958ebc77a410fd40af3e9081fa5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:10 +0000
Subject: [PATCH 131/140] fix: shuffle the evaluation data in every strategy
 where configured

---
 mergekit/evo/helpers.py  | 8 +++++++-
 mergekit/evo/strategy.py | 2 ++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/helpers.py b/mergekit/evo/helpers.py
index fd1fd1d..4ba938e 100644
--- a/mergekit/evo/helpers.py
+++ b/mergekit/evo/helpers.py
@@ -18,7 +18,10 @@ import torch
 
 from mergekit.evo.config import TaskConfiguration
 from mergekit.evo.genome import InvalidGenotypeError, ModelGenome
-from mergekit.evo.monkeypatch import monkeypatch_lmeval_vllm
+from mergekit.evo.monkeypatch import (
+    monkeypatch_lmeval_shuffle,
+    monkeypatch_lmeval_vllm,
+)
 from mergekit.merge import run_merge
 from mergekit.options import MergeOptions
 
@@ -56,10 +59,13 @@ def evaluate_model(
     batch_size: Optional[int] = None,
     task_manager: Optional[lm_eval.tasks.TaskManager] = None,
     model_kwargs: Optional[Dict[str, Any]] = None,
+    shuffle: bool = False,
     **kwargs,
 ) -> dict:
     # monkeypatch_tqdm()
     monkeypatch_lmeval_vllm()
+    if shuffle:
+        monkeypatch_lmeval_shuffle()
     try:
         model_args = {
             "pretrained": merged_path,
diff --git a/mergekit/evo/strategy.py b/mergekit/evo/strategy.py
index b399399..136b205 100644
--- a/mergekit/evo/strategy.py
+++ b/mergekit/evo/strategy.py
@@ -174,6 +174,7 @@ class BufferedRayEvaluationStrategyActor:
                             apply_chat_template=self.config.apply_chat_template,
                             fewshot_as_multiturn=self.config.fewshot_as_multiturn,
                             model_kwargs=model_kwargs,
+                            shuffle=self.config.shuffle,
                         )
                     ] = future_result
 
@@ -279,6 +280,7 @@ def evaluate_genotype_serial(
             apply_chat_template=config.apply_chat_template,
             fewshot_as_multiturn=config.fewshot_as_multiturn,
             model_kwargs=model_kwargs,
+            shuffle=config.shuffle,
         )
     )
     ray.util.remove_placement_group(pg)
-- 
2.43.0


From d911bbbc3d90b2dcf2b1ee08419360d9248681f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 132/140] fix: take down an older checkpoint's entry points
 before renaming shards over it

---
 mergekit/io/tensor_writer.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index a025d0e..9893ad7 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -168,13 +168,15 @@ class TensorWriter:
 
             # An earlier checkpoint in the same directory must not shadow this one:
             # loaders look at the index or the single file, whichever they prefer
-            if total_shards == 1:
-                stale_name = f"{prefix}.{extension}.index.json"
-            else:
-                stale_name = f"{prefix}.{extension}"
-            stale_path = os.path.join(self.out_path, stale_name)
-            if total_shards > 0 and os.path.exists(stale_path):
-                os.remove(stale_path)
+            # Nor may its index name a mixture of its shards and ours if we are
+            # interrupted while renaming
+            stale_names = [f"{prefix}.{extension}.index.json"]
+            if total_shards > 1:
+                stale_names.append(f"{prefix}.{extension}")
+            for stale_name in stale_names:
+                stale_path = os.path.join(self.out_path, stale_name)
+                if total_shards > 0 and os.path.exists(stale_path):
+                    os.remove(stale_path)
 
             for old_name, new_name in name_remap.items():
                 old_path = os.path.join(self.out_path, old_name)
-- 
2.43.0


From ba2272b5817fb68423245efeb6ec08cb31fc85db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:10 +0000
Subject: [PATCH 133/140] fix: keep older safetensors files from shadowing a
 pickled checkpoint

---
 mergekit/io/tensor_writer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mergekit/io/tensor_writer.py b/mergekit/io/tensor_writer.py
index 9893ad7..d99b548 100644
--- a/mergekit/io/tensor_writer.py
+++ b/mergekit/io/tensor_writer.py
@@ -173,6 +173,11 @@ class TensorWriter:
             stale_names = [f"{prefix}.{extension}.index.json"]
             if total_shards > 1:
                 stale_names.append(f"{prefix}.{extension}")
+            if not self.safe_serialization and not self.override_basename:
+                # preferred over pickled files by every loader
+                stale_names.extend(
+                    ["model.safetensors.index.json", "model.safetensors"]
+                )
             for stale_name in stale_names:
                 stale_path = os.path.join(self.out_path, stale_name)
                 if total_shards > 0 and os.path.exists(stale_path):
-- 
2.43.0


From 540677c07f88a3219a336dc3d0463fcd02f58eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:42 +0000
Subject: [PATCH 134/140] fix: copy additional chat templates along with the
 tokenizer

---
 mergekit/merge.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mergekit/merge.py b/mergekit/merge.py
index d37c648..bc3a410 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -313,6 +313,15 @@ def _copy_tokenizer(
                     os.path.join(donor_local_path, file_name),
                     os.path.join(out_path, file_name),
                 )
+        additional_templates = os.path.join(
+            donor_local_path, "additional_chat_templates"
+        )
+        if os.path.isdir(additional_templates):
+            shutil.copytree(
+                additional_templates,
+                os.path.join(out_path, "additional_chat_templates"),
+                dirs_exist_ok=True,
+            )
         copy_custom_code("tokenizer_config.json", donor_local_path, out_path)
 
         return
-- 
2.43.0


From 16eec84133b71bb0d6c35dd171fae741631f0a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 135/140] fix: download templates, merges and code of hub
 models along with the rest

---
 mergekit/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index 8fee52e..c94fc4f 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -178,7 +178,7 @@ class ModelReference(BaseModel, frozen=True):
                     path, repo_type="model", revision=self.model.revision
                 )
             )
-            patterns = ["tokenizer.model", "*.json"]
+            patterns = ["tokenizer.model", "merges.txt", "*.json", "*.jinja", "*.py"]
             if has_safetensors:
                 patterns.append("*.safetensors")
             else:
-- 
2.43.0


From 861eae640321622c9dc03c09e0ae5cccf68a6577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:09 +0000
Subject: [PATCH 136/140] fix: judge the weight format of hub models by the
 files a local copy is read from

---
 mergekit/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mergekit/common.py b/mergekit/common.py
index c94fc4f..24ad332 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -173,7 +173,7 @@ class ModelReference(BaseModel, frozen=True):
         path = self.model.path
         if not os.path.exists(path):
             has_safetensors = any(
-                fn.lower().endswith(".safetensors")
+                fn in ("model.safetensors", "model.safetensors.index.json")
                 for fn in huggingface_hub.list_repo_files(
                     path, repo_type="model", revision=self.model.revision
                 )
-- 
2.43.0


From 6f3f2313a1f2e9f9d169297f84d362245a3cadb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:30 +0000
Subject: [PATCH 137/140] fix: record the base model's revision in extracted
 adapters

---
 mergekit/scripts/extract_lora.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index b49d567..b71b07c 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -224,6 +224,7 @@ def make_config_dict(
     different_ranked = {k: v for k, v in module_ranks.items() if v != max_rank}
     return {
         "base_model_name_or_path": base_ref.model.path,
+        "revision": base_ref.model.revision,
         "peft_type": "LORA",
         "use_rslora": False,
         "target_modules": target_modules,
-- 
2.43.0


From 310742582020ec38dc28fc4805048cdd8b3893d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:23 +0000
Subject: [PATCH 138/140] fix: take a model's own code from the revision its
 configuration is from

---
 mergekit/architecture/auto.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 25abf27..73d1117 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -8,6 +8,7 @@ from typing import Iterable, List, Optional, Tuple
 
 import torch
 import transformers
+from transformers.dynamic_module_utils import get_class_from_dynamic_module
 from transformers.initialization import no_init_weights
 
 from mergekit.architecture.base import (
@@ -65,6 +66,12 @@ def get_transformers_info(model: ModelReference, options: MergeOptions) -> tuple
     model_obj = None
     try:
         with torch.device("meta"), no_init_weights():
+            class_ref = (getattr(cfg, "auto_map", None) or {}).get(auto_cls.__name__)
+            if model_cls is None and class_ref and options.trust_remote_code:
+                # not left to from_config, which does not know the revision
+                model_cls = get_class_from_dynamic_module(
+                    class_ref, model.model.path, revision=model.model.revision
+                )
             if model_cls is not None:
                 model_obj = model_cls(cfg)
             else:
-- 
2.43.0


From 312f4e289699ef49cdab6a8868bd592b4a18354e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:07:20 +0000
Subject: [PATCH 139/140] fix: take a model's own code from the right revision
 in in-memory evolution

---
 mergekit/evo/actors.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mergekit/evo/actors.py b/mergekit/evo/actors.py
index d470dff..c2b01cf 100644
--- a/mergekit/evo/actors.py
+++ b/mergekit/evo/actors.py
@@ -15,7 +15,9 @@ import ray.util.queue
 import ray.util.scheduling_strategies
 import torch
 import transformers
+from transformers.dynamic_module_utils import get_class_from_dynamic_module
 from transformers.initialization import no_init_weights
+from transformers.models.auto.auto_factory import add_generation_mixin_to_remote_model
 from transformers.utils import is_flash_attn_2_available
 
 from mergekit.architecture.base import ConfiguredModelArchitecture
@@ -188,9 +190,22 @@ class InMemoryMergeEvaluator(MergeActorBase):
         if is_flash_attn_2_available():
             model_kwargs["attn_implementation"] = "flash_attention_2"
 
+        donor = config.base_model or config.referenced_models()[0]
+        class_ref = (getattr(cfg_out, "auto_map", None) or {}).get(
+            "AutoModelForCausalLM"
+        )
+        if class_ref and model_kwargs.pop("trust_remote_code"):
+            # not left to AutoModelForCausalLM, which does not know the revision
+            model_cls = get_class_from_dynamic_module(
+                class_ref, donor.model.path, revision=donor.model.revision
+            )
+            from_config = add_generation_mixin_to_remote_model(model_cls)._from_config
+        else:
+            from_config = transformers.AutoModelForCausalLM.from_config
+
         with no_init_weights():
             inner_model = (
-                transformers.AutoModelForCausalLM.from_config(
+                from_config(
                     cfg_out,
                     **model_kwargs,
                 )
-- 
2.43.0


From cbb92820aec4ac88cc9d6f67805edb2d5c79b0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:09 +0000
Subject: [PATCH 140/140] fix: download the models of adapters to the given
 cache

---
 mergekit/architecture/auto.py    | 1 +
 mergekit/common.py               | 8 +++++++-
 mergekit/io/tasks.py             | 1 +
 mergekit/merge.py                | 1 +
 mergekit/scripts/evolve.py       | 1 +
 mergekit/scripts/extract_lora.py | 2 ++
 mergekit/scripts/moe.py          | 1 +
 mergekit/scripts/tokensurgeon.py | 1 +
 8 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/mergekit/architecture/auto.py b/mergekit/architecture/auto.py
index 73d1117..07d9fdd 100644
--- a/mergekit/architecture/auto.py
+++ b/mergekit/architecture/auto.py
@@ -43,6 +43,7 @@ def get_model_tensor_names(model: ModelReference, options: MergeOptions) -> List
         cache_dir=options.lora_merge_cache,
         trust_remote_code=options.trust_remote_code,
         lora_merge_dtype=options.lora_merge_dtype,
+        transformers_cache=options.transformers_cache,
     )
     loader = merged.lazy_loader(
         cache_dir=options.transformers_cache, lazy_unpickle=options.lazy_unpickle
diff --git a/mergekit/common.py b/mergekit/common.py
index 24ad332..ad7b4f8 100644
--- a/mergekit/common.py
+++ b/mergekit/common.py
@@ -103,6 +103,7 @@ class ModelReference(BaseModel, frozen=True):
         cache_dir: Optional[str] = None,
         trust_remote_code: bool = False,
         lora_merge_dtype: Optional[str] = None,
+        transformers_cache: Optional[str] = None,
     ) -> "ModelReference":
         """Merge the LoRA if applicable and return a reference to the result."""
         if not self.lora:
@@ -130,9 +131,14 @@ class ModelReference(BaseModel, frozen=True):
                 torch_dtype=dtype_from_name(lora_merge_dtype),
                 low_cpu_mem_usage=True,
                 trust_remote_code=trust_remote_code,
+                cache_dir=transformers_cache,
             )
             model = peft.PeftModel.from_pretrained(
-                model, self.lora.path, revision=self.lora.revision, is_trainable=False
+                model,
+                self.lora.path,
+                revision=self.lora.revision,
+                is_trainable=False,
+                cache_dir=transformers_cache,
             )
             logging.info(f"Merging {self.lora} into {self.model}")
             model = model.merge_and_unload()
diff --git a/mergekit/io/tasks.py b/mergekit/io/tasks.py
index 199c92a..8594cc8 100644
--- a/mergekit/io/tasks.py
+++ b/mergekit/io/tasks.py
@@ -39,6 +39,7 @@ class LoaderCache:
                 cache_dir=self.lora_cache_dir,
                 trust_remote_code=self.trust_remote_code,
                 lora_merge_dtype=self.lora_merge_dtype,
+                transformers_cache=self.hf_cache_dir,
             )
             self.loaders[model] = merged.lazy_loader(
                 cache_dir=self.hf_cache_dir, lazy_unpickle=self.lazy_unpickle
diff --git a/mergekit/merge.py b/mergekit/merge.py
index bc3a410..6322b02 100644
--- a/mergekit/merge.py
+++ b/mergekit/merge.py
@@ -227,6 +227,7 @@ def _get_donor_model(
         cache_dir=options.lora_merge_cache,
         trust_remote_code=options.trust_remote_code,
         lora_merge_dtype=options.lora_merge_dtype,
+        transformers_cache=options.transformers_cache,
     ).local_path(cache_dir=options.transformers_cache)
     if not donor_local_path:
         raise RuntimeError(f"Unable to find local path for {donor_model}")
diff --git a/mergekit/scripts/evolve.py b/mergekit/scripts/evolve.py
index 1301331..e2b0296 100644
--- a/mergekit/scripts/evolve.py
+++ b/mergekit/scripts/evolve.py
@@ -392,6 +392,7 @@ def _reshard_model(
         cache_dir=merge_cache,
         trust_remote_code=trust_remote_code,
         lora_merge_dtype="bfloat16",
+        transformers_cache=os.path.join(storage_path, "transformers_cache"),
     )
     out_path = os.path.join(
         storage_path,
diff --git a/mergekit/scripts/extract_lora.py b/mergekit/scripts/extract_lora.py
index b71b07c..900bb34 100644
--- a/mergekit/scripts/extract_lora.py
+++ b/mergekit/scripts/extract_lora.py
@@ -130,11 +130,13 @@ def main(
             cache_dir=merge_options.lora_merge_cache,
             trust_remote_code=merge_options.trust_remote_code,
             lora_merge_dtype=merge_options.lora_merge_dtype,
+            transformers_cache=merge_options.transformers_cache,
         ),
         model_ref=model_ref.merged(
             cache_dir=merge_options.lora_merge_cache,
             trust_remote_code=merge_options.trust_remote_code,
             lora_merge_dtype=merge_options.lora_merge_dtype,
+            transformers_cache=merge_options.transformers_cache,
         ),
         modules_to_save=modules_to_save,
         out_path=out_path,
diff --git a/mergekit/scripts/moe.py b/mergekit/scripts/moe.py
index f4200d4..6458785 100644
--- a/mergekit/scripts/moe.py
+++ b/mergekit/scripts/moe.py
@@ -95,6 +95,7 @@ def merge_adapters(
         cache_dir=merge_options.lora_merge_cache,
         trust_remote_code=merge_options.trust_remote_code,
         lora_merge_dtype=merge_options.lora_merge_dtype,
+        transformers_cache=merge_options.transformers_cache,
     )
     config.base_model = config.base_model.merged(**lora_options)
     for expert in config.experts + (config.shared_experts or []):
diff --git a/mergekit/scripts/tokensurgeon.py b/mergekit/scripts/tokensurgeon.py
index 7d7bba1..ebe452c 100644
--- a/mergekit/scripts/tokensurgeon.py
+++ b/mergekit/scripts/tokensurgeon.py
@@ -840,6 +840,7 @@ def main(
         cache_dir=merge_options.lora_merge_cache,
         trust_remote_code=merge_options.trust_remote_code,
         lora_merge_dtype=merge_options.lora_merge_dtype,
+        transformers_cache=merge_options.transformers_cache,
     )
     copy_custom_code(
         "config.json",
-- 
2.43.0

