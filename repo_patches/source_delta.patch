From fc0366f251917377393a1cc4acbb2e1653b5754f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 001/127] fix: reject a sub-gang rank that equals the gang size

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index feda04b..3fbd8d4 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -638,7 +638,7 @@ def _check_ranks(ranks: Sequence[int], gang_size: int) -> None:
         raise ValueError("Ranks in `ranks` must be unique.")
 
     for idx, rank in enumerate(ranks):
-        if rank < 0 or rank > gang_size:
+        if rank < 0 or rank >= gang_size:
             raise ValueError(
                 f"Rank at index {idx} in `ranks` must be greater than or equal to 0 and less than the size of the gang ({gang_size}), but is {rank} instead."
             )
-- 
2.43.0


From b050d24d02eb2fbc9480e52989883240df649620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 002/127] fix: require the coordinator to be rank 0 in every
 parallel gang

---
 src/fairseq2/gang.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 3fbd8d4..798c5e1 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -689,7 +689,7 @@ class Gangs(Closable):
 
     def __post_init__(self) -> None:
         if self.root.rank == 0:
-            if self.dp.rank != 0 or self.tp.rank != 0 and self.pp.rank != 0:
+            if self.dp.rank != 0 or self.tp.rank != 0 or self.pp.rank != 0:
                 raise ValueError(
                     "Coordinator process of the root gang (i.e. `root.rank == 0`) must be rank 0 in all parallel gangs."
                 )
-- 
2.43.0


From 589a8be332169a873143e2e188f9064a91040e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 003/127] fix: broadcast from the source rank of the gang
 instead of the default process group

---
 src/fairseq2/gang.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 798c5e1..62f8871 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -579,18 +579,31 @@ class ProcessGroupGang(Gang):
 
     @override
     def broadcast(self, tensor: Tensor, source_rank: int = 0) -> None:
+        global_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast(tensor, source_rank, group=self._pg)
+            dist.broadcast(tensor, global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast")
 
     @override
     def broadcast_objects(self, objects: list[object], source_rank: int = 0) -> None:
+        global_rank = self._get_global_rank(source_rank)
+
         try:
-            dist.broadcast_object_list(objects, source_rank, group=self._pg)
+            dist.broadcast_object_list(objects, global_rank, group=self._pg)
         except RuntimeError as ex:
             self._raise_op_failed(ex, "broadcast_object_list")
 
+    def _get_global_rank(self, rank: int) -> int:
+        # `torch.distributed` expects the rank in the default process group.
+        if rank < 0 or rank >= self.size:
+            raise ValueError(
+                f"`source_rank` must be greater than or equal to 0 and less than the size of the gang ({self.size}), but is {rank} instead."
+            )
+
+        return dist.get_global_rank(self._pg, rank)
+
     @staticmethod
     def _raise_op_failed(cause: Exception, op: str) -> NoReturn:
         raise GangError(f"`{op}()` collective operation failed.") from cause
-- 
2.43.0


From 715fc966fe6a5f3ae5a365465e3e48a9eb1ff5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 004/127] fix: make all-gather work with the Gloo backend

---
 src/fairseq2/gang.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/gang.py b/src/fairseq2/gang.py
index 62f8871..2fb6dab 100644
--- a/src/fairseq2/gang.py
+++ b/src/fairseq2/gang.py
@@ -564,7 +564,10 @@ class ProcessGroupGang(Gang):
     @override
     def all_gather(self, output_tensor: Tensor, input_tensor: Tensor) -> None:
         try:
-            dist.all_gather_into_tensor(output_tensor, input_tensor, group=self._pg)
+            # Gloo accepts only the concatenated (i.e. non-stacked) form.
+            dist.all_gather_into_tensor(
+                output_tensor.view(-1), input_tensor.reshape(-1), group=self._pg
+            )
         except RuntimeError as ex:
             self._raise_op_failed(ex, "all_gather")
 
-- 
2.43.0


From f4a9bb44b59d3aeb6c1da1caf7101bbcc9f5d233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:53 +0000
Subject: [PATCH 005/127] fix: report loss scale overflows below 1e-5

---
 src/fairseq2/optim/fp16_loss_scaler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/optim/fp16_loss_scaler.py b/src/fairseq2/optim/fp16_loss_scaler.py
index 50cce15..5f7be66 100644
--- a/src/fairseq2/optim/fp16_loss_scaler.py
+++ b/src/fairseq2/optim/fp16_loss_scaler.py
@@ -215,7 +215,7 @@ class StandardFloat16LossScaler(Float16LossScaler):
 
         new_scale = self._grad_scaler.get_scale()
 
-        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6, abs_tol=1e-5):
+        if math.isclose(new_scale, old_scale, rel_tol=1.3e-6):
             return Float16LossScaleResult(old_scale, new_scale)
 
         if new_scale > old_scale:
-- 
2.43.0


From d3f4f96245fe2da8f354da7399596f57064c3f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:01 +0000
Subject: [PATCH 006/127] fix: do not modify tensor learning rates in-place in
 CosineAnnealingLR

---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index b70444e..4d9cfba 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -139,8 +139,9 @@ class CosineAnnealingLR(AbstractLRScheduler):
         min_lrs, max_lrs = self.final_lrs, base_lrs
 
         def cycle_lr(min_lr: float | Tensor, max_lr: float | Tensor) -> float | Tensor:
-            min_lr *= lr_mul
-            max_lr *= lr_mul
+            # Must not be in-place, learning rates can be tensors.
+            min_lr = min_lr * lr_mul
+            max_lr = max_lr * lr_mul
 
             return min_lr + 0.5 * (max_lr - min_lr) * (1 + c)
 
-- 
2.43.0


From 6e59849251ec2717c46612689ae8017b329275f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:58 +0000
Subject: [PATCH 007/127] fix: restart CosineAnnealingLR cycles on time despite
 rounding

---
 src/fairseq2/optim/lr_schedulers/cosine_annealing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
index 4d9cfba..17f6b3f 100644
--- a/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
+++ b/src/fairseq2/optim/lr_schedulers/cosine_annealing.py
@@ -122,6 +122,10 @@ class CosineAnnealingLR(AbstractLRScheduler):
             # Solve the equation \sum_{i=0}^{n} len(cycle_i) + x = step for n.
             cycle_nr = int(math.log(1 - curr_step / self.cycle_len * (1 - mul), mul))
 
+            # At a restart, the logarithm can fall slightly below an integer.
+            if curr_step >= (1 - mul ** (cycle_nr + 1)) / (1 - mul) * self.cycle_len:
+                cycle_nr += 1
+
             cycle_len = int(mul**cycle_nr * self.cycle_len)
 
             # Compute the sum of the lengths of the first `cycle_nr` cycles
-- 
2.43.0


From a89c088e995a7843ed905238f6e730c358f7c4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:34 +0000
Subject: [PATCH 008/127] fix: never leave a half deleted checkpoint behind

Take the step directory (or, when the model is kept, the trainer directory)
away with a single rename before its contents get deleted.
---
 src/fairseq2/checkpoint/manager.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index d54491e..5de870d 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -675,8 +675,24 @@ class StandardCheckpointManager(CheckpointManager):
                 raise_operational_system_error(ex)
 
             if step_dir_exists:
+                # Removing a directory tree is not atomic. On local file systems
+                # take the step away with a single rename first, so that it is
+                # never found half deleted if we get interrupted.
+                is_local = self._is_local_checkpoint_dir()
+
                 try:
                     if keep_model:
+                        trainer_dir = step_dir.joinpath("trainer")
+
+                        if is_local and self._file_system.exists(trainer_dir):
+                            self._file_system.make_directory(tmp_step_dir)
+
+                            self._file_system.move(
+                                trainer_dir, tmp_step_dir.joinpath("trainer")
+                            )
+
+                            self._file_system.remove_directory(tmp_step_dir)
+
                         for path in self._file_system.glob(step_dir, pattern="*"):
                             if path.stem in ("model", "hg", "hook"):
                                 continue
@@ -685,6 +701,10 @@ class StandardCheckpointManager(CheckpointManager):
                                 self._file_system.remove_directory(path)
                             else:
                                 self._file_system.remove(path)
+                    elif is_local:
+                        self._file_system.move(step_dir, tmp_step_dir)
+
+                        self._file_system.remove_directory(tmp_step_dir)
                     else:
                         self._file_system.remove_directory(step_dir)
                 except OSError as ex:
-- 
2.43.0


From c19634bc1ac9d41e244fff85e31a70c3c7b5a988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:33 +0000
Subject: [PATCH 009/127] fix: list and read files under directories with glob
 characters in their names

FSspecFileSystem expanded the whole path as a pattern, so a run whose output
directory had a name such as 'a[1]' never found its own checkpoints.
---
 src/fairseq2/file_system.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/file_system.py b/src/fairseq2/file_system.py
index 045c5d9..d19f144 100644
--- a/src/fairseq2/file_system.py
+++ b/src/fairseq2/file_system.py
@@ -12,6 +12,7 @@ from collections.abc import Callable, Iterator, Sequence
 from contextlib import contextmanager
 from enum import Enum
 from errno import ENOENT
+from glob import escape
 from os import scandir, strerror
 from pathlib import Path
 from shutil import copytree, rmtree
@@ -235,7 +236,7 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def cat(self, path: Path) -> bytes:
-        return cast(bytes, self._fsspec.cat(self.get_short_uri(path)))
+        return cast(bytes, self._fsspec.cat_file(self.get_short_uri(path)))
 
     @override
     def move(self, old_path: Path, new_path: Path) -> None:
@@ -295,7 +296,10 @@ class FSspecFileSystem(FileSystem):
 
     @override
     def glob(self, path: Path, pattern: str) -> Iterator[Path]:
-        paths = self._fsspec.glob(self.get_short_uri(path.joinpath(pattern)))
+        # Only `pattern` is a pattern; `path` is to be taken literally.
+        literal_path = Path(escape(str(path)))
+
+        paths = self._fsspec.glob(self.get_short_uri(literal_path.joinpath(pattern)))
         return iter([Path(self.get_long_uri(p)) for p in paths])  # type: ignore
 
     @override
-- 
2.43.0


From 7b5fba98e1b95bd0cba9368a45bf9803341e7cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:55 +0000
Subject: [PATCH 010/127] fix: write checkpoint scores atomically

An interrupted write left an empty score file behind, after which every
clean-up of old checkpoints failed.
---
 src/fairseq2/checkpoint/manager.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/checkpoint/manager.py b/src/fairseq2/checkpoint/manager.py
index 5de870d..675307a 100644
--- a/src/fairseq2/checkpoint/manager.py
+++ b/src/fairseq2/checkpoint/manager.py
@@ -537,8 +537,17 @@ class StandardCheckpointManager(CheckpointManager):
 
             score_file = scores_dir.joinpath(f"step_{step_nr}.txt")
 
+            # On local file systems write to a temporary file first, so that a
+            # partially written score is never found if we get interrupted.
+            is_local = self._is_local_checkpoint_dir()
+
+            if is_local:
+                tmp_score_file = score_file.with_suffix(".tmp")
+            else:
+                tmp_score_file = score_file
+
             try:
-                fp = self._file_system.open_text(score_file, mode=FileMode.WRITE)
+                fp = self._file_system.open_text(tmp_score_file, mode=FileMode.WRITE)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
@@ -549,6 +558,12 @@ class StandardCheckpointManager(CheckpointManager):
             finally:
                 fp.close()
 
+            if is_local:
+                try:
+                    self._file_system.move(tmp_score_file, score_file)
+                except OSError as ex:
+                    raise_operational_system_error(ex)
+
         try:
             gangs.root.barrier()
         except GangError as ex:
-- 
2.43.0


From cb4ac38e66283674eb8d89a80b6bd1b8a535d7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:36 +0000
Subject: [PATCH 011/127] fix: skip validation at the start of training if
 there is no validator

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 42459c0..33bdf9f 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -466,7 +466,7 @@ class Trainer(Task):
                         self._state = self._stop()
 
     def _pre_validate(self) -> _TrainerState:
-        if self._validate is not None:
+        if self._validator is not NOOP_VALIDATOR:
             self._validate()
 
         return _TrainerState.DATA_LOAD
-- 
2.43.0


From f92c4e77f229f1ed844075cd774d04f695bd19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 012/127] fix: honour stop requests also when max_num_steps is
 set

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 33bdf9f..40ba2d1 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -682,7 +682,8 @@ class Trainer(Task):
         if self._max_num_steps is not None:
             if self._step_nr >= self._max_num_steps:
                 return _TrainerState.END_OF_TRAINING
-        elif self._stop_requested:
+
+        if self._stop_requested:
             return _TrainerState.STOP_REQUESTED
 
         self._maybe_save_checkpoint(blocking=False)
-- 
2.43.0


From 1b9dda22adff4acfef9198d175d4b3a14a68540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 013/127] fix: do not mistake an epoch of gradient overflows
 for an empty dataset

---
 src/fairseq2/trainer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 40ba2d1..eb794c4 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -483,7 +483,7 @@ class Trainer(Task):
 
             self._data_reader.reset()
 
-        if self._step_nr == 0:
+        if self._step_nr == 0 and self._first_iter:
             log.info("Dataset is empty or too small to train. Stopping training.")
 
             return _TrainerState.STOPPED
-- 
2.43.0


From c2dba79965f6a35c91b195469ea52cd2cd7290f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 014/127] fix: do not count an overflowed step when stopping

A stop request during a step with overflowed gradients saved a checkpoint
for a step that was never taken.
---
 src/fairseq2/trainer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index eb794c4..c964c7e 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -667,15 +667,18 @@ class Trainer(Task):
             log.info("Overflow detected at step {}, ignoring gradient, decreasing loss scale from {:g} to {:g}.", self._step_nr, result.old_scale, result.new_scale)  # fmt: skip
 
     def _repeat_step(self, progress_task: ProgressTask) -> _TrainerState:
-        if self._stop_requested:
-            return _TrainerState.STOP_REQUESTED
-
-        log.debug("Repeating step {}.", self._step_nr)
+        step_nr = self._step_nr
 
+        # The step has not been taken, no matter whether we repeat it or stop.
         self._step_nr -= 1
 
         progress_task.step(-1)
 
+        if self._stop_requested:
+            return _TrainerState.STOP_REQUESTED
+
+        log.debug("Repeating step {}.", step_nr)
+
         return _TrainerState.DATA_LOAD
 
     def _run_post_step(self) -> _TrainerState:
-- 
2.43.0


From 2fe906e5aed62cefc9b85ddc61567a1f1c878d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:17 +0000
Subject: [PATCH 015/127] fix: complete a pending checkpoint when the end of
 data is reached

---
 src/fairseq2/trainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index c964c7e..473cc1e 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -720,6 +720,12 @@ class Trainer(Task):
         else:
             self._maybe_save_checkpoint(blocking=True)
 
+            # If there is nothing to save for this step, a previous checkpoint
+            # might still be in progress.
+            self._maybe_complete_checkpoint_save_operation()
+
+            self._maybe_complete_hg_export_operation()
+
         return _TrainerState.STOPPED
 
     def _early_stop(self) -> _TrainerState:
-- 
2.43.0


From 75a38237adb2d367778dc534581ded3cf10dd659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:36 +0000
Subject: [PATCH 016/127] fix: resume from the right data epoch after a
 checkpoint in the last or at the end of an epoch

---
 src/fairseq2/trainer.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 473cc1e..23bc889 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -410,7 +410,7 @@ class Trainer(Task):
                 return _TrainerState.STOPPED
 
         if self._max_num_data_epochs is not None:
-            if self._data_epoch_nr >= self._max_num_data_epochs:
+            if self._data_epoch_nr > self._max_num_data_epochs:
                 return _TrainerState.STOPPED
 
         return _TrainerState.DATA_LOAD
@@ -1177,9 +1177,19 @@ class _TrainerProxy(Stateful):
 
         base_wall_time = self._trainer._base_wall_time + wall_time
 
+        # At the end of an epoch the data reader has already been moved to the
+        # beginning of the next one.
+        data_epoch_nr = self._trainer._data_epoch_nr
+
+        if self._trainer._state in (
+            _TrainerState.END_OF_DATA_EPOCH,
+            _TrainerState.END_OF_DATA,
+        ):
+            data_epoch_nr += 1
+
         state_dict: dict[str, object] = {
             "_step_nr": self._trainer._step_nr,
-            "_data_epoch_nr": self._trainer._data_epoch_nr,
+            "_data_epoch_nr": data_epoch_nr,
             "_lr_scheduler": self._trainer._lr_scheduler.state_dict(),
             "_fp16_loss_scaler": self._trainer._fp16_loss_scaler.state_dict(),
             "_rng_bag": self._trainer._rng_bag.state_dict(),
-- 
2.43.0


From fd889c1d8b9eafe62cb7c4f8bafa2d85222bd88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 017/127] fix: list checkpoints in all processes before
 deleting their non-model state

---
 src/fairseq2/trainer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 23bc889..1752c4d 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -1027,6 +1027,12 @@ class Trainer(Task):
     def _delete_previous_non_model_checkpoints(self) -> None:
         step_nrs = self._checkpoint_manager.get_step_numbers(exclude_model_only=True)
 
+        # Ensure that no process starts deleting while others are still listing.
+        try:
+            self._gangs.root.barrier()
+        except GangError as ex:
+            raise_operational_gang_error(ex)
+
         num_steps = len(step_nrs)
         if num_steps <= 1:
             return
-- 
2.43.0


From a6a06dc53dc71f45142d675ef68271059e765879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:05 +0000
Subject: [PATCH 018/127] fix: do not save a checkpoint if training is stopped
 before its first step

---
 src/fairseq2/trainer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 1752c4d..5b89d76 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -1104,7 +1104,8 @@ class Trainer(Task):
             return False
 
         if self._state == _TrainerState.STOP_REQUESTED:
-            return True
+            # There is nothing to do if we have not taken a single step.
+            return self._step_nr > 0
 
         if self._state == _TrainerState.EARLY_STOP:
             already_done = should_do_at_step()
-- 
2.43.0


From c28f4e46a253504142df0bdde55ada6697df0600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 019/127] fix: do not skip gradient normalization in processes
 that have no targets

---
 src/fairseq2/nn/utils/grad.py | 3 +++
 src/fairseq2/trainer.py       | 9 +++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 465ae67..2b152ca 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -34,6 +34,9 @@ def normalize_grads(module: Module, gang: Gang, num_targets: int) -> None:
     """
     total_num_targets = all_sum(gang, num_targets)
 
+    # If no process has any targets, the gradients are already zero.
+    total_num_targets = total_num_targets.clamp(min=1)
+
     # Both DDP and FSDP divide gradients by the world size which we also undo.
     scale_grads(module, gang.size / total_num_targets)
 
diff --git a/src/fairseq2/trainer.py b/src/fairseq2/trainer.py
index 5b89d76..693dce8 100644
--- a/src/fairseq2/trainer.py
+++ b/src/fairseq2/trainer.py
@@ -552,7 +552,7 @@ class Trainer(Task):
 
         gangs = self._gangs
 
-        num_targets = 0
+        num_targets: int | None = None
 
         with self._compute_watch:
             with record_function(f"step_{step_nr}_setup"):
@@ -581,7 +581,7 @@ class Trainer(Task):
                         if num_batch_targets is None:
                             loss = loss / num_batches
                         else:
-                            num_targets += num_batch_targets
+                            num_targets = (num_targets or 0) + num_batch_targets
 
                         with record_function(f"step_{step_nr}_{batch_nr}_backward"):
                             self._fp16_loss_scaler.backward(loss)
@@ -595,8 +595,9 @@ class Trainer(Task):
             # This function gathers the total number of logit targets across all
             # processes and divides the gradients by it. This is needed when the
             # batches have varying sizes and we cannot normalize the loss before
-            # the backward pass.
-            if num_targets > 0:
+            # the backward pass. Note that it is a collective operation, so it must
+            # be called even if this process has no targets in this step.
+            if num_targets is not None:
                 normalize_grads(self._model, gangs.dp, num_targets)
 
             self._fp16_loss_scaler.unscale_grads_(self._optimizer)
-- 
2.43.0


From d3ca5b32b925826a1a6d02c2d6953f1a0c40dcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:57 +0000
Subject: [PATCH 020/127] fix: detect gradient norms that are not finite in
 some processes only

---
 src/fairseq2/nn/utils/grad.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/nn/utils/grad.py b/src/fairseq2/nn/utils/grad.py
index 2b152ca..d360558 100644
--- a/src/fairseq2/nn/utils/grad.py
+++ b/src/fairseq2/nn/utils/grad.py
@@ -150,13 +150,15 @@ def check_grad_norms(local_norm: Tensor, gang: Gang, step_nr: int) -> None:
 
     gang.all_gather(norms, local_norm)
 
-    if all_finite := norms.isfinite().all():
+    finite = norms.isfinite()
+
+    if finite.all():
         delta = (norms - norms[0]).abs().max() / (norms[0] + 1e-6)
 
         if (delta < 1e-6).all():
             return
     else:
-        if all_finite.logical_not().all():  # Check if all Inf/NaN.
+        if finite.logical_not().all():  # Check if all Inf/NaN.
             return
 
     raise InconsistentGradNormError(step_nr, norms.tolist())
-- 
2.43.0


From 8bcfa6895e5ffc8141386787a25e04e4cc84df0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 021/127] fix: make ChunkedAttentionBias mask the positions
 outside of the chunk

---
 src/fairseq2/models/transformer/attention_bias.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 7150de0..12df6d2 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -134,10 +134,8 @@ class ChunkedAttentionBias(AttentionBias):
 
         mask: Tensor = (block_pos == 0) & (token_pos <= 0)
 
-        mask = mask.to(dtype)
-
         # (S, S)
-        return mask
+        return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
         return f"ChunkedAttentionBias(attn_chunk_size={self.attn_chunk_size})"
-- 
2.43.0


From 728612da229d47b36e77060ac5338aa5baaf0812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:21 +0000
Subject: [PATCH 022/127] fix: mask padding if all sequences in a padded batch
 have length 1

---
 src/fairseq2/models/transformer/attention_bias.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 12df6d2..3fb3054 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -379,8 +379,9 @@ def maybe_get_attention_bias_tensor(
             return None
 
     if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
+        # A single query can attend to all keys, unless some keys are padding.
         if not q_layout.packed:
-            if q_layout.max_seq_len == 1:
+            if q_layout.width == 1 and not k_layout.padded:
                 return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
-- 
2.43.0


From f858bf3436378b014a7b667ed25b2e417996420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 023/127] fix: apply the attention window and chunk also when
 there are more keys than queries

---
 .../models/transformer/attention_bias.py      | 40 +++++++++++--------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 3fb3054..82775f8 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -76,7 +76,7 @@ class CausalAttentionBias(AttentionBias):
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
         if self.attn_window_len is None:
-            attn_window_len = q_len
+            attn_window_len = k_len
         else:
             attn_window_len = self.attn_window_len
 
@@ -121,20 +121,24 @@ class ChunkedAttentionBias(AttentionBias):
     def create_bias_tensor(
         self, q_len: int, k_len: int, device: Device, dtype: DataType
     ) -> Tensor:
-        if q_len != k_len:
-            raise ValueError(f"`q_len` and `k_len` must be equal: {q_len} != {k_len}")
+        if q_len > k_len:
+            raise ValueError(
+                f"`q_len` must be less than or equal to `k_len` ({k_len}), but is {q_len} instead."
+            )
+
+        # The queries are the last `q_len` positions of the sequence.
+        # (S, 1)
+        q_pos = torch.arange(k_len - q_len, k_len, device=device).unsqueeze(1)
+        # (1, S_kv)
+        k_pos = torch.arange(k_len, device=device).unsqueeze(0)
 
-        # (S, S)
-        block_pos = (
-            torch.arange(q_len, device=device).unsqueeze(0) // self.attn_chunk_size
-        ) - (torch.arange(q_len, device=device).unsqueeze(1) // self.attn_chunk_size)
-        token_pos = torch.arange(q_len, device=device).unsqueeze(0) - torch.arange(
-            q_len, device=device
-        ).unsqueeze(1)
+        # (S, S_kv)
+        block_pos = (k_pos // self.attn_chunk_size) - (q_pos // self.attn_chunk_size)
+        token_pos = k_pos - q_pos
 
         mask: Tensor = (block_pos == 0) & (token_pos <= 0)
 
-        # (S, S)
+        # (S, S_kv)
         return mask.to(dtype).log_()
 
     def __repr__(self) -> str:
@@ -188,7 +192,7 @@ class ALiBiAttentionBias(AttentionBias):
             causal_bias = _create_causal_bias_tensor(
                 q_len,
                 k_len,
-                q_len,
+                k_len,
                 from_bottom_right=True,
                 device=device,
                 dtype=dtype,
@@ -222,7 +226,7 @@ def _create_causal_bias_tensor(
 
     bias.tril_(diagonal=d)
 
-    if attn_window_len < q_len:
+    if attn_window_len < k_len:
         bias.triu_(diagonal=d - attn_window_len + 1)
 
     bias.log_()
@@ -378,11 +382,15 @@ def maybe_get_attention_bias_tensor(
         if full_q and full_k:
             return None
 
-    if isinstance(bias, CausalAttentionBias) or isinstance(bias, ChunkedAttentionBias):
-        # A single query can attend to all keys, unless some keys are padding.
+    if isinstance(bias, CausalAttentionBias):
+        # A single query can attend to all keys in its window, unless some keys
+        # are padding.
         if not q_layout.packed:
             if q_layout.width == 1 and not k_layout.padded:
-                return None
+                attn_window_len = bias.attn_window_len
+
+                if attn_window_len is None or attn_window_len >= k_layout.width:
+                    return None
 
     return _get_attention_bias_tensor(  # type: ignore[no-any-return]
         bias, q, q_layout, k_layout, bias_cache
-- 
2.43.0


From 1bb346e2bbafea9131784adbba7963a059ff5ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:09 +0000
Subject: [PATCH 024/127] fix: support ALiBi with padded and packed batches

---
 src/fairseq2/models/transformer/attention_bias.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 82775f8..1dacf66 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -313,13 +313,19 @@ def _create_block_bias_tensor(
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
         if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+            tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
-            tensor[q_begin:q_end, k_begin:k_end] = bias.create_bias_tensor(
+            block = bias.create_bias_tensor(
                 q_end - q_begin, k_end - k_begin, device, dtype
             )
 
+            # The bias might be specific to each head.
+            if block.ndim == 3 and tensor.ndim == 2:
+                tensor = tensor.repeat(block.size(0), 1, 1)
+
+            tensor[..., q_begin:q_end, k_begin:k_end] = block
+
         prev_q_end = q_end
         prev_k_end = k_end
 
-- 
2.43.0


From 335ec4fc1dd4f3cd87c82d0bbaa4008d34960dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:43 +0000
Subject: [PATCH 025/127] fix: do not mask all keys of a padding query

---
 src/fairseq2/models/transformer/attention_bias.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/attention_bias.py b/src/fairseq2/models/transformer/attention_bias.py
index 1dacf66..d09079a 100644
--- a/src/fairseq2/models/transformer/attention_bias.py
+++ b/src/fairseq2/models/transformer/attention_bias.py
@@ -312,8 +312,12 @@ def _create_block_bias_tensor(
     prev_k_end = 0
 
     for (q_begin, q_end), (k_begin, k_end) in zip(q_seq_ranges, k_seq_ranges):
-        if prev_q_end != q_begin and prev_k_end != k_begin:  # pad
-            tensor[..., prev_q_end:q_begin, prev_k_end:k_begin] = 0.0
+        if prev_q_end != q_begin:  # pad
+            # If there is no padding in the keys, let the padding in the queries
+            # attend to all of them. A row that is fully masked would be NaN.
+            k_pad_begin = prev_k_end if prev_k_end != k_begin else 0
+
+            tensor[..., prev_q_end:q_begin, k_pad_begin:k_begin] = 0.0
 
         if q_begin != q_end and k_begin != k_end:
             block = bias.create_bias_tensor(
-- 
2.43.0


From 45f4bbbf480b4663044d4c9418bb388801e10c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 026/127] fix: keep the keys that the window of an appended
 sequence covers

LocalAttentionState lost keys or held stale ones if more than one position was
appended at once.
---
 .../models/transformer/multihead_attention.py | 29 +++++++++----------
 1 file changed, 13 insertions(+), 16 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 07b6f66..d0301f7 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -822,33 +822,30 @@ class LocalAttentionState(AttentionState):
         self._k[:, :copy_len] = k[:, -copy_len:]
         self._v[:, :copy_len] = v[:, -copy_len:]
 
-        self._seq_len = seq_len
+        self._seq_len = copy_len
 
     @override
     def append(self, k: Tensor, v: Tensor) -> None:
         input_seq_len = k.size(1)
 
-        self._expand_kv(input_seq_len)
+        pos = self._seq_len
 
-        if self._seq_len + input_seq_len > self._attn_window_len:
-            copy_len = min(input_seq_len, self._attn_window_len)
+        if pos + input_seq_len > self._attn_window_len:
+            # The first position of the input can look at the last
+            # `attn_window_len - 1` positions before it.
+            start = pos - min(pos, self._attn_window_len - 1)
 
-            if copy_len == self._attn_window_len:
-                pos = 0
-            else:
-                self._k = torch.roll(self._k, shifts=-copy_len, dims=1)
-                self._v = torch.roll(self._v, shifts=-copy_len, dims=1)
+            self._k = torch.cat([self._k[:, start:pos], k], dim=1)
+            self._v = torch.cat([self._v[:, start:pos], v], dim=1)
 
-                pos = self._attn_window_len - copy_len
+            self._seq_len = self._k.size(1)
         else:
-            pos = self._seq_len
-
-            copy_len = input_seq_len
+            self._expand_kv(input_seq_len)
 
-        self._k[:, pos : pos + copy_len] = k[:, -copy_len:]
-        self._v[:, pos : pos + copy_len] = v[:, -copy_len:]
+            self._k[:, pos : pos + input_seq_len] = k
+            self._v[:, pos : pos + input_seq_len] = v
 
-        self._seq_len += input_seq_len
+            self._seq_len += input_seq_len
 
     def _expand_kv(self, input_seq_len: int) -> None:
         if self._capacity_increment is None:
-- 
2.43.0


From dde7b07b0f0e8f8279d4bbc399dbc1afd0f9e2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:33 +0000
Subject: [PATCH 027/127] fix: reorder static attention state also if the batch
 size stays the same

---
 src/fairseq2/models/transformer/multihead_attention.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index d0301f7..cc75bbf 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -949,9 +949,8 @@ class StaticAttentionState(AttentionState):
 
     @override
     def reorder(self, new_order: Tensor) -> None:
-        if new_order.size(0) != self._k.size(0):
-            self._k = self._k.index_select(0, new_order)
-            self._v = self._v.index_select(0, new_order)
+        self._k = self._k.index_select(0, new_order)
+        self._v = self._v.index_select(0, new_order)
 
     @override
     def size_bytes(self) -> int:
-- 
2.43.0


From 2a0f089dfe8c0cd32a222a2e710258026c65a33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 028/127] fix: accept padded batches in Conv1dFbankSubsampler

Padded instead of packed batches were rejected. Zero out the padding before each
convolution so that it does not leak into the features.
---
 .../s2t_transformer/feature_extractor.py      | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 02c2ae9..21170d1 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -18,6 +18,7 @@ from fairseq2.data_type import DataType
 from fairseq2.device import Device
 from fairseq2.models.feature_extractor import SequenceFeatureExtractor
 from fairseq2.nn import BatchLayout
+from fairseq2.nn.utils.mask import apply_mask
 
 
 @final
@@ -98,36 +99,36 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             :math:`N` is the batch size, :math:`S` is the number of frames, and
             :math:`C` is the number of channels.
         """
-        if seqs_layout.padded:
+        if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
-        # Apply the convolution along the temporal dimension (i.e. along the
-        # sequence).
-        # (N, S, C) -> (N, C, S)
-        seqs = seqs.transpose(1, 2)
+        for layer in self.layers:
+            if seqs_layout.padded:
+                # We have to ensure that the padded elements are correctly set
+                # to zero; otherwise, noise will leak into the feature maps.
+                seqs = apply_mask(seqs, seqs_layout.position_indices >= 0)
 
-        # (N, C, S) -> (N, F, S_out)
-        seqs = self.layers(seqs)
+            # Apply the convolution along the temporal dimension (i.e. along the
+            # sequence).
+            # (N, S, C) -> (N, C, S)
+            seqs = seqs.transpose(1, 2)
 
-        # (N, F, S_out) -> (N, S_out, F)
-        seqs = seqs.transpose(1, 2)
+            # (N, C, S) -> (N, F, S_out)
+            seqs = layer(seqs)
 
-        if seqs_layout.padded:
-            # Since we contracted the temporal dimension, we should re-compute
-            # the sequence lengths.
-            seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
-        else:
-            seq_lens = None
+            # (N, F, S_out) -> (N, S_out, F)
+            seqs = seqs.transpose(1, 2)
 
-        seqs_layout = BatchLayout.of(seqs, seq_lens)
+            if seqs_layout.padded:
+                # Since we contracted the temporal dimension, we should
+                # re-compute the sequence lengths.
+                seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
+            else:
+                seq_lens = None
+
+            seqs_layout = BatchLayout.of(seqs, seq_lens)
 
         return seqs, seqs_layout
 
     def _contract_seq_lens(self, seq_lens: Sequence[int]) -> list[int]:
-        seq_lens = list(seq_lens)
-
-        for _ in range(len(self.layers)):
-            for i in range(len(seq_lens)):
-                seq_lens[i] = math.floor(((seq_lens[i] - 1) / self.STRIDE) + 1.0)
-
-        return seq_lens
+        return [math.floor(((n - 1) / self.STRIDE) + 1.0) for n in seq_lens]
-- 
2.43.0


From 936bc541b20f5fb416c7870d1c76f49719fc34ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 029/127] fix: use the layout of all cached keys in layers that
 share key/values

---
 src/fairseq2/models/transformer/multihead_attention.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index cc75bbf..3f8d812 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -413,6 +413,10 @@ class StandardMultiheadAttention(MultiheadAttention):
         if pre_computed_kv is not None:
             # KV sharing: use pre-computed K/V from source layer
             k, v = pre_computed_kv
+
+            # The source layer returns the keys of all decoding steps so far.
+            if not self.training and state_bag is not None:
+                keys_layout = BatchLayout.of(k)
         elif self.training or state_bag is None:
             # Full forward pass (training or no incremental state)
             # k: (N, S_kv, M) -> (N, S_kv, H_kv, K_h)
-- 
2.43.0


From 230d871b5073703e0917d98a57a504e74a872d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 030/127] fix: sinusoidal position encodings with a single
 frequency

---
 src/fairseq2/nn/position_encoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index 9ea280c..c3e8ae2 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -201,7 +201,7 @@ def _fill_sin_freq_table(
     indices = torch.arange(num_sin, device=steps.device, dtype=steps.dtype)
 
     # This is identical to tensor2tensor's implementation.
-    freqs = torch.exp(indices * -math.log(10000.0) / (num_sin - correction))
+    freqs = torch.exp(indices * -math.log(10000.0) / max(num_sin - correction, 1))
 
     # (S) x (E) -> (S, E)
     torch.outer(steps, freqs, out=l_half)
-- 
2.43.0


From 61e969521c3cff03f6ce562d71a472dbfcd58d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:53 +0000
Subject: [PATCH 031/127] fix: interpolate sinusoidal encodings to exactly the
 input's dimensions

A grid of another aspect ratio, or one for which the scale factor was rounded
down, ended up with the wrong shape.
---
 src/fairseq2/nn/position_encoder.py | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/fairseq2/nn/position_encoder.py b/src/fairseq2/nn/position_encoder.py
index c3e8ae2..4bc9956 100644
--- a/src/fairseq2/nn/position_encoder.py
+++ b/src/fairseq2/nn/position_encoder.py
@@ -785,11 +785,6 @@ class Sinusoidal2dPositionEncoder(SinusoidalNdPositionEncoder):
         if frq_dims == inp_dims:
             return freqs
 
-        frq_h, frq_w = frq_dims
-        inp_h, inp_w = inp_dims
-
-        scale_factor = math.sqrt((inp_h * inp_w) / (frq_h * frq_w))
-
         # (H_frq, W_frq, E) -> (1, H_frq, W_frq, E)
         freqs = freqs.unsqueeze(0)
 
@@ -797,7 +792,7 @@ class Sinusoidal2dPositionEncoder(SinusoidalNdPositionEncoder):
         freqs = freqs.permute(0, 3, 1, 2)
 
         # (1, E, H_frq, W_frq) -> (1, E, H_inp, W_inp)
-        freqs = interpolate(freqs, scale_factor=scale_factor, mode="bicubic")
+        freqs = interpolate(freqs, size=inp_dims, mode="bicubic")
 
         # (1, E, H_inp, W_inp) -> (1, H_inp, W_inp, E)
         freqs = freqs.permute(0, 2, 3, 1)
@@ -904,11 +899,6 @@ class Sinusoidal3dPositionEncoder(SinusoidalNdPositionEncoder):
         if frq_dims == inp_dims:
             return freqs
 
-        frq_d, frq_h, frq_w = frq_dims
-        inp_d, inp_h, inp_w = inp_dims
-
-        scale_factor = (inp_d / frq_d, inp_h / frq_h, inp_w / frq_w)
-
         # (D_frq, H_frq, W_frq, E) -> (1, D_frq, H_frq, W_frq, E)
         freqs = freqs.unsqueeze(0)
 
@@ -916,7 +906,7 @@ class Sinusoidal3dPositionEncoder(SinusoidalNdPositionEncoder):
         freqs = freqs.permute(0, 4, 1, 2, 3)
 
         # (1, E, D_frq, H_frq, W_frq) -> (1, E, D_inp, H_inp, W_inp)
-        freqs = interpolate(freqs, scale_factor=scale_factor, mode="trilinear")
+        freqs = interpolate(freqs, size=inp_dims, mode="trilinear")
 
         # (1, E, D_inp, H_inp, W_inp) -> (1, D_inp, H_inp, W_inp, E)
         freqs = freqs.permute(0, 2, 3, 4, 1)
-- 
2.43.0


From 88f56618dcca40dc9e54e3c098055f67271a7972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:53 +0000
Subject: [PATCH 032/127] fix: mask padding before each layer of
 Wav2Vec2StackedPositionEncoder

---
 src/fairseq2/models/wav2vec2/position_encoder.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/wav2vec2/position_encoder.py b/src/fairseq2/models/wav2vec2/position_encoder.py
index 6dd6b40..72dbbbb 100644
--- a/src/fairseq2/models/wav2vec2/position_encoder.py
+++ b/src/fairseq2/models/wav2vec2/position_encoder.py
@@ -214,6 +214,8 @@ class Wav2Vec2StackedPositionEncoder(PositionEncoder):
         if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
+        padding_mask: Tensor | None = None
+
         if seqs_layout.padded:
             padding_mask = seqs_layout.position_indices >= 0
 
@@ -224,8 +226,13 @@ class Wav2Vec2StackedPositionEncoder(PositionEncoder):
         # (N, S, E) -> (N, E, S)
         encodings = seqs.transpose(1, 2)
 
-        # (N, E, S) -> (N, E, S)
-        encodings = self.layers(encodings)
+        for idx, layer in enumerate(self.layers):
+            # The output of the previous layer is not zero at padded elements.
+            if idx > 0 and padding_mask is not None:
+                encodings = apply_mask(encodings, padding_mask.unsqueeze(1))
+
+            # (N, E, S) -> (N, E, S)
+            encodings = layer(encodings)
 
         # (N, E, S) -> (N, S, E)
         encodings = encodings.transpose(1, 2)
-- 
2.43.0


From 568779520f702fef4d938ae3883cf1c6687a3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:26 +0000
Subject: [PATCH 033/127] fix: do not reduce shared gradients in place

---
 src/fairseq2/ops/tensor_parallel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/ops/tensor_parallel.py b/src/fairseq2/ops/tensor_parallel.py
index 21264cd..3fb9809 100644
--- a/src/fairseq2/ops/tensor_parallel.py
+++ b/src/fairseq2/ops/tensor_parallel.py
@@ -102,6 +102,9 @@ class _ReduceOnBackwardFunction(Function):
 
     @staticmethod
     def backward(ctx: Any, grad_output: Tensor) -> tuple[Tensor, None]:
+        # `grad_output` might be shared with other nodes of the graph.
+        grad_output = grad_output.clone(memory_format=torch.contiguous_format)
+
         ctx.gang.all_reduce(grad_output, ReduceOperation.SUM)
 
         return grad_output, None
-- 
2.43.0


From c06604e1dd75cc57f45c9dd0f4937857752b74d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 034/127] fix: reduce the gradients of query/key/value norms
 over sharded heads

---
 .../models/transformer/multihead_attention.py | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/transformer/multihead_attention.py b/src/fairseq2/models/transformer/multihead_attention.py
index 3f8d812..c53bc96 100644
--- a/src/fairseq2/models/transformer/multihead_attention.py
+++ b/src/fairseq2/models/transformer/multihead_attention.py
@@ -14,6 +14,7 @@ from typing import TYPE_CHECKING, Final, Protocol, final
 import torch
 import torch.nn as nn
 from torch import Tensor
+from torch.func import functional_call
 from torch.nn import Module
 from torch.utils.hooks import RemovableHandle
 from typing_extensions import override
@@ -37,6 +38,7 @@ from fairseq2.nn import (
 )
 from fairseq2.nn.utils.module import get_name_or_self
 from fairseq2.ops import repeat_interleave
+from fairseq2.ops.tensor_parallel import reduce_on_backward
 from fairseq2.utils.warn import _warn_deprecated
 
 
@@ -525,7 +527,7 @@ class StandardMultiheadAttention(MultiheadAttention):
         q = q.unflatten(-1, (-1, self.head_dim))
 
         if self.q_norm is not None:
-            q = self.q_norm(q)
+            q = _normalize_heads(q, self.q_norm, self.q_proj)
 
         if self.pos_encoder is not None:
             q = self.pos_encoder(q, seqs_layout, state_bag=state_bag)
@@ -550,10 +552,10 @@ class StandardMultiheadAttention(MultiheadAttention):
         v = v.unflatten(-1, (-1, self.head_dim))
 
         if self.k_norm is not None:
-            k = self.k_norm(k)
+            k = _normalize_heads(k, self.k_norm, self.k_proj)
 
         if self.v_norm is not None:
-            v = self.v_norm(v)
+            v = _normalize_heads(v, self.v_norm, self.v_proj)
 
         if self.pos_encoder is not None:
             k = self.pos_encoder(k, keys_layout, state_bag=state_bag)
@@ -579,6 +581,20 @@ class StandardMultiheadAttention(MultiheadAttention):
         return s
 
 
+def _normalize_heads(x: Tensor, norm: LayerNorm, proj: Projection) -> Tensor:
+    if not isinstance(proj, ColumnShardedLinear):
+        return norm(x)
+
+    if not proj.sharded or proj.gather_output:
+        return norm(x)
+
+    # The parameters of `norm` are replicated, but `x` has only the heads of this
+    # rank, therefore their gradients have to be reduced.
+    params = {n: reduce_on_backward(p, proj.tp_gang) for n, p in norm.named_parameters()}
+
+    return functional_call(norm, params, (x,))  # type: ignore[no-any-return]
+
+
 def init_qkv_projection(proj: Linear) -> None:
     """Initialize ``proj`` as a multi-head attention input projection."""
     # Empirically observed the convergence to be much better with the scaled
-- 
2.43.0


From 9a8236dabf9d82b62fe23d8446f29f47204dbe20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:50 +0000
Subject: [PATCH 035/127] fix: normalize queries and keys of OLMO over the
 heads of all ranks

---
 src/fairseq2/models/olmo/attention.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/olmo/attention.py b/src/fairseq2/models/olmo/attention.py
index 40204ae..7ec6348 100644
--- a/src/fairseq2/models/olmo/attention.py
+++ b/src/fairseq2/models/olmo/attention.py
@@ -38,6 +38,7 @@ from fairseq2.nn import (
 )
 from fairseq2.nn.utils.module import get_name_or_self
 from fairseq2.ops import repeat_interleave
+from fairseq2.ops.tensor_parallel import gather, scatter
 
 
 @final
@@ -200,14 +201,14 @@ class OLMOMultiheadAttention(MultiheadAttention):
         # Q: (N, S, K_proj) -> norm -> (N, S, H, K_h)
         q = self.q_proj(seqs)
         if self.q_norm is not None:
-            q = self.q_norm(q)
+            q = self._normalize(q, self.q_norm, self.q_proj)
         q = q.unflatten(-1, (-1, self.head_dim))
 
         # K, V: (N, S, K_proj) -> norm -> (N, S, H, K_h)
         k = self.k_proj(keys)
         v = self.v_proj(values)
         if self.k_norm is not None:
-            k = self.k_norm(k)
+            k = self._normalize(k, self.k_norm, self.k_proj)
         k = k.unflatten(-1, (-1, self.head_dim))
         v = v.unflatten(-1, (-1, self.head_dim))
 
@@ -260,6 +261,15 @@ class OLMOMultiheadAttention(MultiheadAttention):
         # Output projection: (N, S, V_proj) -> (N, S, M)
         return self.output_proj(attns)
 
+    def _normalize(self, x: Tensor, norm: LayerNorm, proj: Projection) -> Tensor:
+        if not isinstance(proj, ColumnShardedLinear) or not proj.sharded:
+            return norm(x)
+
+        # Normalized over all heads, including those of other ranks.
+        x = gather(x, proj.tp_gang)
+
+        return scatter(norm(x), proj.tp_gang)
+
     @override
     def extra_repr(self) -> str:
         """:meta private:"""
-- 
2.43.0


From 117ba7aae9e76a5e588593df90553347ed30084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 036/127] fix: pair the right halves in a sharded Dauphin
 network

---
 src/fairseq2/models/transformer/ffn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 960adac..20a4f5e 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -173,11 +173,13 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
         """
         super().__init__()
 
+        # The two halves of the output have to be paired, so it cannot be left
+        # sharded.
         self.inner_proj = ColumnShardedLinear(
             model_dim,
             inner_dim * 2,
             bias,
-            gather_output=False,
+            gather_output=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
@@ -202,7 +204,7 @@ class DauphinFeedForwardNetwork(FeedForwardNetwork):
             inner_dim,
             model_dim,
             bias,
-            scatter_input=False,
+            scatter_input=True,
             init_fn=proj_init_fn,
             gangs=gangs,
             device=device,
-- 
2.43.0


From 5b1b64454d163acd7ff5885fda03fd5e00453909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:40 +0000
Subject: [PATCH 037/127] fix: sparsify the gate of a sharded GLU network over
 all ranks

---
 src/fairseq2/models/transformer/ffn.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/transformer/ffn.py b/src/fairseq2/models/transformer/ffn.py
index 20a4f5e..3127d3c 100644
--- a/src/fairseq2/models/transformer/ffn.py
+++ b/src/fairseq2/models/transformer/ffn.py
@@ -20,6 +20,7 @@ from fairseq2.data_type import DataType
 from fairseq2.device import Device
 from fairseq2.gang import Gangs
 from fairseq2.nn import ColumnShardedLinear, Linear, Projection, RowShardedLinear
+from fairseq2.ops.tensor_parallel import gather, scatter
 
 
 class FeedForwardNetwork(Module, ABC):
@@ -379,7 +380,15 @@ class GLUFeedForwardNetwork(FeedForwardNetwork):
 
         # Apply Gaussian top-k sparsification if enabled (before activation)
         if self.activation_sparsity > 0.0:
-            gate = self._gaussian_topk(gate)
+            proj = self.gate_proj
+
+            # The cutoff depends on the activations of all ranks.
+            if isinstance(proj, ColumnShardedLinear) and proj.sharded:
+                gate = gather(gate, proj.tp_gang)
+
+                gate = scatter(self._gaussian_topk(gate), proj.tp_gang)
+            else:
+                gate = self._gaussian_topk(gate)
 
         gate = self.gate_activation(gate)
 
-- 
2.43.0


From e948d3c00cd6f340dc7e31b4876025a6a0157cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 038/127] fix: apply the bias of RMSNorm

---
 src/fairseq2/nn/normalization.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/normalization.py b/src/fairseq2/nn/normalization.py
index 2c3c3b3..8367081 100644
--- a/src/fairseq2/nn/normalization.py
+++ b/src/fairseq2/nn/normalization.py
@@ -233,7 +233,12 @@ class RMSNorm(LayerNorm):
     @override
     def forward(self, x: Tensor) -> Tensor:
         if _has_rms_norm:
-            return rms_norm(x, self.normalized_shape, self.weight, self.eps)
+            x = rms_norm(x, self.normalized_shape, self.weight, self.eps)
+
+            if self.bias is not None:
+                x = x + self.bias
+
+            return x
 
         # For numerical stability normalize in single precision.
         x = self._normalize(x.float()).type_as(x)
-- 
2.43.0


From efb11ed1ec40823b9acce2a4d8761d04278e8c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:01 +0000
Subject: [PATCH 039/127] fix: construct ScaledResidualConnect as a module

---
 src/fairseq2/nn/residual.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fairseq2/nn/residual.py b/src/fairseq2/nn/residual.py
index b73785f..cc70376 100644
--- a/src/fairseq2/nn/residual.py
+++ b/src/fairseq2/nn/residual.py
@@ -58,6 +58,8 @@ class ScaledResidualConnect(ResidualConnect):
         """
         :param scale: The scale factor.
         """
+        super().__init__()
+
         self.scale = scale
 
     @override
-- 
2.43.0


From e3608f8eb4cf056c6e90ced607c136f203b99033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:02 +0000
Subject: [PATCH 040/127] fix: detect unexpected state of shared modules under
 each name

---
 src/fairseq2/nn/utils/module.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/nn/utils/module.py b/src/fairseq2/nn/utils/module.py
index 0bfb4d1..62fc107 100644
--- a/src/fairseq2/nn/utils/module.py
+++ b/src/fairseq2/nn/utils/module.py
@@ -456,15 +456,17 @@ def load_state_dict(
 
     unexpected_keys = []
 
-    for name, m in _get_named_modules(module):
-        if m is not None:
-            continue
+    # Shared modules have an entry in `state_dict` for each of their names.
+    for name, m in module.named_modules(remove_duplicate=False):
+        for child_name, child in m._modules.items():
+            if child is not None:
+                continue
 
-        prefix = name + "."
+            prefix = f"{name}.{child_name}." if name else f"{child_name}."
 
-        for key in state_dict.keys():
-            if key.startswith(prefix):
-                unexpected_keys.append(key)
+            for key in state_dict.keys():
+                if key.startswith(prefix):
+                    unexpected_keys.append(key)
 
     if unexpected_keys:
         unexpected_keys.sort()
-- 
2.43.0


From ce603dd5ee843f242d12830f4317ec7b39c9bea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:57 +0000
Subject: [PATCH 041/127] fix: do not add the prompt's score to the first step
 score in beam search

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 70cb709..1d34e83 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -774,8 +774,8 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Do not keep `seqs` in memory.
         seq = seq.clone()
 
-        # (S_out)
-        step_scores = self._step_scores[seq_idx, start_step:seq_len]
+        # (S)
+        step_scores = self._step_scores[seq_idx, :seq_len]
 
         # Similar to `seqs`, do not keep `step_scores` in memory.
         step_scores = step_scores.clone()
@@ -783,6 +783,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         # Convert from cumulative to per-step scores.
         step_scores[1:] = step_scores[1:] - step_scores[:-1]
 
+        # (S) -> (S_out)
+        step_scores = step_scores[start_step:].clone()
+
         if self._normalize_scores:
             # Since the first step's score is always 0, do not include it in
             # the normalization.
-- 
2.43.0


From 1bce87e0c5c7d0cdb73071662d2a034a8ed13291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 042/127] fix: consider the candidates of all sequences in a
 wide beam

---
 src/fairseq2/generation/beam_search/algo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/generation/beam_search/algo.py b/src/fairseq2/generation/beam_search/algo.py
index 31f407c..be9a22c 100644
--- a/src/fairseq2/generation/beam_search/algo.py
+++ b/src/fairseq2/generation/beam_search/algo.py
@@ -102,6 +102,8 @@ class StandardBeamSearchAlgorithm(BeamSearchAlgorithm):
         lprobs = lprobs.view(-1)
 
         # (2 x B)
-        top_scores, top_indices = torch.topk(lprobs, k=min(2 * beam_size, vocab_size))
+        top_scores, top_indices = torch.topk(
+            lprobs, k=min(2 * beam_size, lprobs.size(0))
+        )
 
         return BeamStep(top_indices // vocab_size, top_indices % vocab_size, top_scores)
-- 
2.43.0


From ae8cfe6ae70ad7d3f561024dd9681850887c1f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:09 +0000
Subject: [PATCH 043/127] fix: score prompts in beam search without processing
 their probabilities

---
 .../generation/beam_search/generator.py       | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index 1d34e83..ff8e6e7 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -602,6 +602,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         if lprobs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Prompt steps must be scored by what the model has returned for them.
+        if self._step_nr < self._max_prompt_len:
+            prompt_lprobs = lprobs.clone()
+        else:
+            prompt_lprobs = lprobs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -631,11 +637,11 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         beam_next_step_list: list[BeamStep] = []
 
         # We split the batch by `beam_sizes` and treat each beam separately.
-        for beam_idx, (beam_lprobs, beam_step_scores) in enumerate(
-            zip(lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
+        for beam_idx, (beam_lprobs, beam_prompt_lprobs, beam_step_scores) in enumerate(
+            zip(lprobs.split(self._beam_sizes), prompt_lprobs.split(self._beam_sizes), self._step_scores.split(self._beam_sizes))  # fmt: skip
         ):
             beam_next_step = self._search_beam(
-                beam_idx, batch_offset, beam_lprobs, beam_step_scores
+                beam_idx, batch_offset, beam_lprobs, beam_prompt_lprobs, beam_step_scores  # fmt: skip
             )
 
             # Bump the beam batch offset to the next beam.
@@ -683,7 +689,12 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
         return True
 
     def _search_beam(
-        self, beam_idx: int, batch_offset: int, lprobs: Tensor, step_scores: Tensor
+        self,
+        beam_idx: int,
+        batch_offset: int,
+        lprobs: Tensor,
+        prompt_lprobs: Tensor,
+        step_scores: Tensor,
     ) -> BeamStep | None:
         # Ignore the generated indices for the prompt sequences.
         if self._step_nr < self._max_prompt_len:
@@ -703,7 +714,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
                 # reach the end of the prompt.
                 vocab_idx = self._seqs[batch_offset, self._step_nr : self._step_nr + 1]
 
-                score = step_scores[0, self._step_nr - 1] + lprobs[0, vocab_idx]
+                score = (
+                    step_scores[0, self._step_nr - 1] + prompt_lprobs[0, vocab_idx]
+                )
 
                 return BeamStep(seq_idx, vocab_idx, score)
         else:
-- 
2.43.0


From eb836d7e7d64824d70343d64591f4a06863a1b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:03 +0000
Subject: [PATCH 044/127] fix: never continue a beam with impossible candidates

---
 src/fairseq2/generation/beam_search/generator.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/generation/beam_search/generator.py b/src/fairseq2/generation/beam_search/generator.py
index ff8e6e7..5647727 100644
--- a/src/fairseq2/generation/beam_search/generator.py
+++ b/src/fairseq2/generation/beam_search/generator.py
@@ -730,6 +730,9 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
             self._beam_size, lprobs, step_scores[:, : self._step_nr]
         )
 
+        # Ignore impossible candidates such as banned steps.
+        next_step = next_step.masked_select(next_step.scores != -torch.inf)
+
         # Translate the sequence indices from beam to batch.
         next_step.seq_indices += batch_offset
 
@@ -760,6 +763,10 @@ class _AbstractBeamSearchSequenceGeneratorOp(ABC):
 
             next_step = next_step.masked_select(seq_mask)
 
+        # If there are no candidates left, we cannot continue the beam.
+        if len(next_step.seq_indices) == 0:
+            return None
+
         # We can have at most `beam_size` sequences in the beam.
         return next_step.first(self._beam_size)
 
-- 
2.43.0


From 9cff32111082d6c139cec639d77da64daced5ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 045/127] fix: keep probabilities non-negative under an UNK
 penalty in sampling

---
 src/fairseq2/generation/sampling/generator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 754fbf7..a4ffa48 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -629,6 +629,9 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             if self._unk_idx is not None:
                 probs[:, self._unk_idx] -= self._unk_penalty
 
+                # A probability must not be negative.
+                probs[:, self._unk_idx].clamp_(min=0)
+
             # Never allow PAD.
             if self._pad_idx is not None:
                 probs[:, self._pad_idx] = 0
-- 
2.43.0


From 2363c1a1df57936ae37da6b90a187b4e1d50230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:35 +0000
Subject: [PATCH 046/127] fix: score prompts in sampling without processing
 their probabilities

---
 src/fairseq2/generation/sampling/generator.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index a4ffa48..5eafa3e 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -613,6 +613,12 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
         if probs.isnan().any():
             raise SequenceGenerationError(self._step_nr)
 
+        # Prompt steps must be scored by what the model has returned for them.
+        if self._step_nr < self._max_prompt_len and self._step_scores is not None:
+            prompt_probs = probs.clone()
+        else:
+            prompt_probs = probs
+
         # If we are generating the last possible step, force it to be EOS
         # regardless of its score.
         if self._step_nr == self._max_seq_len - 1:
@@ -670,6 +676,16 @@ class _AbstractSamplingSequenceGeneratorOp(ABC):
             # (N, 1)
             scores = torch.gather(probs, dim=-1, index=vocab_indices[:, None])
 
+            if self._prompt_mask is not None:
+                # (N, 1)
+                prompt_scores = torch.gather(
+                    prompt_probs, dim=-1, index=vocab_indices[:, None]
+                )
+
+                mask = self._prompt_mask[:, self._step_nr]
+
+                scores[mask] = prompt_scores[mask]
+
             # Record the scores of the current step.
             self._step_scores[:, self._step_nr] = scores.squeeze(1)
 
-- 
2.43.0


From 1041cca15942bde197c7144731d41ed5ea73017c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:13 +0000
Subject: [PATCH 047/127] fix: fan out unprocessed source sequences in sampling

---
 src/fairseq2/generation/sampling/generator.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/fairseq2/generation/sampling/generator.py b/src/fairseq2/generation/sampling/generator.py
index 5eafa3e..5045bde 100644
--- a/src/fairseq2/generation/sampling/generator.py
+++ b/src/fairseq2/generation/sampling/generator.py
@@ -901,6 +901,24 @@ class _SamplingSeq2SeqGeneratorOp(_AbstractSamplingSequenceGeneratorOp):
         self._source_seqs = source_seqs
         self._source_seqs_layout = source_seqs_layout
 
+    @override
+    def _prepare_state(self) -> None:
+        super()._prepare_state()
+
+        # If there was nothing to prefill, the model has not encoded the source
+        # sequences yet, so its state holds no encoder output to fan out.
+        if self._num_gens > 1 and self._min_prompt_len == 1:
+            self._source_seqs = repeat_interleave(
+                self._source_seqs, dim=0, repeat=self._num_gens
+            )
+
+            seq_lens = []
+
+            for seq_len in self._source_seqs_layout.seq_lens:
+                seq_lens.extend([seq_len] * self._num_gens)
+
+            self._source_seqs_layout = BatchLayout.of(self._source_seqs, seq_lens)
+
     @override
     def _decode(self, seqs: Tensor) -> Tensor:
         # We never pad during incremental decoding.
-- 
2.43.0


From c51eb54ce709b2b53b790def001b34de7bcdef48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:44 +0000
Subject: [PATCH 048/127] fix: decode escaped characters in Uri.to_path()

---
 src/fairseq2/utils/uri.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/utils/uri.py b/src/fairseq2/utils/uri.py
index 685e333..307882a 100644
--- a/src/fairseq2/utils/uri.py
+++ b/src/fairseq2/utils/uri.py
@@ -8,7 +8,7 @@ from __future__ import annotations
 
 from pathlib import Path
 from typing import final
-from urllib.parse import ParseResult, urlparse, urlunparse
+from urllib.parse import ParseResult, unquote, urlparse, urlunparse
 
 from fairseq2.error import InternalError, NotSupportedError
 
@@ -81,7 +81,7 @@ class Uri:
 
         s = str(self)
 
-        return Path(s[7:])
+        return Path(unquote(s[7:]))
 
     def __str__(self) -> str:
         return urlunparse(self._result)
-- 
2.43.0


From c2b0a44c0c90a35aa5e0efc652fd3e37618c839b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 049/127] fix: load in-memory asset metadata without modifying
 it

---
 src/fairseq2/assets/metadata_provider.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/assets/metadata_provider.py b/src/fairseq2/assets/metadata_provider.py
index c4e46c5..35ea656 100644
--- a/src/fairseq2/assets/metadata_provider.py
+++ b/src/fairseq2/assets/metadata_provider.py
@@ -241,7 +241,9 @@ def load_in_memory_asset_metadata(
 ) -> AssetMetadataProvider:
     metadata = {}
 
-    for idx, asset_metadata in enumerate(entries):
+    for idx, entry in enumerate(entries):
+        asset_metadata = dict(entry)  # do not modify caller's `entries`.
+
         name = asset_metadata.pop("name", None)
         if not name:
             msg = f"Asset at index {idx} in `metadata` must have a name."
@@ -277,6 +279,8 @@ def load_in_memory_asset_metadata(
 
                 raise AssetMetadataError(source, msg)
 
+            asset_metadata["base"] = base_name
+
         metadata[name] = asset_metadata
 
     return CachedAssetMetadataProvider(source, metadata)
-- 
2.43.0


From 0760a4994c87a70ed61d5a6f80fd779d95ac3b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 050/127] fix: resolve inherited relative paths against the
 defining card

---
 src/fairseq2/assets/card.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/card.py b/src/fairseq2/assets/card.py
index 3bf6c92..408042e 100644
--- a/src/fairseq2/assets/card.py
+++ b/src/fairseq2/assets/card.py
@@ -49,7 +49,7 @@ class AssetCard:
             except KeyError:
                 pass
             else:
-                return AssetCardField(name, self, value)
+                return AssetCardField(name, self, value, owner=card)
 
             card = card.base
 
@@ -84,10 +84,22 @@ class AssetCard:
 
 @final
 class AssetCardField:
-    def __init__(self, name: str, card: AssetCard, value: object) -> None:
+    def __init__(
+        self,
+        name: str,
+        card: AssetCard,
+        value: object,
+        *,
+        owner: AssetCard | None = None,
+    ) -> None:
+        """
+        :param owner: The card that defines the field. ``card`` or one of its
+            bases.
+        """
         self._name = name
         self._card = card
         self._value = value
+        self._owner = card if owner is None else owner
 
     @property
     def value(self) -> object:
@@ -116,7 +128,7 @@ class AssetCardField:
             raise AssetCardError(self._card.name, msg) from None
 
         if not path.is_absolute():
-            base_path = self._card.metadata.get("__base_path__")
+            base_path = self._owner.metadata.get("__base_path__")
             if not isinstance(base_path, Path):
                 msg = f"{self._name} field of the {self._card.name} asset card is a relative pathname and cannot be converted to a URI."
 
-- 
2.43.0


From e2bf4dc2c8373194f6652d2c00a139d241fb6352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 051/127] fix: support environment-specific assets that derive
 from their own asset

---
 src/fairseq2/assets/store.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index d861107..f018634 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -127,10 +127,17 @@ class StandardAssetStore(AssetStore):
 
             return None
 
+        variant_metadata = None
+
         for env in envs:
             env_metadata = self._maybe_get_metadata(f"{name}@{env}")
             if env_metadata is not None:
-                metadata.update(env_metadata)
+                if env_metadata.get("base") == name:
+                    # The environment-specific asset explicitly derives from its
+                    # own environment-agnostic asset.
+                    variant_metadata = env_metadata
+                else:
+                    metadata.update(env_metadata)
 
                 break
 
@@ -141,7 +148,12 @@ class StandardAssetStore(AssetStore):
         else:
             base_card = self._do_retrieve_card(base_name, leaf_name, envs)
 
-        return AssetCard(name, metadata, base_card)
+        card = AssetCard(name, metadata, base_card)
+
+        if variant_metadata is not None:
+            card = AssetCard(name, variant_metadata, card)
+
+        return card
 
     def _maybe_get_metadata(self, name: str) -> dict[str, object] | None:
         for provider in self._metadata_providers:
-- 
2.43.0


From 272eb74a55a789596ee8181696d21a5b25825d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 052/127] fix: raise an error if an asset derives from itself

---
 src/fairseq2/assets/store.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/store.py b/src/fairseq2/assets/store.py
index f018634..f8f775b 100644
--- a/src/fairseq2/assets/store.py
+++ b/src/fairseq2/assets/store.py
@@ -113,11 +113,16 @@ class StandardAssetStore(AssetStore):
         if not name:
             return None
 
-        return self._do_retrieve_card(name, name, envs)
+        return self._do_retrieve_card(name, name, envs, set())
 
     def _do_retrieve_card(
-        self, name: str, leaf_name: str, envs: list[str]
+        self, name: str, leaf_name: str, envs: list[str], derived_names: set[str]
     ) -> AssetCard | None:
+        if name in derived_names:
+            msg = f"{name} base asset of the {leaf_name} asset card derives from itself."
+
+            raise AssetCardError(leaf_name, msg)
+
         metadata = self._maybe_get_metadata(f"{name}@")
         if metadata is None:
             if name != leaf_name:
@@ -146,7 +151,9 @@ class StandardAssetStore(AssetStore):
         if not isinstance(base_name, str):
             base_card = None
         else:
-            base_card = self._do_retrieve_card(base_name, leaf_name, envs)
+            base_card = self._do_retrieve_card(
+                base_name, leaf_name, envs, derived_names | {name}
+            )
 
         card = AssetCard(name, metadata, base_card)
 
-- 
2.43.0


From 2b9c5500340403bc7624c4a1d8884c9aa8d07d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 053/127] fix: keep downloaded files within the asset cache
 directory

---
 src/fairseq2/assets/download_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 1cfd12b..0c8a601 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -688,6 +688,12 @@ class _AssetDownloadOperation:
                 except ValueError:
                     filename = "asset"
 
+            # Never let the server choose a location outside the download directory.
+            filename = Path(filename).name
+
+            if not filename or filename == "..":
+                filename = "asset"
+
             download_file = tmp_download_dir.joinpath(filename)
 
             self._file_system.move(tmp_file, download_file)
-- 
2.43.0


From e7683d165c52090909d18eb0d2719bdbd16798a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 054/127] fix: extract compressed tar archives

---
 src/fairseq2/assets/download_manager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 0c8a601..e407c4f 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -12,7 +12,7 @@ from collections.abc import Generator, Sequence, Set
 from contextlib import ExitStack, contextmanager
 from hashlib import sha1
 from pathlib import Path
-from tarfile import TarFile, is_tarfile
+from tarfile import TarError, TarFile, is_tarfile
 from tempfile import NamedTemporaryFile
 from typing import Final, final
 from urllib.error import HTTPError, URLError
@@ -749,9 +749,9 @@ class _AssetDownloadOperation:
 
                 with task:
                     try:
-                        with TarFile(download_file) as tar_fp:
+                        with TarFile.open(download_file) as tar_fp:
                             tar_fp.extractall(path=asset_dir)
-                    except (KeyError, OSError, EOFError) as ex:
+                    except (KeyError, OSError, EOFError, TarError) as ex:
                         self._raise_download_error(
                             f"{download_file} cannot be extracted.", ex
                         )
-- 
2.43.0


From d408aa79ac55b4b22d039c28a4cdf191c0c4e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 055/127] fix: discard the remains of an interrupted download

---
 src/fairseq2/assets/download_manager.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index e407c4f..c2cdd04 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -585,6 +585,12 @@ class _AssetDownloadOperation:
         with ExitStack() as exit_stack:
             tmp_download_dir = asset_dir.with_suffix(".download.tmp")
 
+            # Might hold a partial file if a previous download was interrupted.
+            try:
+                self._file_system.remove_directory(tmp_download_dir)
+            except FileNotFoundError:
+                pass
+
             self._file_system.make_directory(tmp_download_dir)
 
             def remove_tmp_dir() -> None:
-- 
2.43.0


From c0ee38f17a49b1924eb9449800c19c988f473cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:22 +0000
Subject: [PATCH 056/127] fix: move cached assets away before deleting them

---
 src/fairseq2/assets/download_manager.py | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index c2cdd04..8037e8f 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -550,25 +550,36 @@ class _AssetDownloadOperation:
     def _clean_cached_asset(self) -> None:
         asset_dir = self._asset_dir
 
-        try:
-            self._file_system.remove_directory(asset_dir)
-        except FileNotFoundError:
-            pass
+        self._remove_cached_directory(asset_dir)
 
         download_dir = asset_dir.with_suffix(".download")
 
+        self._remove_cached_directory(download_dir)
+
+        tmp_download_dir = asset_dir.with_suffix(".download.tmp")
+
         try:
-            self._file_system.remove_directory(download_dir)
+            self._file_system.remove_directory(tmp_download_dir)
         except FileNotFoundError:
             pass
 
-        tmp_download_dir = asset_dir.with_suffix(".download.tmp")
+    def _remove_cached_directory(self, path: Path) -> None:
+        # Move the directory away first, so that it never gets mistaken for a
+        # complete asset if we get interrupted while deleting its contents.
+        tmp_path = self._asset_dir.with_suffix(".remove.tmp")
 
         try:
-            self._file_system.remove_directory(tmp_download_dir)
+            self._file_system.remove_directory(tmp_path)
         except FileNotFoundError:
             pass
 
+        try:
+            self._file_system.move(path, tmp_path)
+        except FileNotFoundError:
+            return
+
+        self._file_system.remove_directory(tmp_path)
+
     def _download_asset(self) -> None:
         asset_dir = self._asset_dir
 
-- 
2.43.0


From 0c1b7b32bffc00b369117b725d70e1078e489c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 057/127] fix: do not serve partially extracted assets

---
 src/fairseq2/assets/download_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fairseq2/assets/download_manager.py b/src/fairseq2/assets/download_manager.py
index 8037e8f..8b6dcdd 100644
--- a/src/fairseq2/assets/download_manager.py
+++ b/src/fairseq2/assets/download_manager.py
@@ -734,6 +734,9 @@ class _AssetDownloadOperation:
         try:
             download_file = next(it)
         except StopIteration:
+            # Extraction was interrupted right before its very last step.
+            self._file_system.remove_directory(download_dir)
+
             return
 
         # There are various file types (e.g. PyTorch tensor files) that
@@ -795,6 +798,15 @@ class _AssetDownloadOperation:
 
             self._raise_download_error(reason)
 
+        download_dir = asset_dir.with_suffix(".download")
+
+        # If the download is still around, the asset directory might hold only
+        # some of the files of the asset.
+        if self._file_system.exists(download_dir) and any(download_dir.iterdir()):
+            self._raise_download_error(
+                "Extraction of the cached asset was interrupted, and `local_only` is `True`."
+            )
+
         it = asset_dir.iterdir()
 
         try:
-- 
2.43.0


From 1cc5fa5be26dc478838c5e79dea9e40dba990f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 058/127] fix: reject numbers that cannot be structured without
 loss

---
 src/fairseq2/utils/structured.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 95bf7f9..8b30e3d 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -143,9 +143,14 @@ class StandardValueConverter(ValueConverter):
         if isinstance(obj, kls):
             return obj
 
+        if kls is int and isinstance(obj, float) and not obj.is_integer():
+            raise StructureError(
+                f"Value must be representable as an integer, but is {obj} instead."
+            )
+
         try:
             return kls(obj)
-        except (TypeError, ValueError) as ex:
+        except (TypeError, ValueError, OverflowError) as ex:
             raise StructureError(f"`obj` cannot be parsed as `{kls}`.") from ex
 
     def _structure_identity(
-- 
2.43.0


From abb53f932b55049e4a7d3d7de876aeaed2911b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 059/127] fix: do not structure strings as sequences of
 characters

---
 src/fairseq2/utils/structured.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 8b30e3d..3d1c622 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -330,7 +330,7 @@ class StandardValueConverter(ValueConverter):
     def _structure_list(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> list[object]:
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, (str, bytes)):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -400,7 +400,7 @@ class StandardValueConverter(ValueConverter):
                     "One of the set elements cannot be structured."
                 ) from ex
 
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, (str, bytes)):
             if len(type_args) != 1:
                 raise ValueError(
                     f"`target_type` must have an element type expression for `{origin_type}`."
@@ -434,7 +434,7 @@ class StandardValueConverter(ValueConverter):
     def _structure_tuple(
         self, origin_type: object, type_args: tuple[object, ...], obj: object
     ) -> tuple[object, ...]:
-        if isinstance(obj, Sequence):
+        if isinstance(obj, Sequence) and not isinstance(obj, (str, bytes)):
             num_args = len(type_args)
 
             if num_args == 0:
-- 
2.43.0


From 8def7a776f2cd23a6067583483efc82b8b807f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 060/127] fix: structure optional types independent of the
 position of None

---
 src/fairseq2/utils/structured.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 3d1c622..029e9af 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -481,6 +481,9 @@ class StandardValueConverter(ValueConverter):
         errors = []
 
         for target_type in type_args:
+            if is_optional and target_type is NoneType:
+                continue
+
             try:
                 return self.structure(obj, target_type)
             except StructureError as ex:
-- 
2.43.0


From 7c1c7f85744016c364a8a0397aa44f28f62cc704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 061/127] fix: prefer the exact type when structuring unions

---
 src/fairseq2/utils/structured.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index 029e9af..a65e3c0 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -478,6 +478,11 @@ class StandardValueConverter(ValueConverter):
         if is_optional and obj is None:
             return obj
 
+        # Avoid converting a value to an earlier element (e.g. `int`) if it is
+        # already of the type of a later element (e.g. `str`).
+        if type(obj) in type_args:
+            return obj
+
         errors = []
 
         for target_type in type_args:
-- 
2.43.0


From cbf2601f796a58c8024a4c84f31957350b352670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:04 +0000
Subject: [PATCH 062/127] fix: unstructure sets in a deterministic order

---
 src/fairseq2/utils/structured.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/utils/structured.py b/src/fairseq2/utils/structured.py
index a65e3c0..5a8bdaa 100644
--- a/src/fairseq2/utils/structured.py
+++ b/src/fairseq2/utils/structured.py
@@ -612,4 +612,10 @@ class StandardValueConverter(ValueConverter):
     def _unstructure_set(self, obj: object) -> list[object]:
         s = cast(set[object], obj)
 
-        return [self.unstructure(e) for e in s]
+        output = [self.unstructure(e) for e in s]
+
+        # The iteration order of a set can differ between processes.
+        try:
+            return sorted(output)  # type: ignore[type-var]
+        except TypeError:
+            return sorted(output, key=repr)
-- 
2.43.0


From 88d84c81514a89263c9eb449e90bdb93edd67c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 063/127] fix: apply command line configuration overrides from
 left to right

---
 src/fairseq2/utils/argparse.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/fairseq2/utils/argparse.py b/src/fairseq2/utils/argparse.py
index 0ab194f..5049242 100644
--- a/src/fairseq2/utils/argparse.py
+++ b/src/fairseq2/utils/argparse.py
@@ -47,9 +47,13 @@ class ConfigAction(Action):
         values: Any,
         option_string: str | None = None,
     ) -> None:
-        data: dict[str, Any] = {}
+        items = getattr(namespace, self.dest, None)
+        if items is None:
+            items = []
 
-        def get_parent_node(path: str) -> tuple[dict[str, Any], str]:
+        def get_parent_node(
+            data: dict[str, Any], path: str
+        ) -> tuple[dict[str, Any], str]:
             keys = path.split(".")
 
             node = data
@@ -69,13 +73,16 @@ class ConfigAction(Action):
         for item in values:
             item = item.strip()
 
+            # Each override is applied on top of the preceding ones.
+            data: dict[str, Any] = {}
+
             if item.startswith("del:"):
                 path = item[4:]
 
                 if "=" in path:
                     raise ArgumentError(self, f"key should not contain '=': {item}")
 
-                parent_node, key = get_parent_node(path)
+                parent_node, key = get_parent_node(data, path)
 
                 del_keys = parent_node.get("_del_")
 
@@ -104,7 +111,7 @@ class ConfigAction(Action):
                 if path.startswith("set:"):
                     path = path[4:]
 
-                parent_node, key = get_parent_node(path)
+                parent_node, key = get_parent_node(data, path)
 
                 set_keys = parent_node.get("_set_")
 
@@ -115,11 +122,7 @@ class ConfigAction(Action):
 
                 set_keys[key] = parsed_value
 
-        items = getattr(namespace, self.dest, None)
-        if items is None:
-            items = []
-
-        items.append(data)
+            items.append(data)
 
         setattr(namespace, self.dest, items)
 
-- 
2.43.0


From 7f66713fcdd481be393099a9e44b2ab9e8d43ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 064/127] fix: generate different sweep hashes for different
 strings

---
 src/fairseq2/recipe/internal/sweep_tag.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index b062544..325184e 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -64,13 +64,22 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         tags = {"world_size": f"{self._world_info.size}"}
 
-        self._collect_tags(unstructured_config, tags, path="")
+        # Holds the original values of the tags that were altered.
+        raw_tags: dict[str, str] = {}
 
-        tags["hash"] = self._generate_hash(tags)
+        self._collect_tags(unstructured_config, tags, raw_tags, path="")
+
+        tags["hash"] = self._generate_hash(tags | raw_tags)
 
         return self._safe_format(sweep_format, tags)
 
-    def _collect_tags(self, obj: object, tags: dict[str, str], path: str) -> None:
+    def _collect_tags(
+        self,
+        obj: object,
+        tags: dict[str, str],
+        raw_tags: dict[str, str],
+        path: str,
+    ) -> None:
         if obj is None:
             tags[path] = "none"
 
@@ -78,6 +87,8 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         if isinstance(obj, str):
             tag = self._remove_non_word(obj)
+            if tag != obj:
+                raw_tags[path] = obj
 
             if len(tag) >= 16:
                 tag = self._generate_tag_hash(tag)
@@ -98,14 +109,14 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
 
         if isinstance(obj, list):
             for idx, elem in enumerate(obj):
-                self._collect_tags(elem, tags, path=f"{path}[{idx}]")
+                self._collect_tags(elem, tags, raw_tags, path=f"{path}[{idx}]")
 
             return
 
         if isinstance(obj, dict):
             for key, value in obj.items():
                 self._collect_tags(
-                    value, tags, path=f"{path}.{key}" if path else f"{key}"
+                    value, tags, raw_tags, path=f"{path}.{key}" if path else f"{key}"
                 )
 
             return
-- 
2.43.0


From 23e4dc6034716e01f8abcd9a12b38c10d73cb9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 065/127] fix: reject unmatched closing braces in sweep formats

---
 src/fairseq2/recipe/internal/sweep_tag.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fairseq2/recipe/internal/sweep_tag.py b/src/fairseq2/recipe/internal/sweep_tag.py
index 325184e..914cad0 100644
--- a/src/fairseq2/recipe/internal/sweep_tag.py
+++ b/src/fairseq2/recipe/internal/sweep_tag.py
@@ -204,12 +204,12 @@ class _StandardSweepTagGenerator(_SweepTagGenerator):
                     else:
                         placeholder.append(c)
                 case State.CLOSING_BRACE:
-                    state = State.LITERAL
+                    if c != "}":
+                        break
 
-                    if c == "}":  # escape
-                        output.append("}")
-                    else:
-                        output.append(c)
+                    state = State.LITERAL  # escape
+
+                    output.append("}")
 
         if state != State.LITERAL:
             msg = "`sweep_format` must have matching opening and closing braces."
-- 
2.43.0


From 5b86b01d8cefb317dfd6eb581d059f206ba6d034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 066/127] fix: load the recipe configuration only once per run

---
 src/fairseq2/recipe/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/recipe/cli.py b/src/fairseq2/recipe/cli.py
index 00ff934..d774f4b 100644
--- a/src/fairseq2/recipe/cli.py
+++ b/src/fairseq2/recipe/cli.py
@@ -199,7 +199,7 @@ def _register_main(
 
         return _RecipeConfigHolder(config)
 
-    container.register(_RecipeConfigHolder, get_config)
+    container.register(_RecipeConfigHolder, get_config, singleton=True)
 
     container.register_type(_RecipeConfigLoader)
     container.register_type(_RecipeConfigStructurer, _StandardRecipeConfigStructurer)
-- 
2.43.0


From 27070bb8646892b44b973736638f60ab35c944dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:14 +0000
Subject: [PATCH 067/127] fix: do not count source elements as target elements
 in Seq2SeqBatch

---
 src/fairseq2/datasets/batch.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index 28618fe..a69e95b 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -505,9 +505,7 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
         self._target_mask = target_mask
 
-        if target_mask is None:
-            self._num_target_elements = self._num_elements
-        else:
+        if target_mask is not None:
             self._num_target_elements = int(target_mask.sum())
 
         self._example = example
-- 
2.43.0


From fe0198bb826040b79cd21f8e54e46ddcfecb1435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 068/127] fix: aggregate minimum and maximum metrics in double
 precision

---
 src/fairseq2/metrics/aggregation.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/metrics/aggregation.py b/src/fairseq2/metrics/aggregation.py
index 093aa81..e0ac0f8 100644
--- a/src/fairseq2/metrics/aggregation.py
+++ b/src/fairseq2/metrics/aggregation.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+import torch
 from torch import Tensor
 from torcheval.metrics import Max as MaxBase
 from torcheval.metrics import Mean as MeanBase
@@ -13,13 +14,22 @@ from torcheval.metrics import Min as MinBase
 from torcheval.metrics import Sum as SumBase
 from typing_extensions import Self, override
 
-from fairseq2.device import CPU
+from fairseq2.device import CPU, Device
 from fairseq2.utils.tensor import to_tensor
 
 
 class Min(MinBase):
     """See :class:`MinBase`."""
 
+    def __init__(self, *, device: Device | None = None) -> None:
+        super().__init__(device=device)
+
+        # Same as `Sum` and `Mean`. If we leave the data type of the state to
+        # the first update, it can differ between processes.
+        self._add_state(
+            "min", torch.tensor(float("inf"), device=device, dtype=torch.float64)
+        )
+
     @override
     def update(self, input_: int | float | Tensor) -> Self:
         if isinstance(input_, (int, float)):
@@ -33,6 +43,15 @@ class Min(MinBase):
 class Max(MaxBase):
     """See :class:`MaxBase`."""
 
+    def __init__(self, *, device: Device | None = None) -> None:
+        super().__init__(device=device)
+
+        # Same as `Sum` and `Mean`. If we leave the data type of the state to
+        # the first update, it can differ between processes.
+        self._add_state(
+            "max", torch.tensor(float("-inf"), device=device, dtype=torch.float64)
+        )
+
     @override
     def update(self, input_: int | float | Tensor) -> Self:
         if isinstance(input_, (int, float)):
-- 
2.43.0


From 4ce6aa008f6e115164fa7d26284a707c094f7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:57 +0000
Subject: [PATCH 069/127] fix: trim packed Seq2SeqBatch whose last target
 sequence has length 1

---
 src/fairseq2/datasets/batch.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/datasets/batch.py b/src/fairseq2/datasets/batch.py
index a69e95b..a0a3931 100644
--- a/src/fairseq2/datasets/batch.py
+++ b/src/fairseq2/datasets/batch.py
@@ -539,9 +539,12 @@ class Seq2SeqBatch(SupportsDeviceTransfer):
 
                 seq_lens.append(seq_len - 1)
 
+        # If packed, the last target sequence might have been trimmed entirely.
+        source_seq_lens = self._source_seq_lens[: len(seq_lens)]
+
         batch = Seq2SeqBatch(
             self._source_seqs,
-            self._source_seq_lens,
+            source_seq_lens,
             seqs,
             seq_lens,
             packed=self._packed,
-- 
2.43.0


From 2d072377eeeb0dda88f2f6f67fb3275daccc8b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 070/127] fix: return a mask of the requested shape if no span
 fits

---
 src/fairseq2/nn/utils/mask.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/nn/utils/mask.py b/src/fairseq2/nn/utils/mask.py
index 2fd8277..8bce8b6 100644
--- a/src/fairseq2/nn/utils/mask.py
+++ b/src/fairseq2/nn/utils/mask.py
@@ -106,7 +106,7 @@ def compute_row_mask(
     # (N, M x L)
     indices = _compute_mask_spans(row_lens, span_len, max_mask_prob, min_num_spans)
     if indices is None:
-        return row_lens.new_empty((0, 0))
+        return torch.zeros(shape, device=device, dtype=torch.bool)
 
     return _generate_mask(indices, max_row_len).to(device)
 
-- 
2.43.0


From 4a3c307053bb185ecbbe0bf8709c41fd635f08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 071/127] fix: compute the w2v-BERT loss over codebook entries

---
 src/fairseq2/models/w2vbert/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/w2vbert/model.py b/src/fairseq2/models/w2vbert/model.py
index 1f06fd8..b72fa7d 100644
--- a/src/fairseq2/models/w2vbert/model.py
+++ b/src/fairseq2/models/w2vbert/model.py
@@ -141,7 +141,7 @@ class W2VBertModel(Module):
 
         indices = cb.argmax(dim=-1).view(-1, num_codebooks)
 
-        indices = indices[..., :num_codebooks]
+        indices = indices[..., : self.num_target_codebooks]
 
         return indices.detach()
 
@@ -155,8 +155,11 @@ class W2VBertModel(Module):
         w2v2_diversity_weight: float = 0.1,
         w2v2_features_penalty_weight: float = 10.0,
     ) -> W2VBertLoss:
+        # (N x S_msk, V, G) -> (N x S_msk, G, V)
+        bert_logits = output.bert_logits.transpose(1, 2)
+
         bert_loss = cross_entropy(
-            output.bert_logits,
+            bert_logits,
             output.bert_targets,
             pad_idx=None,
             reduction="sum",
-- 
2.43.0


From edf4b12ffff1669ad55740bcef3436bede7de707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:59 +0000
Subject: [PATCH 072/127] fix: compute lengths right after convolutions with
 even kernels

---
 .../models/s2t_transformer/feature_extractor.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/models/s2t_transformer/feature_extractor.py b/src/fairseq2/models/s2t_transformer/feature_extractor.py
index 21170d1..b483c71 100644
--- a/src/fairseq2/models/s2t_transformer/feature_extractor.py
+++ b/src/fairseq2/models/s2t_transformer/feature_extractor.py
@@ -55,6 +55,8 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
         if kernel_sizes is None:
             kernel_sizes = [3, 3]
 
+        self.kernel_sizes = list(kernel_sizes)
+
         self.layers = Sequential()
 
         last_layer = len(kernel_sizes) - 1
@@ -102,7 +104,7 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
         if seqs_layout.packed:
             raise ValueError("`seqs` must not be a packed batch.")
 
-        for layer in self.layers:
+        for layer, kernel_size in zip(self.layers, self.kernel_sizes):
             if seqs_layout.padded:
                 # We have to ensure that the padded elements are correctly set
                 # to zero; otherwise, noise will leak into the feature maps.
@@ -122,7 +124,9 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
             if seqs_layout.padded:
                 # Since we contracted the temporal dimension, we should
                 # re-compute the sequence lengths.
-                seq_lens = self._contract_seq_lens(seqs_layout.seq_lens)
+                seq_lens = self._contract_seq_lens(
+                    seqs_layout.seq_lens, kernel_size
+                )
             else:
                 seq_lens = None
 
@@ -130,5 +134,10 @@ class Conv1dFbankSubsampler(SequenceFeatureExtractor):
 
         return seqs, seqs_layout
 
-    def _contract_seq_lens(self, seq_lens: Sequence[int]) -> list[int]:
-        return [math.floor(((n - 1) / self.STRIDE) + 1.0) for n in seq_lens]
+    def _contract_seq_lens(
+        self, seq_lens: Sequence[int], kernel_size: int
+    ) -> list[int]:
+        # See `padding` of the convolutions. Note that `kernel_size` can be even.
+        r = 2 * (kernel_size // 2) - kernel_size
+
+        return [math.floor(((n + r) / self.STRIDE) + 1.0) for n in seq_lens]
-- 
2.43.0


From 113d0ecb1101af4d5bd8f8343fd4bc40e7dbecbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 073/127] fix: report damaged safetensors files as corrupt

---
 src/fairseq2/io.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index 59c24c7..c88a6ac 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -240,7 +240,12 @@ class _HuggingFaceSafetensorsLoader(SafetensorsLoader):
 
                 for key, tensor in tensors.items():
                     data[key] = tensor.to(device)
-        except (RuntimeError, PickleError, EOFError) as ex:
+        except (
+            safetensors.SafetensorError,
+            RuntimeError,
+            PickleError,
+            EOFError,
+        ) as ex:
             raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From bfe39cd68c03b65d22cc7810c058710f0d48fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:39 +0000
Subject: [PATCH 074/127] fix: accept sub-paths of assets cached under a
 symbolic link

---
 src/fairseq2/data/tokenizers/family.py | 4 +++-
 src/fairseq2/models/family.py          | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/family.py b/src/fairseq2/data/tokenizers/family.py
index 087fc28..5da372f 100644
--- a/src/fairseq2/data/tokenizers/family.py
+++ b/src/fairseq2/data/tokenizers/family.py
@@ -258,10 +258,12 @@ class StandardTokenizerFamily(TokenizerFamily):
 
             try:
                 path = self._file_system.resolve(path)
+
+                root_path = self._file_system.resolve(cached_path)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(root_path):
                 msg = f"tokenizer_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
diff --git a/src/fairseq2/models/family.py b/src/fairseq2/models/family.py
index 922889c..be696ce 100644
--- a/src/fairseq2/models/family.py
+++ b/src/fairseq2/models/family.py
@@ -489,10 +489,12 @@ class StandardModelFamily(ModelFamily):
 
             try:
                 path = self._file_system.resolve(path)
+
+                root_path = self._file_system.resolve(cached_path)
             except OSError as ex:
                 raise_operational_system_error(ex)
 
-            if not path.is_relative_to(cached_path):
+            if not path.is_relative_to(root_path):
                 msg = f"checkpoint_path field of the {name} asset card points to a path that is not relative to the download directory."
 
                 raise AssetCardError(name, msg)
-- 
2.43.0


From 91c841f1a16ab30d9eb7ce9eb575440961fd97c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 075/127] fix: report damaged PyTorch files as corrupt

---
 src/fairseq2/io.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/io.py b/src/fairseq2/io.py
index c88a6ac..3cdb1cd 100644
--- a/src/fairseq2/io.py
+++ b/src/fairseq2/io.py
@@ -141,7 +141,11 @@ class _TorchTensorFileLoader(TensorFileLoader):
                         options.map_location,  # type: ignore[arg-type]
                         weights_only=options.restrict,
                     )
-            except (RuntimeError, PickleError, EOFError) as ex:
+            except OSError:
+                raise
+            except Exception as ex:
+                # A damaged file can make the unpickler fail with practically
+                # any exception (e.g. `KeyError`, `IndexError`, `ValueError`).
                 raise CorruptFileError(file) from ex
 
         return data
-- 
2.43.0


From 49da6c26c9988c9d01e9120a415aaa0f4ec379c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:12 +0000
Subject: [PATCH 076/127] fix: shard OLMo embeddings and projections even
 without tensor parallelism

---
 src/fairseq2/models/olmo/factory.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/models/olmo/factory.py b/src/fairseq2/models/olmo/factory.py
index 0993b73..ce38b11 100644
--- a/src/fairseq2/models/olmo/factory.py
+++ b/src/fairseq2/models/olmo/factory.py
@@ -11,6 +11,7 @@ from typing import Literal
 import torch.nn as nn
 from torch import Tensor
 
+from fairseq2.error import NotSupportedError
 from fairseq2.gang import Gangs, get_current_gangs
 from fairseq2.models.olmo.attention import OLMOMultiheadAttention
 from fairseq2.models.olmo.config import OLMOConfig
@@ -180,7 +181,9 @@ class OLMOFactory:
 
         gangs = self._gangs
 
-        if gangs is not None and gangs.tp.size > 1:
+        # Shard even if `gangs.tp` is of size 1 so that the sharding dimensions of
+        # the parameters are known when a sharded checkpoint gets loaded.
+        if gangs is not None:
             if not config.shard_embed_dim:
                 return VocabShardedEmbedding.from_embedding(embed, gangs.tp)
 
@@ -389,7 +392,12 @@ class OLMOFactory:
         config = self._config
 
         if config.tied_embeddings:
-            if not isinstance(embed, StandardEmbedding):
+            if isinstance(embed, (ShardedEmbedding, VocabShardedEmbedding)):
+                if embed.tp_gang.size > 1:
+                    raise NotSupportedError(
+                        "Tied embeddings are not supported when tensor parallelism is enabled."
+                    )
+            elif not isinstance(embed, StandardEmbedding):
                 raise TypeError(
                     f"`embed` is expected to be of type "
                     f"`{StandardEmbedding}` when `config.tied_embeddings` "
@@ -413,7 +421,7 @@ class OLMOFactory:
 
         gangs = self._gangs
 
-        if gangs is not None and gangs.tp.size > 1:
+        if gangs is not None:
             return ColumnShardedLinear.from_linear(final_proj, gangs.tp)
 
         return final_proj
-- 
2.43.0


From 356c8aab14f10296058f2da23aa70321f18fab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:08 +0000
Subject: [PATCH 077/127] fix: reject tensor parallel shards of different
 shapes

---
 src/fairseq2/model_checkpoint/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fairseq2/model_checkpoint/common.py b/src/fairseq2/model_checkpoint/common.py
index fa5ec3b..a306784 100644
--- a/src/fairseq2/model_checkpoint/common.py
+++ b/src/fairseq2/model_checkpoint/common.py
@@ -126,6 +126,12 @@ def reshard_tensor(
 
         tp_splits.append(tp_split)
 
+    for tp_split in tp_splits:
+        if tp_split.shape != tp_splits[0].shape:
+            raise ValueError(
+                f"All tensor parallel shards of {key} must have the same shape, but have shapes {[tuple(s.shape) for s in tp_splits]} instead."
+            )
+
     # Reshard the tensor over the target parallel dimension.
 
     # Source shard dimensions
-- 
2.43.0


From a726629e0c1877a1c89538f6423a3b21af764a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:11 +0000
Subject: [PATCH 078/127] fix: do not raise after loading the local state of an
 FSDP module

---
 src/fairseq2/nn/fsdp/unified.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/unified.py b/src/fairseq2/nn/fsdp/unified.py
index 5dbead2..3359cb0 100644
--- a/src/fairseq2/nn/fsdp/unified.py
+++ b/src/fairseq2/nn/fsdp/unified.py
@@ -102,10 +102,10 @@ def fsdp_local_state_dict(module: Module) -> dict[str, object]:
 
 def fsdp_load_local_state_dict(module: Module, state_dict: dict[str, object]) -> None:
     if isinstance(module, FSDP1Module):
-        fsdp1_load_local_state_dict(module, state_dict)
+        return fsdp1_load_local_state_dict(module, state_dict)
 
     if isinstance(module, FSDP2Module):
-        fsdp2_load_local_state_dict(module, state_dict)
+        return fsdp2_load_local_state_dict(module, state_dict)
 
     raise _type_error(module)
 
-- 
2.43.0


From adcd19d4725bc6e2b4dcf17669b3db7054447c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:48 +0000
Subject: [PATCH 079/127] fix: call the actual FSDP2 method to skip gradient
 synchronization

---
 src/fairseq2/nn/fsdp/fsdp2.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp2.py b/src/fairseq2/nn/fsdp/fsdp2.py
index cdcbf6d..2fa9a31 100644
--- a/src/fairseq2/nn/fsdp/fsdp2.py
+++ b/src/fairseq2/nn/fsdp/fsdp2.py
@@ -51,7 +51,7 @@ if TYPE_CHECKING:
 
         def reshard(self) -> None: ...
 
-        def set_requires_grad_sync(self, value: bool) -> None: ...
+        def set_requires_gradient_sync(self, value: bool) -> None: ...
 
 else:
     FSDP2Module: TypeAlias = FSDPModule
@@ -205,12 +205,12 @@ def fsdp2_load_local_state_dict(
 
 @contextmanager
 def fsdp2_no_sync(module: FSDP2Module) -> Iterator[None]:
-    module.set_requires_grad_sync(False)
+    module.set_requires_gradient_sync(False)
 
     try:
         yield
     finally:
-        module.set_requires_grad_sync(True)
+        module.set_requires_gradient_sync(True)
 
 
 @contextmanager
-- 
2.43.0


From bdc670e6ddf1b84dd618598b971e8d5e4fad1cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:00 +0000
Subject: [PATCH 080/127] fix: let DDP accept the hook that sums gradients

---
 src/fairseq2/nn/ddp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/nn/ddp.py b/src/fairseq2/nn/ddp.py
index c6e6029..599038a 100644
--- a/src/fairseq2/nn/ddp.py
+++ b/src/fairseq2/nn/ddp.py
@@ -4,8 +4,8 @@
 # This source code is licensed under the BSD-style license found in the
 # LICENSE file in the root directory of this source tree.
 
-from __future__ import annotations
-
+# DDP inspects the annotations of `_all_reduce_hook` and does not support deferred
+# (i.e. `from __future__ import annotations`) evaluation.
 from typing import TypeAlias
 
 import torch.distributed as dist
-- 
2.43.0


From 900462792d32f2548b7ac18d0a7c966daaaa4bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:01 +0000
Subject: [PATCH 081/127] fix: pass skip_init on to FSDP

---
 src/fairseq2/nn/fsdp/unified.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fairseq2/nn/fsdp/unified.py b/src/fairseq2/nn/fsdp/unified.py
index 3359cb0..7b2cf13 100644
--- a/src/fairseq2/nn/fsdp/unified.py
+++ b/src/fairseq2/nn/fsdp/unified.py
@@ -71,6 +71,7 @@ def to_fsdp(
             mixed_precision_dtype=mixed_precision_dtype,
             fp32_reduce=fp32_reduce,
             broadcast_state=broadcast_state,
+            skip_init=skip_init,
             reshard_after_forward=reshard_after_forward,
             cpu_offload=cpu_offload,
         )
@@ -83,6 +84,7 @@ def to_fsdp(
             mixed_precision_dtype=mixed_precision_dtype,
             fp32_reduce=fp32_reduce,
             broadcast_state=broadcast_state,
+            skip_init=skip_init,
             reshard_after_forward=reshard_after_forward,
             cpu_offload=cpu_offload,
         )
-- 
2.43.0


From 88d33bd8518310055ac5217b6cbc9d48715ed19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:33 +0000
Subject: [PATCH 082/127] fix: reshard FSDP1 modules after forward if, not
 unless, asked to

---
 src/fairseq2/nn/fsdp/fsdp1.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/nn/fsdp/fsdp1.py b/src/fairseq2/nn/fsdp/fsdp1.py
index 306a8ef..23f44c9 100644
--- a/src/fairseq2/nn/fsdp/fsdp1.py
+++ b/src/fairseq2/nn/fsdp/fsdp1.py
@@ -123,14 +123,14 @@ def to_fsdp1(
         else:
             if reshard_after_forward:
                 if gangs.rdp.size == 1:
-                    sharding_strategy_ = ShardingStrategy.SHARD_GRAD_OP
+                    sharding_strategy_ = ShardingStrategy.FULL_SHARD
                 else:
-                    sharding_strategy_ = ShardingStrategy._HYBRID_SHARD_ZERO2
+                    sharding_strategy_ = ShardingStrategy.HYBRID_SHARD
             else:
                 if gangs.rdp.size == 1:
-                    sharding_strategy_ = ShardingStrategy.FULL_SHARD
+                    sharding_strategy_ = ShardingStrategy.SHARD_GRAD_OP
                 else:
-                    sharding_strategy_ = ShardingStrategy.HYBRID_SHARD
+                    sharding_strategy_ = ShardingStrategy._HYBRID_SHARD_ZERO2
 
         try:
             return FSDP1Module(
-- 
2.43.0


From ec93cb49e79efa65bb01b9481ef89ab3b5b3f987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 083/127] fix: do not report zipped finite pipelines as
 infinite

The two finitude types were swapped, so that, among others, yield_from
refused a zip of finite pipelines.
---
 native/src/fairseq2n/data/zip_data_source.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/native/src/fairseq2n/data/zip_data_source.cc b/native/src/fairseq2n/data/zip_data_source.cc
index f4cbd08..719c30f 100644
--- a/native/src/fairseq2n/data/zip_data_source.cc
+++ b/native/src/fairseq2n/data/zip_data_source.cc
@@ -29,25 +29,25 @@ zip_data_source::zip_data_source(
     flatten_{flatten},
     disable_parallelism_{disable_parallelism}
 {
-    bool all_finite = pipelines_.empty() || std::all_of(
+    bool none_finite = pipelines_.empty() || std::all_of(
         pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p) 
         {
             return p.finitude_type() != data_source_finitude_type::finite;
         }
     );
     
-    bool all_infinite = !pipelines_.empty() && std::all_of(
+    bool none_infinite = !pipelines_.empty() && std::all_of(
         pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p) 
         {
             return p.finitude_type() != data_source_finitude_type::infinite;
         }
     );
 
-    if (all_finite && all_infinite) 
+    if (none_finite && none_infinite)
         throw_<data_pipeline_error>("Cannot zip only pseudo-infinite pipelines.");
-    else if (all_finite) 
+    else if (pipelines_.empty() || none_infinite)
         finitude_type_ = data_source_finitude_type::finite;
-    else if (all_infinite)
+    else if (none_finite)
         finitude_type_ = data_source_finitude_type::infinite;
     else
         throw_<data_pipeline_error>("Cannot mix finite and infinite pipelines in zip.");
-- 
2.43.0


From 70342a23327dd1c576287886f78e432ca0fb491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 084/127] fix: do not end round robin while a pipeline still
 has examples

A round in which all remaining positions were exhausted, either empty
pipelines or, without repeats, finished ones, ended the whole operation.
---
 .../fairseq2n/data/round_robin_data_source.cc | 47 ++++++++++---------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/native/src/fairseq2n/data/round_robin_data_source.cc b/native/src/fairseq2n/data/round_robin_data_source.cc
index 5ee1042..034b5e1 100644
--- a/native/src/fairseq2n/data/round_robin_data_source.cc
+++ b/native/src/fairseq2n/data/round_robin_data_source.cc
@@ -39,34 +39,35 @@ round_robin_data_source::next()
     if (pipelines_.empty() || is_eod_)
         return std::nullopt;
 
-    // At the beginning of the next round, check if all data pipelines had at
-    // least one epoch. If that is the case, we can signal EOD.
-    if (buffer_idx_ == 0) {
-        if (are_all_done())
-            return std::nullopt;
-    }
+    std::optional<data> output{};
 
-    // If this is the first call, gather the first round of examples.
-    if (buffer_.empty()) {
-        for (std::size_t i = 0; i < pipelines_.size(); i++)
-            buffer_.push_back(next_in_pipeline(i));
-    }
+    while (!output) {
+        // At the beginning of the next round, check if all data pipelines had
+        // at least one epoch. If that is the case, we can signal EOD.
+        if (buffer_idx_ == 0) {
+            if (are_all_done())
+                return std::nullopt;
+        }
 
-    std::optional<data> output{};
+        // If this is the first call, gather the first round of examples.
+        if (buffer_.empty()) {
+            for (std::size_t i = 0; i < pipelines_.size(); i++)
+                buffer_.push_back(next_in_pipeline(i));
+        }
 
-    // One or more data pipelines might be empty, so we have to check if a
-    // buffered example has a value before returning it.
-    for (; !output && buffer_idx_ < buffer_.size(); buffer_idx_++) {
-        std::optional<data> &maybe_example = buffer_[buffer_idx_];
-        if (maybe_example)
-            // Fill the position with the next round's example.
-            output = std::exchange(maybe_example, next_in_pipeline(buffer_idx_));
-    }
+        // One or more data pipelines might be empty or exhausted, so we have to
+        // check if a buffered example has a value before returning it.
+        for (; !output && buffer_idx_ < buffer_.size(); buffer_idx_++) {
+            std::optional<data> &maybe_example = buffer_[buffer_idx_];
+            if (maybe_example)
+                // Fill the position with the next round's example.
+                output = std::exchange(maybe_example, next_in_pipeline(buffer_idx_));
+        }
 
-    if (buffer_idx_ == buffer_.size())
-        buffer_idx_ = 0;
+        if (buffer_idx_ == buffer_.size())
+            buffer_idx_ = 0;
+    }
 
-    // Might not have a value if all data pipelines were empty.
     return output;
 }
 
-- 
2.43.0


From 0ddcab1a5551c4c430ba8793c913cc5e16b68a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 085/127] fix: do not sample from exhausted pipelines

Without repeats, sample read out of bounds when all pipelines were empty,
when a pseudo-infinite pipeline was drawn, or when the weights rounded
below the drawn number.
---
 .../src/fairseq2n/data/sample_data_source.cc  | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index f6bee07..f31a761 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -76,6 +76,15 @@ sample_data_source::next()
     if (buffer_.empty()) {
         for (std::size_t i = 0; i < pipelines_.size(); i++)
             buffer_.push_back(next_in_pipeline(i));
+
+        bool is_empty = std::none_of(
+            buffer_.begin(), buffer_.end(), [](const std::optional<data> &maybe_example)
+            {
+                return maybe_example.has_value();
+            });
+
+        if (is_empty)
+            return std::nullopt;
     }
 
     std::size_t pipeline_idx = random_pipeline_index();
@@ -174,12 +183,16 @@ sample_data_source::random_pipeline_index()
     // When allow_repeats_ is false, exhausted pipelines have cumsum[idx] == cumsum[idx-1].
     // Skip forward to find the next active pipeline that "owns" this probability mass.
     if (!allow_repeats_) { 
-        while (is_epoch_done_[lptr]) {
+        // Note that a pseudo-infinite pipeline is active even if it is done.
+        while (lptr < buffer_.size() && !buffer_[lptr])
             lptr++;
-            // Should never happen since at least one pipeline is active 
-            // (guaranteed by are_all_done() check in next())
-            // and the buffer has the size of pipelines so we don't risk to overflow
-            assert(lptr < buffer_.size());
+
+        // Due to rounding, the sample can lie beyond the last active pipeline.
+        // At least one pipeline is active (guaranteed by next()).
+        if (lptr == buffer_.size()) {
+            do
+                lptr--;
+            while (!buffer_[lptr]);
         }
     }
 
@@ -227,7 +240,8 @@ sample_data_source::block(std::size_t idx)
 
     float32 sum = weight_cumsums_.back();
 
-    if (!are_close(sum, 1.0F)) {
+    // The sum is zero if no active pipeline is left.
+    if (sum > 0.0F && !are_close(sum, 1.0F)) {
         for (float32 &s : weight_cumsums_)
             s /= sum;
     }
-- 
2.43.0


From 4f2a15608dc56200cc04f391b3c31142d3acbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 086/127] fix: keep repeating a pipeline that was saved at the
 end of an epoch

Whether the epoch had any data was not saved, so the restored pipeline
took itself for empty.
---
 native/src/fairseq2n/data/repeat_data_source.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/native/src/fairseq2n/data/repeat_data_source.cc b/native/src/fairseq2n/data/repeat_data_source.cc
index da6d4c8..f5e8543 100644
--- a/native/src/fairseq2n/data/repeat_data_source.cc
+++ b/native/src/fairseq2n/data/repeat_data_source.cc
@@ -51,6 +51,8 @@ repeat_data_source::record_position(tape &t, bool strict) const
 {
     t.record(repeat_nr_);
 
+    t.record(has_data_);
+
     inner_->record_position(t, strict);
 }
 
@@ -59,6 +61,8 @@ repeat_data_source::reload_position(tape &t, bool strict)
 {
     repeat_nr_ = t.read<std::size_t>();
 
+    has_data_ = t.read<bool>();
+
     inner_->reload_position(t, strict);
 }
 
-- 
2.43.0


From f48e57682aeedab2b84a050b82a626bd2469d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:35 +0000
Subject: [PATCH 087/127] fix: drop the remainder of pack before restoring its
 state

A state without remainder left the one of the current pipeline in place.
---
 native/src/fairseq2n/data/packed_data_source.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/native/src/fairseq2n/data/packed_data_source.cc b/native/src/fairseq2n/data/packed_data_source.cc
index adffb2a..3944e98 100644
--- a/native/src/fairseq2n/data/packed_data_source.cc
+++ b/native/src/fairseq2n/data/packed_data_source.cc
@@ -149,6 +149,8 @@ packed_data_source::reload_position(tape &t, bool strict)
     bool has_remainder = t.read<bool>();
     if (has_remainder)
         remainder_ = t.read<at::Tensor>();
+    else
+        remainder_.reset();
 
     inner_->reload_position(t, strict);
 }
-- 
2.43.0


From 32a4c8d5baa31c0eb6cb9cd1f1fff09db46757bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 088/127] fix: save and reset the pending batches of
 dynamic_bucket

Batches made by bucket_creation_fn but not returned yet were lost by
state_dict and survived reset.
---
 native/src/fairseq2n/data/dynamic_bucket_data_source.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
index 13b2eff..4c471c0 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
@@ -96,6 +96,9 @@ void
 dynamic_bucket_data_source::reset(bool reset_rng)
 {
     buffer_.clear();
+
+    return_buffer_.clear();
+
     inner_->reset(reset_rng);
 }
 
@@ -104,6 +107,8 @@ dynamic_bucket_data_source::record_position(tape &t, bool strict) const
 {
     if (maybe_bucket_creation_fn_) {
         t.record(buffer_);
+
+        t.record(data_list{return_buffer_.begin(), return_buffer_.end()});
     }
     inner_->record_position(t, strict);
 }
@@ -113,6 +118,10 @@ dynamic_bucket_data_source::reload_position(tape &t, bool strict)
 {
     if (maybe_bucket_creation_fn_) {
         buffer_ = t.read<data_list>();
+
+        auto return_buffer = t.read<data_list>();
+
+        return_buffer_.assign(return_buffer.begin(), return_buffer.end());
     }
     inner_->reload_position(t, strict);
 }
-- 
2.43.0


From f9669eea5848ecbc0b34f09b174d3d2a186f2eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 089/127] fix: do not lose an example if an iterator is saved
 right after a load

An iterator that was restored but not read yet holds its next example
separately.
---
 .../src/fairseq2n/bindings/data/iterator_data_source.cc      | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc b/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
index ceb9d79..aed2a11 100644
--- a/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
+++ b/native/python/src/fairseq2n/bindings/data/iterator_data_source.cc
@@ -52,7 +52,10 @@ iterator_data_source::record_position(tape &t, bool) const
     py::gil_scoped_acquire acquire;
 
     std::optional<data> to_return;
-    if (*iterator_ != py::iterator::sentinel()) {
+    if (reloaded_) {
+        // The iterator has not been read since it was reloaded.
+        to_return = to_return_;
+    } else if (*iterator_ != py::iterator::sentinel()) {
         to_return = (*iterator_)->cast<py_object>();
     }
 
-- 
2.43.0


From ec20b166d102c27cfc66ecfcb4df846326e653ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 090/127] fix: restore the random state of pipelines saved
 before first use

Loading the state of a pipeline that was never read reset it, but left
its random number generators where they were.
---
 native/src/fairseq2n/data/data_pipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/data_pipeline.cc b/native/src/fairseq2n/data/data_pipeline.cc
index 03d7035..b4c06b4 100644
--- a/native/src/fairseq2n/data/data_pipeline.cc
+++ b/native/src/fairseq2n/data/data_pipeline.cc
@@ -141,7 +141,7 @@ data_pipeline::reload_position(tape &t)
             throw;
         }
     } else
-        reset();
+        reset(/*reset_rng=*/true);
 }
 
 data_source_finitude_type
-- 
2.43.0


From d75b9a0d3708194ea43dc96c5a179dbf7fa0b532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 091/127] fix: do not hang in an unordered parallel map

A task could publish its output, and the reader consume it, before the
task left the count of tasks in flight; the reader then waited for an
output that never came.
---
 native/src/fairseq2n/data/map_data_source.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index 849d045..55b58fa 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -235,13 +235,13 @@ map_data_source::AsyncMapTask::operator()() const
         {
             std::unique_lock<std::mutex> lock(p_this->async_output_mutex_);
             p_this->async_queue_.emplace_back(std::move(result));
+            p_this->tasks_in_flight_--;
         }
     } catch (...) {
         std::unique_lock<std::mutex> lock(p_this->async_output_mutex_);
         p_this->exception_ptr_ = std::current_exception();
+        p_this->tasks_in_flight_--;
     }
-
-    p_this->tasks_in_flight_--;
     p_this->read_output_condition_.notify_one();
 }
 
-- 
2.43.0


From c4f9662a02c0eee3593fbb4283001259ce3f3a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 092/127] fix: load the state of pipelines with seeds of 64
 bits

Seeds are stored as signed integers.
---
 native/src/fairseq2n/data/sample_data_source.cc  | 2 +-
 native/src/fairseq2n/data/shuffle_data_source.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index f31a761..1ed0bab 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -144,7 +144,7 @@ sample_data_source::reload_position(tape &t, bool strict)
 
     is_eod_ = false;
 
-    seed_ = t.read<std::uint64_t>();
+    seed_ = conditional_cast<std::uint64_t>(t.read<std::int64_t>());
 
     generator_.set_state(t.read<at::Tensor>());
 
diff --git a/native/src/fairseq2n/data/shuffle_data_source.cc b/native/src/fairseq2n/data/shuffle_data_source.cc
index 8349c16..631239e 100644
--- a/native/src/fairseq2n/data/shuffle_data_source.cc
+++ b/native/src/fairseq2n/data/shuffle_data_source.cc
@@ -145,7 +145,7 @@ shuffle_data_source::reload_position(tape &t, bool strict)
         fill_buffer_ = true;
     }
 
-    seed_ = t.read<std::uint64_t>();
+    seed_ = conditional_cast<std::uint64_t>(t.read<std::int64_t>());
 
     generator_.set_state(t.read<at::Tensor>());
 
-- 
2.43.0


From b54a2438144b45f7ea7cab06dd2956813b35f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 093/127] fix: do not abort when deleting a pipeline that
 failed in the background

Only data pipeline errors were handled, not those raised by Python
functions.
---
 native/python/src/fairseq2n/bindings/data/data_pipeline.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
index 0fe5655..065ce6f 100644
--- a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
+++ b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
@@ -51,7 +51,7 @@ struct data_pipeline_deleter {
         // that might happen due to Python callbacks.
         try {
             pipeline->reset();
-        } catch (const data_pipeline_error &) {}
+        } catch (const std::exception &) {}
 
         // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
         delete pipeline;
-- 
2.43.0


From a3fde5a5ace44fc48f1484b46822f0f1388ae016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 094/127] fix: do not lose or skip the processing of examples
 before a failure in map

If reading ahead failed, the examples read so far were returned as they
were or dropped, if the pipeline recovered from the error.
---
 native/src/fairseq2n/data/map_data_source.cc | 22 +++++++++++++++++++-
 native/src/fairseq2n/data/map_data_source.h  |  1 +
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index 55b58fa..11cf548 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -90,6 +90,8 @@ map_data_source::next()
 void
 map_data_source::reset(bool reset_rng)
 {
+    read_exception_ptr_ = nullptr;
+
     buffer_.clear();
 
     buffer_pos_ = buffer_.begin();
@@ -129,6 +131,8 @@ map_data_source::record_position(tape &t, bool strict) const
 void
 map_data_source::reload_position(tape &t, bool strict)
 {
+    read_exception_ptr_ = nullptr;
+
     if (strict && deterministic_) {
         buffer_ = t.read<std::vector<std::optional<data>>>();
 
@@ -170,8 +174,24 @@ map_data_source::fill_buffer()
 {
     buffer_.clear();
 
+    buffer_pos_ = buffer_.begin();
+
+    if (read_exception_ptr_)
+        std::rethrow_exception(std::exchange(read_exception_ptr_, nullptr));
+
     for (std::size_t i = 0; i < num_parallel_calls_; i++) {
-        std::optional<data> maybe_example = inner_->next();
+        std::optional<data> maybe_example{};
+
+        try {
+            maybe_example = inner_->next();
+        } catch (const std::exception &) {
+            if (buffer_.empty())
+                throw;
+
+            // Process what we have read so far before reporting the error.
+            read_exception_ptr_ = std::current_exception();
+        }
+
         if (!maybe_example)
             break;
 
diff --git a/native/src/fairseq2n/data/map_data_source.h b/native/src/fairseq2n/data/map_data_source.h
index f13250d..945c7db 100644
--- a/native/src/fairseq2n/data/map_data_source.h
+++ b/native/src/fairseq2n/data/map_data_source.h
@@ -88,6 +88,7 @@ private:
     std::atomic<bool> finished_{false};
     std::atomic<size_t> tasks_in_flight_{0};
     std::exception_ptr exception_ptr_{};
+    std::exception_ptr read_exception_ptr_{};
 #ifdef FAIRSEQ2N_USE_TBB
     tbb::task_arena pool_;
 #else
-- 
2.43.0


From 6ebb1da35654bfa2e1af23b2b9854ff8d1912f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 095/127] fix: return the examples prefetched before a failure
 and recover from it

A recoverable error made prefetch drop what it had read and fail at every
further call.
---
 native/src/fairseq2n/data/prefetch_data_source.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/native/src/fairseq2n/data/prefetch_data_source.cc b/native/src/fairseq2n/data/prefetch_data_source.cc
index a6ff5f7..a6da813 100644
--- a/native/src/fairseq2n/data/prefetch_data_source.cc
+++ b/native/src/fairseq2n/data/prefetch_data_source.cc
@@ -38,13 +38,18 @@ prefetch_data_source::next()
                 return state_ != prefetch_state::running || !fill_queue_.empty();
             });
 
-            if (state_ == prefetch_state::faulted)
-                std::rethrow_exception(exception_ptr_);
-
             std::swap(next_queue_, fill_queue_);
         }
 
         fill_queue_condition_.notify_one();
+
+        if (next_queue_.empty() && state_ == prefetch_state::faulted) {
+            stop_prefetch_thread();
+
+            state_ = prefetch_state::not_running;
+
+            std::rethrow_exception(std::exchange(exception_ptr_, nullptr));
+        }
     }
 
     if (next_queue_.empty())
-- 
2.43.0


From f527ead6f9ad6b1ef85a4546c9ba5e05203ce3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:19 +0000
Subject: [PATCH 096/127] fix: do not swallow the failure of the last call of
 an unordered map

If the other calls had finished already, the pipeline reported the end of
the data instead.
---
 native/src/fairseq2n/data/map_data_source.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/native/src/fairseq2n/data/map_data_source.cc b/native/src/fairseq2n/data/map_data_source.cc
index 11cf548..7bcbdd6 100644
--- a/native/src/fairseq2n/data/map_data_source.cc
+++ b/native/src/fairseq2n/data/map_data_source.cc
@@ -82,6 +82,11 @@ map_data_source::next()
             if (example)
                 return example;
         }
+
+        std::unique_lock<std::mutex> lock{async_output_mutex_};
+
+        if (exception_ptr_)
+            std::rethrow_exception(exception_ptr_);
     }
 
     return std::nullopt;
-- 
2.43.0


From c1c8aebe858f8a9af5353d81ed497482f8f3029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 097/127] fix: hold the GIL when an iterator pipeline is
 deleted before first use

The Python iterator was released by the deleter of the pipeline, which
does not hold the GIL.
---
 .../fairseq2n/bindings/data/data_pipeline.cc    | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
index 065ce6f..1d8bf0b 100644
--- a/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
+++ b/native/python/src/fairseq2n/bindings/data/data_pipeline.cc
@@ -698,9 +698,22 @@ def_data_pipeline(py::module_ &data_module)
                             throw;
                     }
                 }
-                auto factory = [iterator = std::move(iterator), fn = std::move(fn), infinite]() mutable
+                // The pipeline might get deleted without holding GIL.
+                auto delete_iterator = [](py::iterator *it)
                 {
-                    return std::make_unique<iterator_data_source>(std::move(iterator), std::move(fn), infinite);
+                    py::gil_scoped_acquire acquire{};
+
+                    // NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+                    delete it;
+                };
+
+                std::shared_ptr<py::iterator> shared_iterator{
+                    new py::iterator{std::move(iterator)}, delete_iterator};
+
+                auto factory = [shared_iterator, fn = std::move(fn), infinite]() mutable
+                {
+                    return std::make_unique<iterator_data_source>(
+                        std::move(*shared_iterator), std::move(fn), infinite);
                 };
 
                 return data_pipeline_builder{std::move(factory)};
-- 
2.43.0


From 68753865b39433dbf180986bf986afecfbcdd57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:28 +0000
Subject: [PATCH 098/127] fix: do not take a round robin or sample that ends
 for a pseudo-infinite one

Both end with their finite pipelines, and a round robin to the shortest
even if others are infinite; as pseudo-infinite or infinite ones they were
cut short or refused by the operators on top.
---
 .../fairseq2n/data/round_robin_data_source.cc | 22 +++++++++++++++----
 .../src/fairseq2n/data/sample_data_source.cc  | 22 +++++++++++++++----
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/native/src/fairseq2n/data/round_robin_data_source.cc b/native/src/fairseq2n/data/round_robin_data_source.cc
index 034b5e1..e828902 100644
--- a/native/src/fairseq2n/data/round_robin_data_source.cc
+++ b/native/src/fairseq2n/data/round_robin_data_source.cc
@@ -24,12 +24,26 @@ round_robin_data_source::round_robin_data_source(
     if (pipelines_.empty())
         finitude_type_ = data_source_finitude_type::finite;
     else {
-        auto max_cardinality_pipeline_it = std::max_element(
-            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &a, const data_pipeline &b)
+        bool any_finite = std::any_of(
+            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p)
             {
-                return a.finitude_type() < b.finitude_type();
+                return p.finitude_type() == data_source_finitude_type::finite;
             });
-        finitude_type_ = max_cardinality_pipeline_it->finitude_type();
+
+        bool any_infinite = std::any_of(
+            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p)
+            {
+                return p.finitude_type() == data_source_finitude_type::infinite;
+            });
+
+        // We end with the finite pipelines, no matter how many pseudo-infinite
+        // ones there are.
+        if (any_infinite && !(stop_at_shortest_ && any_finite))
+            finitude_type_ = data_source_finitude_type::infinite;
+        else if (any_finite)
+            finitude_type_ = data_source_finitude_type::finite;
+        else
+            finitude_type_ = data_source_finitude_type::pseudo_infinite;
     }
 }
 
diff --git a/native/src/fairseq2n/data/sample_data_source.cc b/native/src/fairseq2n/data/sample_data_source.cc
index 1ed0bab..cccd520 100644
--- a/native/src/fairseq2n/data/sample_data_source.cc
+++ b/native/src/fairseq2n/data/sample_data_source.cc
@@ -57,12 +57,26 @@ sample_data_source::sample_data_source(
     if (pipelines_.empty())
         finitude_type_ = data_source_finitude_type::finite;
     else {
-        auto max_cardinality_pipeline_it = std::max_element(
-            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &a, const data_pipeline &b)
+        bool any_finite = std::any_of(
+            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p)
             {
-                return a.finitude_type() < b.finitude_type();
+                return p.finitude_type() == data_source_finitude_type::finite;
             });
-        finitude_type_ = max_cardinality_pipeline_it->finitude_type();
+
+        bool any_infinite = std::any_of(
+            pipelines_.begin(), pipelines_.end(), [](const data_pipeline &p)
+            {
+                return p.finitude_type() == data_source_finitude_type::infinite;
+            });
+
+        // We end with the finite pipelines, no matter how many pseudo-infinite
+        // ones there are.
+        if (any_infinite)
+            finitude_type_ = data_source_finitude_type::infinite;
+        else if (any_finite)
+            finitude_type_ = data_source_finitude_type::finite;
+        else
+            finitude_type_ = data_source_finitude_type::pseudo_infinite;
     }
 }
 
-- 
2.43.0


From 0af4ea4c768c44689c3e3dbc0062403861a8aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 099/127] fix: do not pack zero-length tensors into an empty
 batch

---
 native/src/fairseq2n/data/packed_data_source.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/native/src/fairseq2n/data/packed_data_source.cc b/native/src/fairseq2n/data/packed_data_source.cc
index 3944e98..a3c2863 100644
--- a/native/src/fairseq2n/data/packed_data_source.cc
+++ b/native/src/fairseq2n/data/packed_data_source.cc
@@ -53,6 +53,10 @@ packed_data_source::next()
                     "The input tensors to the pack operation must be one-dimensional.");
         }
 
+        std::int64_t numel = tensor.numel();
+        if (numel == 0)
+            continue;
+
         if (!batch.defined()) {
             batch = at::full({capacity_}, pad_value_,
                 at::dtype(tensor.dtype()).device(tensor.device()).pinned_memory(pinned_memory_));
@@ -60,10 +64,6 @@ packed_data_source::next()
             tensor = tensor.to(batch.device());
         }
 
-        std::int64_t numel = tensor.numel();
-        if (numel == 0)
-            continue;
-
         std::int64_t max_fill_size = std::min(capacity_ - fill_pos, max_seq_len_);
 
         std::int64_t fill_size = std::min(numel, max_fill_size);
-- 
2.43.0


From 487ed7d417b0e23c03b02b810ae5d4c9a62918d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:24 +0000
Subject: [PATCH 100/127] fix: do not read past an empty list of buckets in
 dynamic_bucket

---
 .../data/dynamic_bucket_data_source.cc        | 54 +++++++++++--------
 1 file changed, 32 insertions(+), 22 deletions(-)

diff --git a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
index 4c471c0..273e5db 100644
--- a/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
+++ b/native/src/fairseq2n/data/dynamic_bucket_data_source.cc
@@ -57,34 +57,44 @@ dynamic_bucket_data_source::next()
         return maximum_size_met;
     };
 
-    while (!bucket_ready()) {
-        std::optional<data> maybe_example = inner_->next();
-        if (!maybe_example)
-            break;
-        cost += cost_fn_(*maybe_example);
-        buffer_.push_back(*std::move(maybe_example));
-    }
+    while (true) {
+        while (!bucket_ready()) {
+            std::optional<data> maybe_example = inner_->next();
+            if (!maybe_example)
+                break;
+            cost += cost_fn_(*maybe_example);
+            buffer_.push_back(*std::move(maybe_example));
+        }
+
+        if (buffer_.empty())
+            return std::nullopt;
+
+        if (bucket_ready()) {
+            if (maybe_bucket_creation_fn_) {
+                const bucket_creation_fn& fn = *maybe_bucket_creation_fn_;
+                auto&& [return_buffer, new_buffer] = fn(std::move(buffer_));
+
+                buffer_ = std::move(new_buffer);
 
-    if (buffer_.empty())
-        return std::nullopt;
+                cost = 0;
 
-    if (bucket_ready()) {
-        if (maybe_bucket_creation_fn_) {
-            const bucket_creation_fn& fn = *maybe_bucket_creation_fn_;
-            auto&& [return_buffer, new_buffer] = fn(std::move(buffer_));
+                // The function might hold back all examples as the remainder.
+                if (return_buffer.empty())
+                    continue;
 
-            buffer_ = std::move(new_buffer);
+                data output{return_buffer.front()};
+                return_buffer.pop_front();
 
-            data output{return_buffer.front()};
-            return_buffer.pop_front();
+                return_buffer_ = std::move(return_buffer);
 
-            return_buffer_ = std::move(return_buffer);
+                return output;
+            }
+        } else if (drop_remainder_) {
+            buffer_.clear();
+            return std::nullopt;
+        }
 
-            return output;
-        } 
-    } else if (drop_remainder_) {
-        buffer_.clear();
-        return std::nullopt;
+        break;
     }
 
     data_list output = std::move(buffer_);
-- 
2.43.0


From 355db8d0fed4ad23a44f2152d380abcb8f13bd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 101/127] fix: do not ignore the arguments of HgTokenizer's
 encoders and decoders

---
 src/fairseq2/models/hg/tokenizer.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/fairseq2/models/hg/tokenizer.py b/src/fairseq2/models/hg/tokenizer.py
index 58590b0..4aac5f4 100644
--- a/src/fairseq2/models/hg/tokenizer.py
+++ b/src/fairseq2/models/hg/tokenizer.py
@@ -95,6 +95,12 @@ class HgTokenizer(Tokenizer):
     def create_raw_encoder(
         self, *, device: Device | None = None, pin_memory: bool = False
     ) -> TokenEncoder:
+        # The cached encoder is only valid for the default arguments.
+        if device is not None or pin_memory:
+            return HuggingFaceTokenEncoder(
+                self._model, device=device, pin_memory=pin_memory
+            )
+
         if self._encoder is not None:
             return self._encoder
         self._encoder = HuggingFaceTokenEncoder(
@@ -104,6 +110,12 @@ class HgTokenizer(Tokenizer):
 
     @override
     def create_decoder(self, *, skip_special_tokens: bool = False) -> TokenDecoder:
+        # The cached decoder is only valid for the default arguments.
+        if skip_special_tokens:
+            return HuggingFaceTokenDecoder(
+                self._model, skip_special_tokens=skip_special_tokens
+            )
+
         if self._decoder is not None:
             return self._decoder
         self._decoder = HuggingFaceTokenDecoder(
-- 
2.43.0


From 9ddfcf6c335f2fd136d781538757e7ee788ecb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 102/127] fix: count added tokens in the vocabulary size of
 Hugging Face tokenizers

---
 src/fairseq2/data/tokenizers/hg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 68fd19c..17f936f 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -67,7 +67,8 @@ else:
 
             raise TokenizerModelError(path, msg) from ex
 
-        vocab_size = tok.vocab_size
+        # `tok.vocab_size` excludes the added (i.e. special) tokens.
+        vocab_size = len(tok)
 
         token_indices: dict[str, int | None] = {}
         for token_type in _TOKEN_TYPES:
-- 
2.43.0


From e17e2d72b2027eaa7dd6c297bd1bdb9e713f38af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:38 +0000
Subject: [PATCH 103/127] fix: encode text with split characters as tokens in
 TiktokenEncoder

---
 src/fairseq2/data/tokenizers/tiktoken.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/tiktoken.py b/src/fairseq2/data/tokenizers/tiktoken.py
index 05a2888..a34a474 100644
--- a/src/fairseq2/data/tokenizers/tiktoken.py
+++ b/src/fairseq2/data/tokenizers/tiktoken.py
@@ -186,7 +186,8 @@ class TiktokenEncoder(TokenEncoder):
 
         b = self._encoding.decode_tokens_bytes(indices)
 
-        return [e.decode("utf-8") for e in b]
+        # A token might hold only a part of a multi-byte character.
+        return [e.decode("utf-8", errors="surrogateescape") for e in b]
 
     @property
     @override
@@ -224,7 +225,10 @@ class TiktokenDecoder(TokenDecoder):
 
     @override
     def decode_from_tokens(self, tokens: Sequence[str]) -> str:
-        indices = [self._encoding.encode_single_token(t) for t in tokens]
+        indices = [
+            self._encoding.encode_single_token(t.encode("utf-8", "surrogateescape"))
+            for t in tokens
+        ]
 
         if self._skip_special_tokens:
             indices = [i for i in indices if i < self._num_bpe_tokens]
-- 
2.43.0


From 57950d50c34076cf3dd726170cf174bfe2cf9403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 104/127] fix: derive the attributes of exported Hugging Face
 configurations from the actual data

Attributes such as `layer_types` stayed those of the default configuration.
---
 src/fairseq2/models/hg/converter.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/hg/converter.py b/src/fairseq2/models/hg/converter.py
index e0ee5c5..95d15d3 100644
--- a/src/fairseq2/models/hg/converter.py
+++ b/src/fairseq2/models/hg/converter.py
@@ -173,13 +173,15 @@ def save_hugging_face_model(
 
     native_config = config_kls()
 
-    for key, value in config.data.items():
+    for key in config.data.keys():
         if not hasattr(native_config, key):
             raise ValueError(
                 f"`transformers.{config.kls_name}` does not have an attribute named {key}."
             )
 
-        setattr(native_config, key, value)
+    # Some attributes (e.g. `layer_types`) are derived from others, therefore we
+    # have to construct the configuration from the actual data.
+    native_config = config_kls(**config.data)
 
     arch = config.arch
 
-- 
2.43.0


From b52d8a02e955a4cfbdce27f6a254f9c7fb357311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 105/127] fix: export LLaMA models with RoPE parameters of
 Transformers v5

The configuration classes no longer have a `rope_theta`, so the export failed.
---
 src/fairseq2/models/llama/interop.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index b47048f..12b17b8 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -136,15 +136,16 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
         intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
 
         if config.use_scaled_rope:
-            rope_scale = {
+            rope_params = {
                 "factor": config.rope_scale.factor,
                 "low_freq_factor": config.rope_scale.frequency_factors[0],
                 "high_freq_factor": config.rope_scale.frequency_factors[1],
                 "original_max_position_embeddings": config.rope_scale.original_context_length,
+                "rope_theta": config.rope_theta,
                 "rope_type": "llama3",
             }
         else:
-            rope_scale = None
+            rope_params = {"rope_theta": config.rope_theta, "rope_type": "default"}
 
         if config.vocab_size == 32_000:  # LLaMA 1 and 2
             bos_idx = 1
@@ -164,8 +165,7 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
             "num_hidden_layers": config.num_layers,
             "num_key_value_heads": config.num_key_value_heads,
             "rms_norm_eps": 1e-5,
-            "rope_scaling": rope_scale,
-            "rope_theta": config.rope_theta,
+            "rope_parameters": rope_params,
             "tie_word_embeddings": config.tied_embeddings,
             "vocab_size": config.vocab_size,
             "head_dim": config.model_dim // config.num_attn_heads,
-- 
2.43.0


From 888a98be8fdbcaba9aa61efd8e0bbfc641436080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 106/127] fix: export Qwen models with RoPE parameters of
 Transformers v5

The configuration classes no longer have a `rope_theta`, so the export failed.
---
 src/fairseq2/models/qwen/interop.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index 98da6d6..ec724d5 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -62,7 +62,10 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
             "num_attention_heads": config.num_attn_heads,
             "num_key_value_heads": config.num_key_value_heads,
             "intermediate_size": config.ffn_inner_dim,
-            "rope_theta": config.rope_theta,
+            "rope_parameters": {
+                "rope_theta": config.rope_theta,
+                "rope_type": "default",
+            },
         }
 
         if config.qkv_proj_bias:
-- 
2.43.0


From ff7c38fd07f2325f2f253aa9b62bd6f17cc63b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 107/127] fix: export the head dimension of Qwen 3 models

It was always the default one of Transformers.
---
 src/fairseq2/models/qwen/interop.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/models/qwen/interop.py b/src/fairseq2/models/qwen/interop.py
index ec724d5..ba6cf29 100644
--- a/src/fairseq2/models/qwen/interop.py
+++ b/src/fairseq2/models/qwen/interop.py
@@ -73,6 +73,11 @@ class _QwenHuggingFaceConverter(HuggingFaceConverter):
                 data, kls_name="Qwen2Config", arch="Qwen2ForCausalLM"
             )
         else:
+            if config.head_dim is not None:
+                data["head_dim"] = config.head_dim
+            else:
+                data["head_dim"] = config.model_dim // config.num_attn_heads
+
             return HuggingFaceConfig(
                 data, kls_name="Qwen3Config", arch="Qwen3ForCausalLM"
             )
-- 
2.43.0


From 0225681df82e817f4b50e8e819e5c52e180fe32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 108/127] fix: export the actual inner dimensionality of the
 FFNs of LLaMA models

`ffn_inner_dim` and `ffn_inner_dim_scale` were ignored.
---
 src/fairseq2/models/llama/interop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/llama/interop.py b/src/fairseq2/models/llama/interop.py
index 12b17b8..1cb7679 100644
--- a/src/fairseq2/models/llama/interop.py
+++ b/src/fairseq2/models/llama/interop.py
@@ -129,11 +129,15 @@ class _LLaMAHuggingFaceConverter(HuggingFaceConverter):
     def to_hg_config(self, config: object) -> HuggingFaceConfig:
         config = cast_config_type(config, LLaMAConfig)
 
-        multiplier = config.ffn_inner_dim_multiplier
+        ffn_inner_dim = int(config.ffn_inner_dim * config.ffn_inner_dim_multiplier)
+
+        # See `GLUFeedForwardNetwork`.
+        intermediate_size = int(ffn_inner_dim * config.ffn_inner_dim_scale)
 
         multiple_of = config.ffn_inner_dim_multiple_of
 
-        intermediate_size = multiple_of * ((int(multiplier * int(8 * config.model_dim / 3)) + multiple_of - 1) // multiple_of)  # fmt: skip
+        if multiple_of != 1:
+            intermediate_size = multiple_of * ((intermediate_size + multiple_of - 1) // multiple_of)  # fmt: skip
 
         if config.use_scaled_rope:
             rope_params = {
-- 
2.43.0


From 52cfb160f7de5325325ef406db99654f557fb827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:10 +0000
Subject: [PATCH 109/127] fix: export the RoPE parameters of OLMo 3 per layer
 type

Hugging Face ignored them since they were not nested.
---
 src/fairseq2/models/olmo/interop.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fairseq2/models/olmo/interop.py b/src/fairseq2/models/olmo/interop.py
index 2031525..bfe0cb5 100644
--- a/src/fairseq2/models/olmo/interop.py
+++ b/src/fairseq2/models/olmo/interop.py
@@ -120,6 +120,13 @@ class _OLMOHuggingFaceConverter(HuggingFaceConverter):
                 }
 
             data["rope_scaling"] = rope_scaling
+
+            # Both types of layers share the same RoPE.
+            data["rope_parameters"] = {
+                "sliding_attention": dict(rope_scaling),
+                "full_attention": dict(rope_scaling),
+            }
+
             data["sliding_window"] = config.sliding_window
 
             if config.layer_types is not None:
-- 
2.43.0


From 8894e66ff8e64c9055fb877f7ba05c3f0064c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:25 +0000
Subject: [PATCH 110/127] fix: export whether OLMo 3 truncates the YaRN
 correction range

---
 src/fairseq2/models/olmo/interop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fairseq2/models/olmo/interop.py b/src/fairseq2/models/olmo/interop.py
index bfe0cb5..3e1fa8a 100644
--- a/src/fairseq2/models/olmo/interop.py
+++ b/src/fairseq2/models/olmo/interop.py
@@ -117,6 +117,7 @@ class _OLMOHuggingFaceConverter(HuggingFaceConverter):
                     "beta_slow": yarn.beta_slow,
                     "mscale": yarn.mscale,
                     "mscale_all_dim": yarn.mscale_all_dim,
+                    "truncate": yarn.truncate,
                 }
 
             data["rope_scaling"] = rope_scaling
-- 
2.43.0


From 96e6f0db9614678af590f308791adfb3c94d57dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:20 +0000
Subject: [PATCH 111/127] fix: export the learned scales of Gemma 3n models

Hugging Face's Gemma 3n has per_dim_scale and correct_output_scale as learned
parameters, they were dropped from the exported state dictionary.
---
 src/fairseq2/models/gemma3n/interop.py | 21 ++-------------------
 1 file changed, 2 insertions(+), 19 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 07800a6..71c3ec6 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -36,9 +36,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.q_proj\.": r"audio_tower.encoder.layers.\1.self_attn.q_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.k_proj\.": r"audio_tower.encoder.layers.\1.self_attn.k_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.v_proj\.": r"audio_tower.encoder.layers.\1.self_attn.v_proj.",
-    # per_dim_scale: fs2 uses learned per-dim scaling; HF does not.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale$": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
+    r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.per_dim_scale": r"audio_tower.encoder.layers.\1.self_attn.sdpa.per_dim_scale",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.attn\.relative_position_embedding\.pos_proj\.": r"audio_tower.encoder.layers.\1.self_attn.sdpa.pos_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post\.": r"audio_tower.encoder.layers.\1.self_attn.output_proj.",
     r"^model\.audio_tower\.conformer\.([0-9]+)\.attention\.post_norm\.": r"audio_tower.encoder.layers.\1.self_attn_post_norm.",
@@ -92,9 +90,7 @@ _HG_KEY_MAP: Final = {
     r"^model\.language_model\.layers\.([0-9]+)\.laurel\.post_laurel_norm\.":     r"decoder.layers.\1.laurel.post_laurel_norm.",
 
     # Decoder layers - AltUp (per-layer predict/correct)
-    # correct_output_scale: fs2 stores as param; HF derives from config.
-    # Kept in key map for loading; filtered out during export in _convert_to_hg_state_dict.
-    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale$":   r"decoder.layers.\1.altup.correct_output_scale",
+    r"^model\.language_model\.layers\.([0-9]+)\.altup\.correct_output_scale":   r"decoder.layers.\1.altup.correct_output_scale",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.correction_coefs\.":      r"decoder.layers.\1.altup.correction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.prediction_coefs\.":      r"decoder.layers.\1.altup.prediction_coefs.",
     r"^model\.language_model\.layers\.([0-9]+)\.altup\.modality_router\.":       r"decoder.layers.\1.altup.modality_router.",
@@ -198,19 +194,6 @@ def _convert_to_hg_state_dict(
 ) -> dict[str, object]:
     state_dict = dict(state_dict)
 
-    # Remove keys that exist in fs2 but not in HF's model
-    _FS2_ONLY_SUFFIXES = (
-        # fs2 learned per-dim scaling; HF uses 1/sqrt(head_dim)
-        ".per_dim_scale",
-        # fs2 stores as param; HF derives from altup_correct_scale config
-        ".correct_output_scale",
-    )
-    state_dict = {
-        k: v
-        for k, v in state_dict.items()
-        if not any(k.endswith(s) for s in _FS2_ONLY_SUFFIXES)
-    }
-
     # Squeeze pointwise conv weights: fs2 Conv1d [N, M, 1] → HF Linear [N, M]
     for key, value in state_dict.items():
         if (
-- 
2.43.0


From c4086a92329fb3398d89cac8f2cfe7bfe1900d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:12 +0000
Subject: [PATCH 112/127] fix: export the attention and FFN types of Gemma 3n
 layers

The last layer is always global and the FFNs of local layers have an inner
dimensionality of altup_hidden_dim, none of which was exported.
---
 src/fairseq2/models/gemma3n/interop.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index 71c3ec6..bc44e78 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -11,7 +11,7 @@ from typing import Final
 import torch
 
 from fairseq2.models.family import HuggingFaceExport
-from fairseq2.models.gemma3n.config import Gemma3nConfig
+from fairseq2.models.gemma3n.config import Gemma3nConfig, is_global_layer
 from fairseq2.models.utils.checkpoint import (
     convert_state_dict,
     create_reverse_key_map,
@@ -211,9 +211,24 @@ def _convert_to_hg_state_dict(
 def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
     from transformers import Gemma3nTextConfig
 
+    layer_types = []
+
+    intermediate_size = []
+
+    for layer_idx in range(config.num_layers):
+        if is_global_layer(layer_idx, config.num_layers):
+            layer_types.append("full_attention")
+
+            intermediate_size.append(config.ffn_inner_dim)
+        else:
+            layer_types.append("sliding_attention")
+
+            intermediate_size.append(config.altup_hidden_dim)
+
     text_config = Gemma3nTextConfig(  # type: ignore[call-arg]
         hidden_size=config.model_dim,
-        intermediate_size=config.ffn_inner_dim,
+        intermediate_size=intermediate_size,
+        layer_types=layer_types,
         num_hidden_layers=config.num_layers,
         num_attention_heads=config.num_attn_heads,
         num_key_value_heads=config.num_key_value_heads,
-- 
2.43.0


From 3bd5bb8c4d2184c98418b1e1fd67054ab4bfa52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:07 +0000
Subject: [PATCH 113/127] fix: convert fairseq checkpoints of wav2vec 2.0

Fairseq's key of the mask embedding is mask_emb, so no checkpoint was ever
recognised, and the position encoder of one layer had no mapping.
---
 src/fairseq2/models/wav2vec2/interop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/models/wav2vec2/interop.py b/src/fairseq2/models/wav2vec2/interop.py
index 7dd9ebc..1eab298 100644
--- a/src/fairseq2/models/wav2vec2/interop.py
+++ b/src/fairseq2/models/wav2vec2/interop.py
@@ -25,7 +25,7 @@ def convert_wav2vec2_state_dict(
     except KeyError:
         pass
 
-    if "mask_emb.weight" in state_dict:  # fairseq
+    if "mask_emb" in state_dict:  # fairseq
         if config.encoder_config.norm_order == TransformerNormOrder.POST:
             # fmt: off
             state_dict["encoder_frontend.layer_norm.weight"] = state_dict["encoder.layer_norm.weight"]
@@ -44,6 +44,7 @@ def convert_wav2vec2_state_dict(
             r"^encoder\.layers\.([0-9]+)\.fc2\.":                 r"encoder.layers.\1.ffn.output_proj.",
             r"^encoder\.layers\.([0-9]+)\.final_layer_norm\.":    r"encoder.layers.\1.ffn_layer_norm.",
             r"^encoder\.embed_tokens\.":                          r"encoder_frontend.embed.",
+            r"^encoder\.pos_conv\.0\.(weight|bias)":               r"encoder_frontend.pos_encoder.conv.\1",
             r"^encoder\.pos_conv\.([0-4])\.0.":                   r"encoder_frontend.pos_encoder.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.0\.":    r"encoder_frontend.feature_extractor.layers.\1.conv.",
             r"^feature_extractor\.conv_layers\.([0-9]+)\.2\.1\.": r"encoder_frontend.feature_extractor.layers.\1.layer_norm.",
-- 
2.43.0


From 075a06b379cf3dbfae404b972520a1f213e2701d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:25 +0000
Subject: [PATCH 114/127] fix: export the audio configuration of Gemma 3n
 models

---
 src/fairseq2/models/gemma3n/interop.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/models/gemma3n/interop.py b/src/fairseq2/models/gemma3n/interop.py
index bc44e78..41d8ac5 100644
--- a/src/fairseq2/models/gemma3n/interop.py
+++ b/src/fairseq2/models/gemma3n/interop.py
@@ -6,6 +6,7 @@
 
 from __future__ import annotations
 
+from dataclasses import asdict
 from typing import Final
 
 import torch
@@ -209,7 +210,7 @@ def _convert_to_hg_state_dict(
 
 
 def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
-    from transformers import Gemma3nTextConfig
+    from transformers import Gemma3nAudioConfig, Gemma3nTextConfig
 
     layer_types = []
 
@@ -259,7 +260,12 @@ def _convert_to_hg_config(config: Gemma3nConfig) -> dict[str, object]:
         },
     )
 
-    return {
+    data: dict[str, object] = {
         "model_type": "gemma3n",
         "text_config": text_config,
     }
+
+    if config.audio_config is not None:
+        data["audio_config"] = Gemma3nAudioConfig(**asdict(config.audio_config))
+
+    return data
-- 
2.43.0


From 6646e329538edf39b7e8f6657f27f57eb25c76aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:02 +0000
Subject: [PATCH 115/127] Revert "fix: count added tokens in the vocabulary
 size of Hugging Face tokenizers"

This reverts commit 9ddfcf6c335f2fd136d781538757e7ee788ecb43.
---
 src/fairseq2/data/tokenizers/hg.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fairseq2/data/tokenizers/hg.py b/src/fairseq2/data/tokenizers/hg.py
index 17f936f..68fd19c 100644
--- a/src/fairseq2/data/tokenizers/hg.py
+++ b/src/fairseq2/data/tokenizers/hg.py
@@ -67,8 +67,7 @@ else:
 
             raise TokenizerModelError(path, msg) from ex
 
-        # `tok.vocab_size` excludes the added (i.e. special) tokens.
-        vocab_size = len(tok)
+        vocab_size = tok.vocab_size
 
         token_indices: dict[str, int | None] = {}
         for token_type in _TOKEN_TYPES:
-- 
2.43.0


From a8297beda2e4e2a748d1f429f5a0dd002777b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 116/127] fix: find CRLF line endings that are split over two
 blocks

The line reader forgot a carriage return at the end of a block, so a line
whose CRLF straddled two blocks was merged with the next one, or the line
ending of the file was inferred as LF.
---
 .../fairseq2n/data/text/text_line_reader.cc   | 21 ++++++++++++-------
 .../fairseq2n/data/text/text_line_reader.h    |  1 +
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/native/src/fairseq2n/data/text/text_line_reader.cc b/native/src/fairseq2n/data/text/text_line_reader.cc
index 6474b9f..564e7d8 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.cc
+++ b/native/src/fairseq2n/data/text/text_line_reader.cc
@@ -12,10 +12,14 @@
 namespace fairseq2n::detail {
 
 std::optional<std::size_t>
-text_line_reader::maybe_find_record_end(memory_span chunk, bool)
+text_line_reader::maybe_find_record_end(memory_span chunk, bool first_chunk)
 {
     auto chars = cast<const char>(chunk);
 
+    // A CRLF might be split over two chunks.
+    if (first_chunk)
+        has_cr_ = false;
+
     if (line_ending_ == line_ending::infer)
         if (!infer_line_ending(chars))
             return std::nullopt;
@@ -31,14 +35,12 @@ text_line_reader::maybe_find_record_end(memory_span chunk, bool)
         break;
     }
     case line_ending::crlf: {
-        bool has_cr = false;
-
         for (; pos < chars.end(); ++pos) {
             if (*pos == '\n') {
-                if (has_cr)
+                if (has_cr_)
                     break;
             } else
-                has_cr = *pos == '\r';
+                has_cr_ = *pos == '\r';
         }
 
         break;
@@ -57,7 +59,7 @@ text_line_reader::maybe_find_record_end(memory_span chunk, bool)
 bool
 text_line_reader::infer_line_ending(span<const char> chars)
 {
-    bool has_cr = false;
+    bool has_cr = has_cr_;
 
     for (char chr : chars) {
         if (chr == '\n') {
@@ -72,7 +74,12 @@ text_line_reader::infer_line_ending(span<const char> chars)
         has_cr = chr == '\r';
     }
 
-    return line_ending_ != line_ending::infer;
+    if (line_ending_ != line_ending::infer)
+        return true;
+
+    has_cr_ = has_cr;
+
+    return false;
 }
 
 }  // namespace fairseq2n::detail
diff --git a/native/src/fairseq2n/data/text/text_line_reader.h b/native/src/fairseq2n/data/text/text_line_reader.h
index 9691d38..ed92de3 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.h
+++ b/native/src/fairseq2n/data/text/text_line_reader.h
@@ -38,6 +38,7 @@ private:
 
 private:
     line_ending line_ending_;
+    bool has_cr_ = false;
 };
 
 }  // namespace fairseq2n::detail
-- 
2.43.0


From 2d547bb46449da04ce93dbb719f306b26d1cec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 117/127] fix: restore a text reader that stopped at the end of
 a block

A position recorded right after the last line of a block (e.g. the last line
of a file) was rejected as corrupt.
---
 native/src/fairseq2n/data/record_reader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/record_reader.cc b/native/src/fairseq2n/data/record_reader.cc
index 6769d79..b961a99 100644
--- a/native/src/fairseq2n/data/record_reader.cc
+++ b/native/src/fairseq2n/data/record_reader.cc
@@ -63,7 +63,9 @@ record_reader::reload_position(tape &t)
     if (chunk_offset_ > 0) {
         current_chunk_ = stream_->read_chunk();
 
-        if (chunk_offset_ >= current_chunk_.size())
+        // If the last record read ended at the chunk boundary, the offset equals
+        // the size of the chunk.
+        if (chunk_offset_ > current_chunk_.size())
             throw_<std::invalid_argument>(
                 "The tape is corrupt. The state of the record reader cannot be restored.");
 
-- 
2.43.0


From 3f19a0abfe69f06b5d02b14d5c35173c7aacce1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:04 +0000
Subject: [PATCH 118/127] fix: restore the position of a text reader that is
 already in use

Seeking a memory stream was relative to its unread part and seeking a file
stream did not clear its end of data mark, so loading the state of a pipeline
into one that had already read from its file failed.
---
 native/src/fairseq2n/data/file_stream.cc   | 6 ++----
 native/src/fairseq2n/data/memory_stream.cc | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/native/src/fairseq2n/data/file_stream.cc b/native/src/fairseq2n/data/file_stream.cc
index bc44719..e0f1d4b 100644
--- a/native/src/fairseq2n/data/file_stream.cc
+++ b/native/src/fairseq2n/data/file_stream.cc
@@ -65,6 +65,8 @@ void
 file_stream::seek(std::size_t offset)
 {
     seek(offset, /*from_current=*/false);
+
+    is_eod_ = false;
 }
 
 std::size_t
@@ -77,8 +79,6 @@ void
 file_stream::reset()
 {
     seek(0);
-
-    is_eod_ = false;
 }
 
 void
@@ -93,8 +93,6 @@ void
 file_stream::reload_position(tape &t)
 {
     seek(t.read<std::size_t>());
-
-    is_eod_ = false;
 }
 
 bool
diff --git a/native/src/fairseq2n/data/memory_stream.cc b/native/src/fairseq2n/data/memory_stream.cc
index 85f4690..bee483c 100644
--- a/native/src/fairseq2n/data/memory_stream.cc
+++ b/native/src/fairseq2n/data/memory_stream.cc
@@ -17,10 +17,10 @@ memory_stream::read_chunk()
 void
 memory_stream::seek(std::size_t offset)
 {
-    if (offset >= block_.size())
+    if (offset >= original_block_.size())
         block_ = {};
     else
-        block_ = block_.share_slice(offset);
+        block_ = original_block_.share_slice(offset);
 }
 
 std::size_t
@@ -46,8 +46,6 @@ memory_stream::record_position(tape &t) const
 void
 memory_stream::reload_position(tape &t)
 {
-    block_ = original_block_;
-
     seek(t.read<std::size_t>());
 }
 
-- 
2.43.0


From 264afcf3702ef6f4942f9d04b0acd603c8b3415a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 119/127] fix: name the columns of StrSplitter as given

The indices were sorted but the names that belong to them were not, so unsorted
indices put fields under the names of other columns.
---
 .../src/fairseq2n/data/text/string_splitter.cc  | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/native/src/fairseq2n/data/text/string_splitter.cc b/native/src/fairseq2n/data/text/string_splitter.cc
index 542bdd8..6bc445d 100644
--- a/native/src/fairseq2n/data/text/string_splitter.cc
+++ b/native/src/fairseq2n/data/text/string_splitter.cc
@@ -54,7 +54,22 @@ string_splitter::finalize_indices() {
         throw_<std::invalid_argument>(
             "`names` and `indices` must have the same length, but have the lengths {} and {} instead.", names_.size(), indices_.size());
 
-    std::sort(indices_.begin(), indices_.end());
+    // `names` correspond to `indices`, they have to be sorted together.
+    if (!names_.empty() && !exclude_) {
+        std::vector<std::pair<std::size_t, std::string>> columns{};
+
+        for (std::size_t i = 0; i < indices_.size(); ++i)
+            columns.emplace_back(indices_[i], std::move(names_[i]));
+
+        std::sort(columns.begin(), columns.end());
+
+        for (std::size_t i = 0; i < columns.size(); ++i) {
+            indices_[i] = columns[i].first;
+
+            names_[i] = std::move(columns[i].second);
+        }
+    } else
+        std::sort(indices_.begin(), indices_.end());
 }
 
 data
-- 
2.43.0


From bf1eae38b9a1f8122cef8c9c20f4c144dfc215b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:20 +0000
Subject: [PATCH 120/127] fix: reject file regions whose end overflows

A size specifier near the maximum made the end of the region wrap around and
pass the bounds check, which gave access to memory beyond the file.
---
 native/src/fairseq2n/data/file_mapper.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/native/src/fairseq2n/data/file_mapper.cc b/native/src/fairseq2n/data/file_mapper.cc
index 02f4e1b..a22302b 100644
--- a/native/src/fairseq2n/data/file_mapper.cc
+++ b/native/src/fairseq2n/data/file_mapper.cc
@@ -113,9 +113,10 @@ file_mapper::operator()(data &&d) const
 
     std::size_t size = *maybe_size;
 
-    if (std::size_t upper_boundary = offset + size; upper_boundary > block.size())
+    // Written this way since `offset + size` might overflow.
+    if (size > block.size() - offset)
         throw_<std::invalid_argument>(
-            "The end of the specified region within '{}' must be less than or equal to the file size ({} bytes), but is {} instead.", pathname, fmt::group_digits(block.size()), fmt::group_digits(upper_boundary));
+            "The end of the specified region within '{}' must be less than or equal to the file size ({} bytes), but is {} instead.", pathname, fmt::group_digits(block.size()), fmt::group_digits(offset + size));
 
     // Otherwise, return the memory map region specified by the offset and size.
     return pack_output(block.share_slice(offset, size));
-- 
2.43.0


From 3a667bbd21c89db902b7d91b1e83ac1b96b4b5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:38 +0000
Subject: [PATCH 121/127] fix: keep the inferred line ending of a text reader
 in its state

A restored reader inferred the line ending anew from the rest of the file, so
a file with mixed line endings could continue with other lines.
---
 .../fairseq2n/data/text/text_line_reader.cc   | 27 +++++++++++++++++++
 .../fairseq2n/data/text/text_line_reader.h    |  6 +++++
 2 files changed, 33 insertions(+)

diff --git a/native/src/fairseq2n/data/text/text_line_reader.cc b/native/src/fairseq2n/data/text/text_line_reader.cc
index 564e7d8..601159a 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.cc
+++ b/native/src/fairseq2n/data/text/text_line_reader.cc
@@ -6,11 +6,38 @@
 
 #include "fairseq2n/data/text/text_line_reader.h"
 
+#include <cstdint>
+#include <stdexcept>
+
 #include "fairseq2n/exception.h"
+#include "fairseq2n/data/tape.h"
 #include "fairseq2n/detail/exception.h"
 
 namespace fairseq2n::detail {
 
+void
+text_line_reader::record_position(tape &t) const
+{
+    // If inferred, the line ending depends on the first line of the file.
+    t.record(static_cast<std::int64_t>(line_ending_));
+
+    record_reader::record_position(t);
+}
+
+void
+text_line_reader::reload_position(tape &t)
+{
+    auto value = t.read<std::int64_t>();
+
+    if (value < 0 || value > static_cast<std::int64_t>(line_ending::crlf))
+        throw_<std::invalid_argument>(
+            "The tape is corrupt. The state of the text reader cannot be restored.");
+
+    line_ending_ = static_cast<line_ending>(value);
+
+    record_reader::reload_position(t);
+}
+
 std::optional<std::size_t>
 text_line_reader::maybe_find_record_end(memory_span chunk, bool first_chunk)
 {
diff --git a/native/src/fairseq2n/data/text/text_line_reader.h b/native/src/fairseq2n/data/text/text_line_reader.h
index ed92de3..4b6cbf4 100644
--- a/native/src/fairseq2n/data/text/text_line_reader.h
+++ b/native/src/fairseq2n/data/text/text_line_reader.h
@@ -29,6 +29,12 @@ public:
         return line_ending_;
     }
 
+    void
+    record_position(tape &t) const;
+
+    void
+    reload_position(tape &t);
+
 private:
     std::optional<std::size_t>
     maybe_find_record_end(memory_span chunk, bool first_chunk) override;
-- 
2.43.0


From ed329422604cec1b6815f5c47c4a8180b84f6a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 122/127] fix: compute the lengths of string columns

compute_rows_length passed `zero_copy_only` to the copy of the array instead of
to its conversion and always failed for strings.
---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 7851818..396013e 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -101,7 +101,7 @@ def compute_rows_length(
         )
     elif pa.types.is_string(type_):
         # TODO: use polars to compute chat length
-        length_col = pc.utf8_length(pa_array).to_numpy().copy(zero_copy_only=False)
+        length_col = pc.utf8_length(pa_array).to_numpy(zero_copy_only=False).copy()
     else:
         length_col = np.asarray(pa_array.to_pandas().apply(len), dtype=np.int32)
 
-- 
2.43.0


From 9a78335daed8e988ba6825b54afef76ee1de78a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 123/127] fix: do not overflow when batching by lengths of a
 narrow integer type

With a length column of type e.g. int8 the padded size of a batch wrapped around,
so batches exceeded the total length that was asked for.
---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 396013e..91f9526 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -106,6 +106,11 @@ def compute_rows_length(
         length_col = np.asarray(pa_array.to_pandas().apply(len), dtype=np.int32)
 
     length_col[np.isnan(length_col)] = 0
+
+    # Narrow integer types overflow once the lengths are summed or multiplied.
+    if np.issubdtype(length_col.dtype, np.integer):
+        length_col = length_col.astype(np.int64)
+
     return length_col
 
 
-- 
2.43.0


From b615780f3c6b639bee7c33ee6abd758f368c9f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 124/127] fix: ignore length columns that are None when
 splitting tables

TableBucketingConfig documents that None columns are ignored, which held only
when tables were concatenated.
---
 src/fairseq2/data/parquet/table_bucketing/primitives.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/table_bucketing/primitives.py b/src/fairseq2/data/parquet/table_bucketing/primitives.py
index 91f9526..5bc38b4 100644
--- a/src/fairseq2/data/parquet/table_bucketing/primitives.py
+++ b/src/fairseq2/data/parquet/table_bucketing/primitives.py
@@ -149,7 +149,11 @@ def build_batching_loop_over_one_table(
     if length_columns is not None and len(length_columns) > 0:
         length_col = reduce(
             multiple_length_reducer[len_reducer or "sum"],
-            (compute_rows_length(table[lc]) for lc in length_columns),
+            (
+                compute_rows_length(table[lc])
+                for lc in length_columns
+                if lc is not None
+            ),
         )
     else:
         if shuffle:
-- 
2.43.0


From 9f7ce62150212452db0430d1a61967e137a0408d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 125/127] fix: convert slices of fixed-size list columns

A sliced table (e.g. a batch) was converted to a tensor with the rows of the
entire underlying array.
---
 src/fairseq2/data/parquet/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fairseq2/data/parquet/utils.py b/src/fairseq2/data/parquet/utils.py
index 9901f61..f2157cb 100644
--- a/src/fairseq2/data/parquet/utils.py
+++ b/src/fairseq2/data/parquet/utils.py
@@ -98,7 +98,10 @@ def pyarrow_to_torch_tensor(
 
     if pa.types.is_fixed_size_list(arr_type):
         if pa.types.is_primitive(arr_type.value_type):
-            return torch.from_numpy(np.reshape(arr.values, (-1, arr_type.list_size)))
+            # Unlike `values`, `flatten()` takes the slice of `arr` into account.
+            values = arr.flatten().to_numpy(zero_copy_only=False)
+
+            return torch.from_numpy(np.reshape(values, (-1, arr_type.list_size)))
 
     if pa.types.is_struct(arr_type):
         return {
-- 
2.43.0


From 3c22efa36a8664c2a6ecc778ac90a079ea14d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 126/127] fix: keep rows with empty lists in list filters

Rows whose list is empty were dropped, but only if another row of the table did
not pass the filter.
---
 src/fairseq2/data/parquet/arrow_transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fairseq2/data/parquet/arrow_transform.py b/src/fairseq2/data/parquet/arrow_transform.py
index dac62f3..4f6e770 100644
--- a/src/fairseq2/data/parquet/arrow_transform.py
+++ b/src/fairseq2/data/parquet/arrow_transform.py
@@ -222,7 +222,9 @@ def filter_strings_by_length(
                 pl.col(column).list.eval(pl.col("").str.len_chars()).list.max()
                 <= max_len
             )
-        ).alias("mask")
+        )
+        .fill_null(True)  # no string, none out of range
+        .alias("mask")
     )["mask"].to_arrow()
 
     # If all rows pass, return the original table
@@ -281,7 +283,9 @@ def filter_list_by_range(
         (
             (pl.col(column).list.max() <= max_val)
             & (pl.col(column).list.min() >= min_val)
-        ).alias("mask")
+        )
+        .fill_null(True)  # no value, none out of range
+        .alias("mask")
     )["mask"].to_arrow()
 
     # If all rows pass, return the table unchanged
-- 
2.43.0


From 4f2ed39427467c197da0f3839a3a46df6519e3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:09 +0000
Subject: [PATCH 127/127] fix: resume the shuffled batches of a table

The seed with which a table is split was drawn anew when a pipeline was restored
in the middle of a table, so batches of the table were lost and repeated.
---
 .../data/parquet/table_bucketing/builder.py   | 26 ++++++++++++++-----
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/fairseq2/data/parquet/table_bucketing/builder.py b/src/fairseq2/data/parquet/table_bucketing/builder.py
index 39b8d72..e1aeae4 100644
--- a/src/fairseq2/data/parquet/table_bucketing/builder.py
+++ b/src/fairseq2/data/parquet/table_bucketing/builder.py
@@ -119,14 +119,28 @@ class TableBucketer:
             Path(cache_dir).mkdir(parents=True, exist_ok=True)
             pipeline = pipeline.map(partial(table_to_mmap_table, cache_dir=cache_dir))
 
-        pipeline = pipeline.prefetch(self.config.nb_prefetch)
-        # do some mini-batch dispatch
-        if (
+        mini_batches = (
             self.config.total_batch_length is not None
             or self.config.batch_size is not None
-        ):
+        )
+
+        if mini_batches:
+            # The seed is drawn once per table and becomes part of the state of the
+            # pipeline so that a restored pipeline splits the table the same way.
+            def add_seed(table: pa.Table) -> tuple[pa.Table, int]:
+                return table, int(random_state.randint(0, 2**32))
+
+            pipeline = pipeline.map(add_seed)
+
+        pipeline = pipeline.prefetch(self.config.nb_prefetch)
+        # do some mini-batch dispatch
+        if mini_batches:
+
+            def mini_batch_iterator(
+                table_and_seed: tuple[pa.Table, int],
+            ) -> DataPipeline:
+                table, seed = table_and_seed
 
-            def mini_batch_iterator(table: pa.Table) -> DataPipeline:
                 return build_batching_loop_over_one_table(
                     table=table,
                     order_by_length=self.config.order_by_length,
@@ -134,7 +148,7 @@ class TableBucketer:
                     batch_size=self.config.batch_size,
                     max_tokens=self.config.total_batch_length,
                     shuffle=self.config.shuffle,
-                    seed=random_state.randint(0, 2**32),
+                    seed=seed,
                     len_reducer=self.config.length_reducer,
                     drop_long_sample=self.config.drop_long_seq,
                     num_parallel_calls=self.config.num_parallel_calls,
-- 
2.43.0

