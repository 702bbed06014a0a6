From 244c2b85acfdf7357042315b180d2134f7c5a816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:38 +0000
Subject: [PATCH 01/94] fix: evaluate no longer inherits the fit quota of a
 previous learn

VectorCore.evaluate after learn(n_episodes_per_fit=k) kept the stale quota, stopped
activating environments after k episodes and ran past the end of the dataset.
---
 mushroom_rl/core/_impl/core_logic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/_impl/core_logic.py b/mushroom_rl/core/_impl/core_logic.py
index db187e3..74a442f 100644
--- a/mushroom_rl/core/_impl/core_logic.py
+++ b/mushroom_rl/core/_impl/core_logic.py
@@ -32,6 +32,9 @@ class CoreLogic(object):
             self.fit_required = self._fit_episodes_condition
 
     def initialize_evaluate(self):
+        self._n_steps_per_fit = None
+        self._n_episodes_per_fit = None
+
         self.fit_required = lambda: False
 
     def initialize_run(self, n_steps, n_episodes, initial_states, quiet):
-- 
2.43.0


From 4061458440798eb949bd5ad50261e6f7727d2ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:38 +0000
Subject: [PATCH 02/94] fix: VectorCore applies core preprocessors to the reset
 states only once

_reset applied the preprocessors to the (states, episode_info) tuple returned by
reset_all, so any core preprocessor crashed the vectorized core.
---
 mushroom_rl/core/vectorized_core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 58fdf5d..8e89cf6 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -183,7 +183,7 @@ class VectorCore(object):
             
         initial_state = self._core_logic.get_initial_state(initial_states)
 
-        state, episode_info = self._preprocess(self.env.reset_all(reset_mask, initial_state))
+        state, episode_info = self.env.reset_all(reset_mask, initial_state)
 
         policy_state, current_theta = self.agent.episode_start_vectorized(state, episode_info, reset_mask)
         if self._policy_state is None or policy_state is None:
-- 
2.43.0


From 125245a776ee135b0fb98e19d9356e7f0acb6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:30:38 +0000
Subject: [PATCH 03/94] fix: Dataset.from_array keeps the policy states it is
 given

The policy states were validated but never stored, so flattening a vectorized dataset
collected with a stateful policy silently dropped them.
---
 mushroom_rl/core/_impl/list_dataset.py | 2 +-
 mushroom_rl/core/dataset.py            | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index d63d030..bdc3e3a 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -51,7 +51,7 @@ class ListDataset(Serializable):
             for s, a, r, ss, ab, last, ps, pss in zip(states, actions, rewards, next_states,
                                                       absorbings.astype(bool), lasts.astype(bool),
                                                       policy_states, policy_next_states):
-                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps.item(), pss.item())
+                dataset.append(s, a, r.item(), ss, ab.item(), last.item(), ps, pss)
         else:
             for s, a, r, ss, ab, last in zip(states, actions, rewards, next_states,
                                              absorbings.astype(bool), lasts.astype(bool)):
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index c11fd03..e001673 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -212,11 +212,14 @@ class Dataset(Serializable):
 
         dataset._array_backend = ArrayBackend.get_array_backend(backend)
         if backend == 'numpy':
-            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = NumpyDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         elif backend == 'torch':
-            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = TorchDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                    policy_state, policy_next_state)
         else:
-            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts)
+            dataset._data = ListDataset.from_array(states, actions, rewards, next_states, absorbings, lasts,
+                                                   policy_state, policy_next_state)
 
         state_shape = states.shape[1:]
         action_shape = actions.shape[1:]
-- 
2.43.0


From e8eb3828bd33d1b101e6171543e7badfcefcb6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 04/94] fix: Dataset indexing with negative integers addresses
 the stored samples

---
 mushroom_rl/core/dataset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index e001673..2b12149 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -269,8 +269,8 @@ class Dataset(Serializable):
     def __getitem__(self, index):
         if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
             return self.get_view(index)
-        elif isinstance(index, int) and index < len(self._data):
-            return self._data[index]
+        elif isinstance(index, int) and -len(self._data) <= index < len(self._data):
+            return self._data[index % len(self._data)]
         else:
             raise IndexError
 
-- 
2.43.0


From 15141a35733ec2b22fe6bd6a1a2b233baea8c5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 05/94] fix: dataset views index the stored policy states and
 mask, not the raw buffer

---
 mushroom_rl/core/_impl/numpy_dataset.py | 12 ++++++------
 mushroom_rl/core/_impl/torch_dataset.py | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 4e07b2f..8399610 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -172,12 +172,12 @@ class NumpyDataset(Serializable):
                 view._policy_states = np.empty_like(self._policy_states)
                 view._policy_next_states = np.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = np.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class NumpyDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 3bc9066..33c1bcb 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -172,12 +172,12 @@ class TorchDataset(Serializable):
                 view._policy_states = torch.empty_like(self._policy_states)
                 view._policy_next_states = torch.empty_like(self._policy_next_states)
 
-                view._policy_states[:new_len] = self._policy_states[index, ...]
-                view._policy_next_states[:new_len] = self._policy_next_states[index, ...]
+                view._policy_states[:new_len] = self.policy_state[index, ...]
+                view._policy_next_states[:new_len] = self.policy_next_state[index, ...]
 
             if self._mask is not None:
                 view._mask = torch.empty_like(self._mask)
-                view._mask[:new_len] = self._mask[index, ...]
+                view._mask[:new_len] = self.mask[index, ...]
         else:
             view._states = self.state[index, ...]
             view._actions = self.action[index, ...]
@@ -188,11 +188,11 @@ class TorchDataset(Serializable):
             view._len = view._states.shape[0]
 
             if self.is_stateful:
-                view._policy_states = self._policy_states[index, ...]
-                view._policy_next_states = self._policy_next_states[index, ...]
+                view._policy_states = self.policy_state[index, ...]
+                view._policy_next_states = self.policy_next_state[index, ...]
 
             if self._mask is not None:
-                view._mask = self._mask[index, ...]
+                view._mask = self.mask[index, ...]
 
         return view
 
-- 
2.43.0


From f810f20746450cef35a43f3e5a354cb48efe69f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 06/94] fix: concatenating to an empty dataset does not mark
 the final sample as last

---
 mushroom_rl/core/_impl/numpy_dataset.py | 3 ++-
 mushroom_rl/core/_impl/torch_dataset.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/numpy_dataset.py b/mushroom_rl/core/_impl/numpy_dataset.py
index 8399610..8e4a73a 100644
--- a/mushroom_rl/core/_impl/numpy_dataset.py
+++ b/mushroom_rl/core/_impl/numpy_dataset.py
@@ -209,7 +209,8 @@ class NumpyDataset(Serializable):
         result._next_states = np.concatenate((self.next_state, other.next_state))
         result._absorbing = np.concatenate((self.absorbing, other.absorbing))
         result._last = np.concatenate((self.last, other.last))
-        result._last[len(self)-1] = True
+        if len(self) > 0:
+            result._last[len(self)-1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index 33c1bcb..fcbf676 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -209,7 +209,8 @@ class TorchDataset(Serializable):
         result._next_states = torch.concatenate((self.next_state, other.next_state))
         result._absorbing = torch.concatenate((self.absorbing, other.absorbing))
         result._last = torch.concatenate((self.last, other.last))
-        result._last[len(self) - 1] = True
+        if len(self) > 0:
+            result._last[len(self) - 1] = True
         result._len = len(self) + len(other)
 
         if self.is_stateful:
-- 
2.43.0


From 6508428f42ac16874bb5eb6bdbd050e0ee09bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 07/94] fix: views of a dataset can be concatenated

---
 mushroom_rl/core/dataset.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 2b12149..879a27c 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -258,6 +258,7 @@ class Dataset(Serializable):
 
         dataset._info = self._info.get_view(index, copy)
         dataset._episode_info = self._episode_info.get_view(index, copy)
+        dataset._theta_list = list()
         dataset._data = self._data.get_view(index, copy)
 
         return dataset
-- 
2.43.0


From 66ef1556e91107f4f54db089a35d5641191ea060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 08/94] fix: ListDataset concatenation, views, clear and policy
 states

---
 mushroom_rl/core/_impl/list_dataset.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/mushroom_rl/core/_impl/list_dataset.py b/mushroom_rl/core/_impl/list_dataset.py
index bdc3e3a..459767f 100644
--- a/mushroom_rl/core/_impl/list_dataset.py
+++ b/mushroom_rl/core/_impl/list_dataset.py
@@ -73,18 +73,24 @@ class ListDataset(Serializable):
 
     def clear(self):
         self._dataset = list()
+        self._policy_dataset = list()
+
+        if self._mask is not None:
+            self._mask = list()
 
     def get_view(self, index, copy=False):
         view = self.create_new_instance(self)
 
         if isinstance(index, (int, slice)):
             view._dataset = self._dataset[index]
+            view._policy_dataset = self._policy_dataset[index]
         else:
             view._dataset = [self._dataset[i] for i in index]
+            view._policy_dataset = [self._policy_dataset[i] for i in index] if self._is_stateful else list()
 
         if self._mask is not None:
             if isinstance(index, (int, slice)):
-                view._mask = self._mask[index, ...]
+                view._mask = self._mask[index]
             else:
                 view._mask = [self._mask[i] for i in index]
 
@@ -98,10 +104,9 @@ class ListDataset(Serializable):
 
     def __add__(self, other):
         result = self.create_new_instance(self)
-        last_step = self._dataset[-1]
-        modified_last_step = last_step[:-1] + (True,)
-        result._dataset[-1] = modified_last_step
         result._dataset = self._dataset + other._dataset
+        if len(self) > 0:
+            result._dataset[len(self) - 1] = self._dataset[-1][:-1] + (True,)
         result._policy_dataset = self._policy_dataset + other._policy_dataset
 
         return result
@@ -132,11 +137,11 @@ class ListDataset(Serializable):
 
     @property
     def policy_state(self):
-        return [step[6] for step in self._dataset]
+        return [step[0] for step in self._policy_dataset]
 
     @property
     def policy_next_state(self):
-        return [step[7] for step in self._dataset]
+        return [step[1] for step in self._policy_dataset]
 
     @property
     def is_stateful(self):
@@ -154,9 +159,9 @@ class ListDataset(Serializable):
     def n_episodes(self):
         n_episodes = 0
         for sample in self._dataset:
-            if sample[5] is True:
+            if sample[5]:
                 n_episodes += 1
-        if self._dataset[-1][5] is not True:
+        if not self._dataset[-1][5]:
             n_episodes += 1
 
         return n_episodes
-- 
2.43.0


From 495d212a6545caf5bd57cad73d08301f37df5aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:35:56 +0000
Subject: [PATCH 09/94] fix: TorchBackend.from_list accepts a single non-scalar
 tensor

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 706357c..900bab2 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -396,7 +396,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def from_list(array):
-        if len(array) > 1 and isinstance(array[0], torch.Tensor):
+        if len(array) > 0 and isinstance(array[0], torch.Tensor):
             return torch.stack(array)
         else:
             return torch.tensor(array)
-- 
2.43.0


From 8cbf3a13f11325e5977ad969153030a394ee6cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:36:28 +0000
Subject: [PATCH 10/94] fix: step info of a list dataset can be parsed more
 than once

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 1b1faf7..c8c7c7a 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -52,6 +52,9 @@ class ExtraInfo(Serializable, UserDict):
         if to is None:
             to = self._array_backend.get_backend_name()
 
+        if to == 'list':
+            to = 'numpy'
+
         #create key mapping
         for step_data in self._storage:
             if isinstance(step_data, dict):
-- 
2.43.0


From b74c46a9d86e872ab7e072386f42ae0707be7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 11/94] fix: concatenated step info keeps the order of the
 samples

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index c8c7c7a..77f67ca 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -138,6 +138,9 @@ class ExtraInfo(Serializable, UserDict):
         """
         assert(self._n_envs == other.n_envs)
 
+        if other._structured_storage:
+            self.parse()
+
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
         info._storage = self._storage + other._storage
 
-- 
2.43.0


From 986219f810bf2b3c471bd238c0ea76c226c20da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 12/94] fix: step info keys that appear after a parse are
 filled with none for earlier steps

---
 mushroom_rl/core/extra_info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 77f67ca..297f1bd 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -81,7 +81,7 @@ class ExtraInfo(Serializable, UserDict):
         if self._structured_storage:
             for key in output:
                 index = length_structured_storage
-                value = self._convert(self._structured_storage[key], to)
+                value = self._convert(self._structured_storage.get(key), to)
                 output[key][:index] = value
         
         #fill output with elements stored in storage
-- 
2.43.0


From 07a2bc882ebb0662ce53f3a124f77b4c0bd8693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 13/94] fix: ExtraInfo.copy keeps the already parsed
 information

---
 mushroom_rl/core/extra_info.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 297f1bd..ec0e946 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -216,8 +216,9 @@ class ExtraInfo(Serializable, UserDict):
         info._storage = self._storage.copy()
         info._key_mapping = self._key_mapping.copy()
         info._shape_mapping = self._shape_mapping.copy()
+        info._structured_storage = self._structured_storage.copy()
         info.data = self.data.copy()
-            
+
         return info
 
     def get_view(self, index, copy=False):
-- 
2.43.0


From 5c1081ce415a303ad1708e80aa98b424070dc027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:00 +0000
Subject: [PATCH 14/94] fix: ExtraInfo saves the attributes it needs after
 loading

---
 mushroom_rl/core/extra_info.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index ec0e946..8c35974 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -259,6 +259,9 @@ class ExtraInfo(Serializable, UserDict):
 
     def _add_all_save_attr(self):
         self._add_save_attr(
+            _n_envs='primitive',
+            _array_backend='primitive',
+            _device='primitive',
             data='primitive',
             _storage='primitive',
             _structured_storage='primitive',
-- 
2.43.0


From c2496500f01336ba14d41dcdef9f5fd91c93f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:49 +0000
Subject: [PATCH 15/94] fix: array backends return the result of the three
 argument where

---
 mushroom_rl/core/array_backend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 900bab2..3e525c4 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -216,7 +216,7 @@ class NumpyBackend(ArrayBackend):
         if x is None:
             return np.where(cond)
         else:
-            np.where(cond, x, y)
+            return np.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
@@ -345,7 +345,7 @@ class TorchBackend(ArrayBackend):
         if x is None:
             return torch.where(cond)
         else:
-            torch.where(cond, x, y)
+            return torch.where(cond, x, y)
 
     @staticmethod
     def squeeze(array, dim=None):
-- 
2.43.0


From b5987a9d2f940d23ebf1fbfd726209b94347f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:49 +0000
Subject: [PATCH 16/94] fix: the torch median of an even number of scores
 agrees with numpy

---
 mushroom_rl/core/array_backend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/array_backend.py b/mushroom_rl/core/array_backend.py
index 3e525c4..6f66862 100644
--- a/mushroom_rl/core/array_backend.py
+++ b/mushroom_rl/core/array_backend.py
@@ -388,7 +388,7 @@ class TorchBackend(ArrayBackend):
 
     @staticmethod
     def median(array):
-        return array.median()
+        return array.quantile(0.5)
 
     @staticmethod
     def sqrt(array):
-- 
2.43.0


From dda28752a1f2754a15bb887433c76cebd3742296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 17/94] fix: replay memories do not overwrite the rewards of
 the dataset they are given

---
 mushroom_rl/rl_utils/replay_memory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 8b5fb03..16a66b4 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -62,6 +62,8 @@ class ReplayMemory(Serializable):
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
 
+        reward = self._dataset.array_backend.copy(reward)
+
         if self._dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
         else:
@@ -312,6 +314,8 @@ class SumTree(Serializable):
 
         state, action, reward, next_state, absorbing, last = dataset.parse(to=self._agent_info.backend)
 
+        reward = self.dataset.array_backend.copy(reward)
+
         if self.dataset.is_stateful:
             policy_state, policy_next_state = dataset.parse_policy_state(to=self._agent_info.backend)
         else:
-- 
2.43.0


From 4cb1f9fea5f16e2ca928116f2f917eaa5696648f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 18/94] fix: prioritized sampling stays proportional to the
 priorities when subtrees tie

---
 mushroom_rl/rl_utils/replay_memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 16a66b4..34a316b 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -429,6 +429,9 @@ class SumTree(Serializable):
             return idx
 
         if self._tree[left] == self._tree[right]:
+            if s > self._tree[left]:
+                s = s - self._tree[left]
+
             return self._retrieve(s, np.random.choice([left, right]))
 
         if s <= self._tree[left]:
-- 
2.43.0


From b72f1257b4030bc301cd1ecc817d09783dd103f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 19/94] fix: a sum tree loaded without its samples is empty

---
 mushroom_rl/rl_utils/replay_memory.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 34a316b..5754e82 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -471,6 +471,9 @@ class SumTree(Serializable):
         if self.dataset is None:
             dataset_info = DatasetInfo.create_replay_memory_info(self._mdp_info, self._agent_info)
             self.dataset = Dataset(dataset_info, n_steps=self._max_size)
+            self._tree = np.zeros(2 * self._max_size - 1)
+            self._idx = 0
+            self._full = False
 
 
 class PrioritizedReplayMemory(Serializable):
-- 
2.43.0


From dfacdb350e2e516976d67f1f65c3effcdefdf431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 20/94] fix: running standardization of a batch uses the
 variance of its elements

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index 3df64cd..a2d375e 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -62,7 +62,7 @@ class RunningStandardization(Serializable):
         self._n += batch_size
         alpha = max(batch_size / self._n, self._alpha)
         new_m = (1 - alpha) * self._m + alpha * value.mean(0)
-        new_s = self._s + (value.mean(0) - self._m) * (value.mean(0) - new_m)
+        new_s = self._s + ((value - self._m) * (value - new_m)).sum(0)
         self._m, self._s = new_m, new_s
 
     @property
-- 
2.43.0


From 63e1f006bd1f14ca6b705c726c379c6cf595f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 21/94] fix: MinMaxPreprocessor does not overwrite the
 observation it is given

---
 mushroom_rl/rl_utils/preprocessors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 921b2e4..2107304 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -128,10 +128,12 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         )
 
     def __call__(self, obs):
-        orig_obs = self._array_backend.copy(obs)
+        orig_obs = obs
 
         if self._run_norm_obs:
             obs = super(MinMaxPreprocessor, self).__call__(obs)
+        else:
+            obs = self._array_backend.copy(obs)
 
         obs[self._obs_mask] = \
             ((orig_obs - self._obs_mean) / self._obs_delta)[self._obs_mask]
-- 
2.43.0


From 12d8c820b5691fc94f77e781417ea407eebdc131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 22/94] fix: AdamOptimizer saves eps

---
 mushroom_rl/rl_utils/optimizers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index c59c7f3..47335f0 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -147,6 +147,7 @@ class AdamOptimizer(Optimizer):
                             _v='numpy',
                             _beta1='primitive',
                             _beta2='primitive',
+                            _eps='primitive',
                             _t='primitive'
                             )
 
-- 
2.43.0


From 7863589c2ea84ca470bc88c6a2220ed44bcf944e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 23/94] fix: optimizers do not change the sign of the gradient
 they are given

---
 mushroom_rl/rl_utils/optimizers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/optimizers.py b/mushroom_rl/rl_utils/optimizers.py
index 47335f0..9dd2d96 100644
--- a/mushroom_rl/rl_utils/optimizers.py
+++ b/mushroom_rl/rl_utils/optimizers.py
@@ -75,7 +75,7 @@ class AdaptiveOptimizer(Optimizer):
             grads = args[1]
         lr = self.get_value(*args, **kwargs)
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + lr * grads
 
     def get_value(self, *args, **kwargs):
@@ -114,7 +114,7 @@ class SGDOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
         return params + self._lr() * grads
 
 
@@ -153,7 +153,7 @@ class AdamOptimizer(Optimizer):
 
     def __call__(self, params, grads):
         if not self._maximize:
-            grads *= -1
+            grads = -grads
 
         if self._m is None:
             self._t = 0
-- 
2.43.0


From 8bfec495de9039c26b2308a8d8a8d72231c4783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 24/94] fix: variance parameters keep one value per table entry

---
 mushroom_rl/rl_utils/variance_parameters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index d1186c1..347ee03 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -27,7 +27,7 @@ class VarianceParameter(Parameter):
         self._x2 = Table(size)
         self._parameter_value = Table(size)
 
-        super().__init__(value, min_value, size)
+        super().__init__(value, min_value, size=size)
 
         self._add_save_attr(
             _exponential='primitive',
@@ -142,7 +142,7 @@ class WindowedVarianceParameter(Parameter):
             _parameter_value='mushroom',
         )
 
-        super(WindowedVarianceParameter, self).__init__(value, min_value, size)
+        super(WindowedVarianceParameter, self).__init__(value, min_value, size=size)
 
     def _compute(self, *idx, **kwargs):
         return self._parameter_value[idx]
-- 
2.43.0


From 4eaf7af6c198a7abc1f4bcde74748933002a3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 25/94] fix: torch datasets save policy states, mask and device

---
 mushroom_rl/core/_impl/torch_dataset.py | 5 +++--
 mushroom_rl/core/dataset.py             | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/_impl/torch_dataset.py b/mushroom_rl/core/_impl/torch_dataset.py
index fcbf676..35d57e1 100644
--- a/mushroom_rl/core/_impl/torch_dataset.py
+++ b/mushroom_rl/core/_impl/torch_dataset.py
@@ -283,7 +283,8 @@ class TorchDataset(Serializable):
             _next_states='torch',
             _absorbing='torch',
             _last='torch',
-            _policy_states='numpy',
-            _policy_next_states='numpy',
+            _policy_states='torch',
+            _policy_next_states='torch',
+            _mask='torch',
             _len='primitive'
         )
\ No newline at end of file
diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index 879a27c..b0177df 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -31,6 +31,7 @@ class DatasetInfo(Serializable):
 
         self._add_save_attr(
             backend='primitive',
+            device='primitive',
             gamma='primitive',
             horizon='primitive',
             state_shape='primitive',
-- 
2.43.0


From c4189e845ac8510ddbb78a647cf312d9c3c899a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:43 +0000
Subject: [PATCH 26/94] fix: load restores the optional mushroom attributes of
 a full save

---
 mushroom_rl/core/serialization.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index fc0a2a3..8fade01 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -116,16 +116,14 @@ class Serializable(object):
             setattr(loaded_object, '_save_attributes', save_attributes)
 
             for att, method in save_attributes.items():
-                mandatory = not method.endswith('!')
-                method = method[:-1] if not mandatory else method
+                method = method[:-1] if method.endswith('!') else method
                 file_name = Serializable._append_folder(
                     folder, '{}.{}'.format(att, method)
                 )
 
                 if method == 'primitive' and att in primitive_dictionary:
                     setattr(loaded_object, att, primitive_dictionary[att])
-                elif file_name in zip_file.namelist() or \
-                        (method == 'mushroom' and mandatory):
+                elif file_name in zip_file.namelist() or method == 'mushroom':
                     load_method = getattr(cls, '_load_{}'.format(method))
                     if load_method is None:
                         raise NotImplementedError('Method _load_{} is not'
-- 
2.43.0


From 0dab90a156e5fd7aebefe600f3dab68b47e2a63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:32 +0000
Subject: [PATCH 27/94] fix: sequences sampled from a full replay memory never
 join the newest and the oldest samples

---
 mushroom_rl/rl_utils/replay_memory.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 5754e82..95ae480 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -225,6 +225,10 @@ class SequenceReplayMemory(ReplayMemory):
                 begin_seq = np.maximum(i - self._truncation_length + 1, 0)
                 end_seq = i + 1
 
+                # the oldest sample in the memory is not the successor of the newest one
+                if self._full and begin_seq < self._idx <= i:
+                    begin_seq = self._idx
+
                 # the sequence can contain more than one trajectory, check to only include one
                 lasts_absorbing = self._dataset.last[begin_seq: i]
                 begin_traj = self._backend.where(lasts_absorbing > 0)
@@ -234,7 +238,8 @@ class SequenceReplayMemory(ReplayMemory):
                     begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # determine prev action
-                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1]:
+                if more_than_one_traj or begin_seq == 0 or self._dataset.last[begin_seq-1] \
+                        or (self._full and begin_seq == self._idx):
                     prev_actions = self._dataset.action[begin_seq:end_seq - 1]
                     init_prev_action = self._backend.zeros(1, *self._action_space_shape)
                     if len(prev_actions) == 0:
-- 
2.43.0


From f249a71ec2d931a5d31f24ccf8d6b30d9b61cd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:48:32 +0000
Subject: [PATCH 28/94] fix: sequence replay memory works for stateless
 policies

---
 mushroom_rl/rl_utils/replay_memory.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/rl_utils/replay_memory.py b/mushroom_rl/rl_utils/replay_memory.py
index 95ae480..718a340 100644
--- a/mushroom_rl/rl_utils/replay_memory.py
+++ b/mushroom_rl/rl_utils/replay_memory.py
@@ -211,8 +211,9 @@ class SequenceReplayMemory(ReplayMemory):
                                  dtype=self._mdp_info.observation_space.data_type)
         ab = self._backend.zeros(n_samples, 1, dtype=int)
         last = self._backend.zeros(n_samples, dtype=int)
-        ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
-        nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+        if self._dataset.is_stateful:
+            ps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
+            nps = self._backend.zeros(n_samples, self._truncation_length, *self._agent_info.policy_state_shape)
         pa = self._backend.zeros(n_samples, self._truncation_length, *self._mdp_info.action_space.shape,
                                  dtype=self._mdp_info.action_space.data_type)
         lengths = list()
@@ -253,8 +254,9 @@ class SequenceReplayMemory(ReplayMemory):
                 s[num, :end_seq-begin_seq] = self._dataset.state[begin_seq:end_seq]
                 ss[num, :end_seq-begin_seq] = self._dataset.next_state[begin_seq:end_seq]
                 a[num, :end_seq-begin_seq] = self._dataset.action[begin_seq:end_seq]
-                ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
-                nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
+                if self._dataset.is_stateful:
+                    ps[num, :end_seq-begin_seq] = self._dataset.policy_state[begin_seq:end_seq]
+                    nps[num, :end_seq-begin_seq] = self._dataset.policy_next_state[begin_seq:end_seq]
                 pa[num, :end_seq-begin_seq] = prev_actions
                 r[num] = self._dataset.reward[i]
                 ab[num] = self._dataset.absorbing[i]
-- 
2.43.0


From ddc907beca7f135b864cab21920551febf715696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:28 +0000
Subject: [PATCH 29/94] fix: Dataset indexing accepts numpy integers

---
 mushroom_rl/core/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/dataset.py b/mushroom_rl/core/dataset.py
index b0177df..40e7dd8 100644
--- a/mushroom_rl/core/dataset.py
+++ b/mushroom_rl/core/dataset.py
@@ -271,7 +271,7 @@ class Dataset(Serializable):
     def __getitem__(self, index):
         if isinstance(index, (slice, np.ndarray)) or isinstance(index, (slice, torch.Tensor)):
             return self.get_view(index)
-        elif isinstance(index, int) and -len(self._data) <= index < len(self._data):
+        elif isinstance(index, (int, np.integer)) and -len(self._data) <= index < len(self._data):
             return self._data[index % len(self._data)]
         else:
             raise IndexError
-- 
2.43.0


From 6cba5126b0f49b25e9bdfd4644fbe1d9d25fa1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:03 +0000
Subject: [PATCH 30/94] fix: windowed variance parameters work as scalar
 parameters

---
 mushroom_rl/rl_utils/variance_parameters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/rl_utils/variance_parameters.py b/mushroom_rl/rl_utils/variance_parameters.py
index 347ee03..7147ed0 100644
--- a/mushroom_rl/rl_utils/variance_parameters.py
+++ b/mushroom_rl/rl_utils/variance_parameters.py
@@ -162,6 +162,9 @@ class WindowedVarianceParameter(Parameter):
         x = kwargs['target']
         factor = kwargs.get('factor', 1.)
 
+        if len(idx) == 0:
+            idx = (0,)
+
         # compute parameter value
         n = self._n_updates[idx]
         self._n_updates[idx] += 1
-- 
2.43.0


From ad012508b78d7f46cabf3739af1c6b87de13e060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:25 +0000
Subject: [PATCH 31/94] fix: RunningAveragedWindow works with the torch backend

---
 mushroom_rl/rl_utils/running_stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/rl_utils/running_stats.py b/mushroom_rl/rl_utils/running_stats.py
index a2d375e..5f74b28 100644
--- a/mushroom_rl/rl_utils/running_stats.py
+++ b/mushroom_rl/rl_utils/running_stats.py
@@ -212,4 +212,4 @@ class RunningAveragedWindow(Serializable):
             The estimated mean value.
 
         """
-        return self._array_backend.convert(self._avg_buffer).mean(0)
+        return self._array_backend.from_list(list(self._avg_buffer)).mean(0)
-- 
2.43.0


From f4d16dcbd9eed6deb89f9216536b7525fe78275a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:52 +0000
Subject: [PATCH 32/94] fix: MinMaxPreprocessor accepts observations with a
 single bounded component

---
 mushroom_rl/rl_utils/preprocessors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index 2107304..d7ce304 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -109,10 +109,10 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
 
         self._obs_mask = self._array_backend.concatenate(self._obs_mask)
 
-        assert self._obs_mask.sum() > 0, "All observations have unlimited/extremely large range, " \
-                                         "you should use StandardizationPreprocessor instead."
+        assert len(self._obs_mask) > 0, "All observations have unlimited/extremely large range, " \
+                                        "you should use StandardizationPreprocessor instead."
 
-        self._run_norm_obs = len(self._array_backend.squeeze(self._obs_mask)) != obs_low.shape[0]
+        self._run_norm_obs = len(self._obs_mask) != obs_low.shape[0]
 
         self._obs_mean = self._array_backend.zeros_like(obs_low)
         self._obs_delta = self._array_backend.ones_like(obs_low)
-- 
2.43.0


From cb04edf39354b95d7a08455b8523097c257181c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 33/94] fix: MinMaxPreprocessor with the torch backend accepts
 double precision bounds

---
 mushroom_rl/rl_utils/preprocessors.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index d7ce304..a36b8a5 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -101,8 +101,12 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         """
         super(MinMaxPreprocessor, self).__init__(mdp_info, backend, clip_obs, alpha)
 
-        obs_low, obs_high = (self._array_backend.convert(mdp_info.observation_space.low.copy(),
-                                                         mdp_info.observation_space.high.copy()))
+        space_low, space_high = (self._array_backend.convert(mdp_info.observation_space.low.copy(),
+                                                             mdp_info.observation_space.high.copy()))
+        obs_low = self._array_backend.zeros_like(space_low)
+        obs_high = self._array_backend.zeros_like(space_high)
+        obs_low[:] = space_low
+        obs_high[:] = space_high
 
         self._obs_mask = self._array_backend.where((self._array_backend.abs(obs_low) < 1e20) &
                                                    (self._array_backend.abs(obs_high) < 1e20))
-- 
2.43.0


From 35f1cc313874d87af16f5041258ef31412c05bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:00 +0000
Subject: [PATCH 34/94] fix: MinMaxPreprocessor saves the arrays of its own
 backend

---
 mushroom_rl/rl_utils/preprocessors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/rl_utils/preprocessors.py b/mushroom_rl/rl_utils/preprocessors.py
index a36b8a5..0f185e3 100644
--- a/mushroom_rl/rl_utils/preprocessors.py
+++ b/mushroom_rl/rl_utils/preprocessors.py
@@ -126,9 +126,9 @@ class MinMaxPreprocessor(StandardizationPreprocessor):
         self._add_save_attr(
             _array_backend='pickle',
             _run_norm_obs='primitive',
-            _obs_mask='numpy',
-            _obs_mean='numpy',
-            _obs_delta='numpy'
+            _obs_mask='primitive',
+            _obs_mean='primitive',
+            _obs_delta='primitive'
         )
 
     def __call__(self, obs):
-- 
2.43.0


From c79ed044b3edf267639f93e1f36070552b902a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:51 +0000
Subject: [PATCH 35/94] fix: DuelingDQN works with avg_advantage=False

---
 mushroom_rl/algorithms/value/dqn/dueling_dqn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
index 35d7880..d5120cb 100644
--- a/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/dueling_dqn.py
@@ -36,7 +36,7 @@ class DuelingNetwork(nn.Module):
         if self._avg_advantage:
             q -= advantage.mean(1).reshape(-1, 1)
         else:
-            q -= advantage.max(1).reshape(-1, 1)
+            q -= advantage.max(1).values.reshape(-1, 1)
 
         if action is None:
             return q
-- 
2.43.0


From 0841c2a69186777f26d1dbd9cafb08e3f3bbbc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:59 +0000
Subject: [PATCH 36/94] fix: the quantile loss does not depend on the last
 QuantileDQN that was built

---
 mushroom_rl/algorithms/value/dqn/quantile_dqn.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
index 7a96e61..0f6b8d3 100644
--- a/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/quantile_dqn.py
@@ -11,7 +11,9 @@ from mushroom_rl.approximators.parametric import NumpyTorchApproximator
 
 
 def quantile_huber_loss(input, target):
-    tau = QuantileDQN.tau_hat.repeat(input.shape[0], 1)
+    n_quantiles = input.shape[-1]
+    tau_hat = (torch.arange(n_quantiles, device=input.device) + .5) / n_quantiles
+    tau = tau_hat.repeat(input.shape[0], 1)
 
     target = target.t().unsqueeze(-1).repeat(1, 1, tau.shape[-1])
     input = input.repeat(tau.shape[-1], 1, 1)
@@ -88,9 +90,6 @@ class QuantileDQN(AbstractDQN):
 
         self._n_quantiles = n_quantiles
 
-        tau = torch.arange(n_quantiles + 1) / n_quantiles
-        QuantileDQN.tau_hat = torch.Tensor([(tau[i-1] + tau[i]) / 2 for i in range(1, len(tau))])
-
         self._add_save_attr(
             _n_quantiles='primitive'
         )
-- 
2.43.0


From 442a60ecc03f90a1079c959c2589dc7c55bd8982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:26 +0000
Subject: [PATCH 37/94] fix: saved torch modules and optimizers can be loaded
 with recent torch versions

---
 mushroom_rl/core/serialization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/serialization.py b/mushroom_rl/core/serialization.py
index 8fade01..9535da9 100644
--- a/mushroom_rl/core/serialization.py
+++ b/mushroom_rl/core/serialization.py
@@ -208,7 +208,7 @@ class Serializable(object):
     @staticmethod
     def _load_torch(zip_file, name):
         with zip_file.open(name, 'r') as f:
-            return torch.load(f, map_location=TorchUtils.get_device())
+            return torch.load(f, map_location=TorchUtils.get_device(), weights_only=False)
 
     @staticmethod
     def _load_json(zip_file, name):
-- 
2.43.0


From 1b0c8c1da28504b09f3017ba1770103fcea341c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:35 +0000
Subject: [PATCH 38/94] fix: noisy networks can be copied after a forward pass

---
 mushroom_rl/algorithms/value/dqn/noisy_dqn.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
index 8f502e7..ea8cc87 100644
--- a/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
+++ b/mushroom_rl/algorithms/value/dqn/noisy_dqn.py
@@ -49,9 +49,11 @@ class NoisyNetwork(nn.Module):
             weight = self.mu_weight + self.sigma_weight * eps_dot
 
             if hasattr(self, 'mu_bias'):
-                self.bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
+                bias = self.mu_bias + self.sigma_bias * self._noise(eps_output[:, 0])
+            else:
+                bias = None
 
-            return F.linear(input, weight, self.bias)
+            return F.linear(input, weight, bias)
 
         @staticmethod
         def _noise(x):
-- 
2.43.0


From 585097ff3cb16d54f1c0af31ba04b41a675a30cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:08 +0000
Subject: [PATCH 39/94] fix: maximum likelihood fit of a one-dimensional
 GaussianCholeskyDistribution

---
 mushroom_rl/distributions/gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/distributions/gaussian.py b/mushroom_rl/distributions/gaussian.py
index 8a278fb..53ddf41 100644
--- a/mushroom_rl/distributions/gaussian.py
+++ b/mushroom_rl/distributions/gaussian.py
@@ -333,7 +333,7 @@ class GaussianCholeskyDistribution(Distribution):
     def mle(self, theta, weights=None):
         if weights is None:
             self._mu = np.mean(theta, axis=0)
-            sigma = np.cov(theta, rowvar=False)
+            sigma = np.atleast_2d(np.cov(theta, rowvar=False))
         else:
             sumD = np.sum(weights)
             sumD2 = np.sum(weights**2)
-- 
2.43.0


From b7fafca81af99eef9b73bc24b4956a22fa1c6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 40/94] fix: the entropy of the recurrent Gaussian policy uses
 the bounded standard deviation

---
 mushroom_rl/policy/recurrent_torch_policy.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 5196084..588ce70 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -38,7 +38,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
 
     def entropy_t(self, state=None):
-        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._log_sigma)
+        return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._get_log_sigma())
 
     def distribution(self, state, policy_state, lengths):
         s = TorchUtils.to_float_tensor(state)
@@ -56,8 +56,9 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
     def get_mean_and_covariance_and_policy_state(self, state, policy_state, lengths):
         mu, next_hidden_state = self._mu(state, policy_state, lengths, **self._predict_params)
 
-        # Bound the log_std
-        log_sigma = torch.clamp(self._log_sigma, self._log_std_min(), self._log_std_max())
-
-        covariance = torch.diag(torch.exp(2 * log_sigma))
+        covariance = torch.diag(torch.exp(2 * self._get_log_sigma()))
         return mu, covariance, next_hidden_state
+
+    def _get_log_sigma(self):
+        # Bound the log_std
+        return torch.clamp(self._log_sigma, self._log_std_min(), self._log_std_max())
-- 
2.43.0


From de027f3f95c0f45a7e69339041390868f0e998bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 41/94] fix: log probability of one-dimensional actions in the
 recurrent Gaussian policy

---
 mushroom_rl/policy/recurrent_torch_policy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index 588ce70..a396e07 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -35,7 +35,7 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         return action, policy_state
 
     def log_prob_t(self, state, action, policy_state, lengths):
-        return self.distribution_t(state, policy_state, lengths).log_prob(action.squeeze())[:, None]
+        return self.distribution_t(state, policy_state, lengths).log_prob(action.reshape(-1, self._action_dim))[:, None]
 
     def entropy_t(self, state=None):
         return self._action_dim / 2 * np.log(2 * np.pi * np.e) + torch.sum(self._get_log_sigma())
-- 
2.43.0


From b334ac8a7730ffa47797d5b7e688e6ae6dcea06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 42/94] fix: the recurrent Gaussian policy saves its standard
 deviation bounds

---
 mushroom_rl/policy/recurrent_torch_policy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/policy/recurrent_torch_policy.py b/mushroom_rl/policy/recurrent_torch_policy.py
index a396e07..849b822 100644
--- a/mushroom_rl/policy/recurrent_torch_policy.py
+++ b/mushroom_rl/policy/recurrent_torch_policy.py
@@ -14,6 +14,11 @@ class RecurrentGaussianTorchPolicy(GaussianTorchPolicy):
         self._log_std_min = to_parameter(log_std_min)
         self._log_std_max = to_parameter(log_std_max)
 
+        self._add_save_attr(
+            _log_std_min='mushroom',
+            _log_std_max='mushroom'
+        )
+
     def reset(self):
         return torch.zeros(self.policy_state_shape)
 
-- 
2.43.0


From 1acc86087437cbdce452cdaaa0d46b1f11b37559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 43/94] fix: the first sequences of PPO_BPTT do not join
 different trajectories

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 1fb1551..7616c24 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -111,11 +111,11 @@ class PPO_BPTT(OnPolicyDeepAC):
                 end_seq = i + 1
 
                 # the sequence may contain more than one trajectory, we need to cut it so that it contains only one
-                lasts_absorbing = last[begin_seq - 1: i].int() + absorbing[begin_seq - 1: i].int()
+                lasts_absorbing = last[begin_seq: i].int() + absorbing[begin_seq: i].int()
                 begin_traj = torch.where(lasts_absorbing > 0)
                 sequence_is_shorter_than_requested = len(*begin_traj) > 0
                 if sequence_is_shorter_than_requested:
-                    begin_seq = begin_seq + begin_traj[0][-1]
+                    begin_seq = begin_seq + begin_traj[0][-1] + 1
 
                 # get the sequences
                 states_old_seq = states_old[begin_seq:end_seq]
-- 
2.43.0


From 6518cd3f72c7937e256ac3c2afed0cd25ad543c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 44/94] fix: PPO_BPTT saves its truncation length

---
 .../algorithms/actor_critic/deep_actor_critic/ppo_bptt.py      | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
index 7616c24..1c28c73 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py
@@ -67,7 +67,8 @@ class PPO_BPTT(OnPolicyDeepAC):
             _lambda='mushroom',
             _V='mushroom',
             _iter='primitive',
-            _dim_env_state='primitive'
+            _dim_env_state='primitive',
+            _truncation_length='primitive'
         )
 
     def fit(self, dataset):
-- 
2.43.0


From d3a102a2252664288a19e70b9cd7657c4bd30940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:12 +0000
Subject: [PATCH 45/94] fix: training a torch model does not change the weights
 vector it was set from

---
 mushroom_rl/policy/torch_policy.py | 2 +-
 mushroom_rl/utils/torch.py         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/torch_policy.py b/mushroom_rl/policy/torch_policy.py
index 89e043a..5423a86 100644
--- a/mushroom_rl/policy/torch_policy.py
+++ b/mushroom_rl/policy/torch_policy.py
@@ -223,7 +223,7 @@ class GaussianTorchPolicy(TorchPolicy):
 
     def set_weights(self, weights):
         log_sigma_data = TorchUtils.to_float_tensor(weights[-self._action_dim:])
-        self._log_sigma.data = log_sigma_data
+        self._log_sigma.data = log_sigma_data.clone()
 
         self._mu.set_weights(weights[:-self._action_dim])
 
diff --git a/mushroom_rl/utils/torch.py b/mushroom_rl/utils/torch.py
index b0b01b8..1c5a53e 100644
--- a/mushroom_rl/utils/torch.py
+++ b/mushroom_rl/utils/torch.py
@@ -38,7 +38,7 @@ class TorchUtils(object):
 
             w_tensor = torch.as_tensor(w, device=cls.get_device(device)).type(p.data.dtype)
 
-            p.data = w_tensor
+            p.data = w_tensor.clone()
             idx += c
 
         # assert idx == weights.size # TODO check if you can put another guard here
-- 
2.43.0


From e59c222e5d9cd98178c38479695ee550d12bd3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:37 +0000
Subject: [PATCH 46/94] fix: the derivative of CMAC is computed at the given
 state

---
 mushroom_rl/approximators/parametric/cmac.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 90b7c70..6e12ea9 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -89,6 +89,4 @@ class CMAC(LinearApproximator):
             The derivative of the output w.r.t. ``state``, and ``action`` if provided.
 
         """
-
-        phi = self._phi(state)
-        return super().diff(phi, action)
+        return super().diff(state, action)
-- 
2.43.0


From 1776dad42977e9aed8ca1ffd4f7802cb98f5a069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:37 +0000
Subject: [PATCH 47/94] fix: points just below the upper bound of a tiling
 belong to its last tile

---
 mushroom_rl/features/tiles/tiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/features/tiles/tiles.py b/mushroom_rl/features/tiles/tiles.py
index ba7b81b..8d2c766 100644
--- a/mushroom_rl/features/tiles/tiles.py
+++ b/mushroom_rl/features/tiles/tiles.py
@@ -53,7 +53,7 @@ class Tiles:
         for i, (r, N) in enumerate(zip(self._range, self._n_tiles)):
             if r[0] <= x[i] < r[1]:
                 width = r[1] - r[0]
-                component_index = int(np.floor(N * (x[i] - r[0]) / width))
+                component_index = min(int(np.floor(N * (x[i] - r[0]) / width)), N - 1)
                 tile_index += component_index * multiplier
                 multiplier *= N
             else:
-- 
2.43.0


From 3690a7986a865ed1fcfcee3509a1d07ff6fa7b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:40 +0000
Subject: [PATCH 48/94] fix: CMAC predictions of a single state keep all the
 outputs

---
 mushroom_rl/approximators/parametric/cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 6e12ea9..329a76a 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -75,7 +75,7 @@ class CMAC(LinearApproximator):
         for i, idx in enumerate(indexes):
             prediction[i] = np.sum(self._w[:, idx], axis=-1)
 
-        return prediction.squeeze()
+        return prediction.squeeze(axis=1) if prediction.shape[1] == 1 else prediction
 
     def diff(self, state, action=None):
         """
-- 
2.43.0


From d73b5f1b879ec89d913c1b3aea4ca5392b5f4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:28:40 +0000
Subject: [PATCH 49/94] fix: fitting CMAC with points outside of the tilings
 does not spoil the weights

---
 mushroom_rl/approximators/parametric/cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 329a76a..1697e29 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -47,7 +47,7 @@ class CMAC(LinearApproximator):
 
         phi = np.atleast_2d(self._phi(x))
         sum_phi = np.sum(phi, axis=0)
-        n = np.sum(phi, axis=1, keepdims=True)
+        n = np.maximum(np.sum(phi, axis=1, keepdims=True), 1.)
         phi_n = phi / n
         sum_phi[sum_phi == 0] = 1.
 
-- 
2.43.0


From d5ba419ab2ca120d3d0f44b1feade42e8074b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:43 +0000
Subject: [PATCH 50/94] fix: fitting CMAC does not change the weights vector it
 was set from

---
 mushroom_rl/approximators/parametric/cmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/approximators/parametric/cmac.py b/mushroom_rl/approximators/parametric/cmac.py
index 1697e29..b848440 100644
--- a/mushroom_rl/approximators/parametric/cmac.py
+++ b/mushroom_rl/approximators/parametric/cmac.py
@@ -52,7 +52,7 @@ class CMAC(LinearApproximator):
         sum_phi[sum_phi == 0] = 1.
 
         delta_w = delta_y @ phi_n / sum_phi
-        self._w += alpha*delta_w
+        self._w = self._w + alpha*delta_w
 
     def predict(self, x, **predict_params):
         """
-- 
2.43.0


From 71eac7d1054f67148ca2112dfdb18381ae6e554e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 51/94] fix: DDPG and TD3 handle boolean absorbing flags of
 torch replay memories

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 57e3bd3..4fc460c 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -134,7 +134,7 @@ class DDPG(DeepAC):
         a = self._target_actor_approximator.predict(next_state, **self._actor_predict_params)
 
         q = self._target_critic_approximator.predict(next_state, a, **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
 
diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 65cf027..06596b7 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -89,6 +89,6 @@ class TD3(DDPG):
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-        q *= 1 - absorbing
+        q *= 1 - absorbing.to(int)
 
         return q
-- 
2.43.0


From 578fa75b73c452b3dda8c59d82246de671bc7da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:39 +0000
Subject: [PATCH 52/94] fix: DDPG and TD3 can learn with policies that have an
 internal state

---
 mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
index 4fc460c..e81daef 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py
@@ -96,7 +96,7 @@ class DDPG(DeepAC):
     def fit(self, dataset):
         self._replay_memory.add(dataset)
         if self._replay_memory.initialized:
-            state, action, reward, next_state, absorbing, _ = self._replay_memory.get(self._batch_size())
+            state, action, reward, next_state, absorbing, *_ = self._replay_memory.get(self._batch_size())
 
             q_next = self._next_q(next_state, absorbing)
             q = reward + self.mdp_info.gamma * q_next
-- 
2.43.0


From 4856d8c72edc8969914cf3bed53ae25851c33379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:16 +0000
Subject: [PATCH 53/94] fix: TD3 smooths target actions with torch tensors

---
 .../algorithms/actor_critic/deep_actor_critic/td3.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
index 06596b7..45a7b15 100644
--- a/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
+++ b/mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py
@@ -1,4 +1,4 @@
-import numpy as np
+import torch
 
 from mushroom_rl.algorithms.actor_critic.deep_actor_critic import DDPG
 from mushroom_rl.policy import Policy
@@ -81,11 +81,11 @@ class TD3(DDPG):
         """
         a = self._target_actor_approximator(next_state, **self._actor_predict_params)
 
-        low = self.mdp_info.action_space.low
-        high = self.mdp_info.action_space.high
-        eps = np.random.normal(scale=self._noise_std(), size=a.shape)
-        eps_clipped = np.clip(eps, -self._noise_clip(), self._noise_clip.get_value())
-        a_smoothed = np.clip(a + eps_clipped, low, high)
+        low = torch.as_tensor(self.mdp_info.action_space.low, dtype=a.dtype, device=a.device)
+        high = torch.as_tensor(self.mdp_info.action_space.high, dtype=a.dtype, device=a.device)
+        eps = self._noise_std() * torch.randn_like(a)
+        eps_clipped = torch.clamp(eps, -self._noise_clip(), self._noise_clip.get_value())
+        a_smoothed = torch.clamp(a + eps_clipped, low, high)
 
         q = self._target_critic_approximator.predict(next_state, a_smoothed,
                                                      prediction='min', **self._critic_predict_params)
-- 
2.43.0


From f1070c5f8588546e76dcc1c34b352fdbc0db1038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 54/94] fix: MORE saves its surrogate model

---
 .../algorithms/policy_search/black_box_optimization/more.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
index 12356ca..f6a6fa2 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/more.py
@@ -54,7 +54,11 @@ class MORE(BlackBoxOptimization):
         self._add_save_attr(
             eps='primitive',
             h0='primitive',
-            kappa='primitive'
+            kappa='primitive',
+            phi_quadratic_='pickle',
+            regressor_quadratic='mushroom',
+            phi_linear_='pickle',
+            regressor_linear='mushroom'
         )
 
     def _update(self, Jep, theta, context):
-- 
2.43.0


From a19d4cff2fbcc051de18714b1051ae2fb334c783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 55/94] fix: the optimizer of a loaded ePPO agent updates its
 distribution

---
 .../algorithms/policy_search/black_box_optimization/eppo.py  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
index 7beb2ef..a25ad78 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/eppo.py
@@ -2,6 +2,7 @@ import torch
 
 from mushroom_rl.algorithms.policy_search.black_box_optimization import BlackBoxOptimization
 from mushroom_rl.utils.minibatches import minibatch_generator
+from mushroom_rl.utils.torch import TorchUtils
 from mushroom_rl.rl_utils.parameters import to_parameter
 
 
@@ -74,3 +75,7 @@ class ePPO(BlackBoxOptimization):
             context_i = None
 
         return theta_i, context_i, Jep_i, old_dist_i
+
+    def _post_load(self):
+        if self._optimizer is not None:
+            TorchUtils.update_optimizer_parameters(self._optimizer, list(self.distribution.parameters()))
-- 
2.43.0


From 9bd508f9a8ff2788feceddfc5b8532cc6571bb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:42 +0000
Subject: [PATCH 56/94] fix: the policy of a loaded COPDAC_Q agent follows the
 learned mean

---
 .../actor_critic/classic_actor_critic/copdac_q.py          | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index f571b8d..84e396e 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -47,8 +47,11 @@ class COPDAC_Q(Agent):
                             input_shape=(self._mu.weights_size,),
                             output_shape=(1,))
 
+        self._policy_mu = next((name for name, attr in vars(policy).items() if attr is mu), None)
+
         self._add_save_attr(
             _mu='mushroom',
+            _policy_mu='primitive',
             _psi='pickle',
             _alpha_theta='mushroom',
             _alpha_omega='mushroom',
@@ -97,3 +100,7 @@ class COPDAC_Q(Agent):
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
+
+    def _post_load(self):
+        if self._policy_mu is not None:
+            setattr(self.policy, self._policy_mu, self._mu)
-- 
2.43.0


From 265872430f40a762088ee2104a192d7331d8771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:43 +0000
Subject: [PATCH 57/94] fix: an ensemble of tables predicts the value of a
 single state-action pair

---
 mushroom_rl/approximators/ensemble.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/approximators/ensemble.py b/mushroom_rl/approximators/ensemble.py
index d1f65c7..8423e1a 100644
--- a/mushroom_rl/approximators/ensemble.py
+++ b/mushroom_rl/approximators/ensemble.py
@@ -91,11 +91,11 @@ class Ensemble(Serializable):
                     raise NotFittedError
 
             prediction = self._prediction if prediction is None else prediction
-            if isinstance(predictions[0], np.ndarray):
-                predictions = np.array(predictions)
-            else:
+            if isinstance(predictions[0], torch.Tensor):
                 predictions = torch.stack(predictions, axis=0)
                 torch_output = True
+            else:
+                predictions = np.array(predictions)
 
             if prediction == 'mean':
                 results = predictions.mean(0)
-- 
2.43.0


From 3bcfdce856a321069368d2caf1d8f2a71a940f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:24 +0000
Subject: [PATCH 58/94] fix: gradients of the LQR value functions for batches
 of states

---
 mushroom_rl/solvers/lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/solvers/lqr.py b/mushroom_rl/solvers/lqr.py
index ffd0934..ccb0bb2 100644
--- a/mushroom_rl/solvers/lqr.py
+++ b/mushroom_rl/solvers/lqr.py
@@ -170,7 +170,7 @@ def compute_lqr_V_gaussian_policy_gradient_K(s, lqr, K, Sigma):
 
         dPi = vec_dPi.reshape(Q.shape)
 
-        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s).reshape(-1, 1) \
+        dJ[:, i] = np.einsum('...k,kl,...l->...', s, dPi, s) \
                    + gamma * np.trace(Sigma @ B.T @ dPi @ B) / (1.0 - gamma)
 
     return -dJ
-- 
2.43.0


From 1a55dce6c3d23ff2c79673ad59154aad8d1dbfa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:24 +0000
Subject: [PATCH 59/94] fix: resetting to a given state leaves the array of the
 caller unchanged

---
 mushroom_rl/environments/cart_pole.py         | 2 +-
 mushroom_rl/environments/inverted_pendulum.py | 2 +-
 mushroom_rl/environments/segway.py            | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/cart_pole.py b/mushroom_rl/environments/cart_pole.py
index 2111cdd..658782b 100644
--- a/mushroom_rl/environments/cart_pole.py
+++ b/mushroom_rl/environments/cart_pole.py
@@ -59,7 +59,7 @@ class CartPole(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_u = 0
diff --git a/mushroom_rl/environments/inverted_pendulum.py b/mushroom_rl/environments/inverted_pendulum.py
index df060d4..81e67aa 100644
--- a/mushroom_rl/environments/inverted_pendulum.py
+++ b/mushroom_rl/environments/inverted_pendulum.py
@@ -63,7 +63,7 @@ class InvertedPendulum(Environment):
 
             self._state = np.array([angle, 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
             self._state[1] = self._bound(self._state[1], -self._max_omega, self._max_omega)
 
diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 5cb8965..00bdbc5 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -61,7 +61,7 @@ class Segway(Environment):
 
             self._state = np.array([angle, 0., 0.])
         else:
-            self._state = state
+            self._state = np.array(state)
             self._state[0] = normalize_angle(self._state[0])
 
         self._last_x = 0
-- 
2.43.0


From 3181399525bcb1fdc9601a4b180e299e42a2214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:24 +0000
Subject: [PATCH 60/94] fix: bounds of the angle in the observation space of
 Segway

---
 mushroom_rl/environments/segway.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/segway.py b/mushroom_rl/environments/segway.py
index 00bdbc5..daeea89 100644
--- a/mushroom_rl/environments/segway.py
+++ b/mushroom_rl/environments/segway.py
@@ -36,7 +36,7 @@ class Segway(Environment):
 
         self._random = random_start
 
-        high = np.array([-np.pi / 2, 15, 75])
+        high = np.array([np.pi / 2, 15, 75])
 
         # MDP properties
         dt = 1e-2
-- 
2.43.0


From ed8a4153a16f6ed9797ebd17aab6214da76ba1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:24 +0000
Subject: [PATCH 61/94] fix: grid files without a newline at the end keep their
 last row

---
 mushroom_rl/environments/generators/grid_world.py | 3 +++
 mushroom_rl/environments/generators/taxi.py       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mushroom_rl/environments/generators/grid_world.py b/mushroom_rl/environments/generators/grid_world.py
index 1f4a2a3..45d4706 100644
--- a/mushroom_rl/environments/generators/grid_world.py
+++ b/mushroom_rl/environments/generators/grid_world.py
@@ -71,6 +71,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list
 
 
diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 2ef85d6..57799dc 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -83,6 +83,9 @@ def parse_grid(grid):
             else:
                 raise ValueError('Unknown marker.')
 
+        if row:
+            grid_map.append(row)
+
     return grid_map, cell_list, passenger_list
 
 
-- 
2.43.0


From 489e2ca3c2e8a616389bbc7775b1380e15c628dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:24 +0000
Subject: [PATCH 62/94] fix: the taxi gets its reward also when it slips into
 the goal

---
 mushroom_rl/environments/generators/taxi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/generators/taxi.py b/mushroom_rl/environments/generators/taxi.py
index 57799dc..7d88843 100644
--- a/mushroom_rl/environments/generators/taxi.py
+++ b/mushroom_rl/environments/generators/taxi.py
@@ -209,7 +209,7 @@ def compute_reward(grid_map, cell_list, passenger_list, rew):
                     j_idx = j = np.where((c == goal).all(axis=1))[0] + len(
                         cell_list) * i
 
-                    r[i_idx, a, j_idx] = rew[np.sum(passenger_states[i])]
+                    r[i_idx, :, j_idx] = rew[np.sum(passenger_states[i])]
 
     return r
 
-- 
2.43.0


From df7be57bc6fee401240484a39c2817fbd747739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:30 +0000
Subject: [PATCH 63/94] fix: COPDAC_Q learns policies with several action
 dimensions

---
 .../algorithms/actor_critic/classic_actor_critic/copdac_q.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
index 84e396e..8d53555 100644
--- a/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
+++ b/mushroom_rl/algorithms/actor_critic/classic_actor_critic/copdac_q.py
@@ -71,7 +71,7 @@ class COPDAC_Q(Agent):
 
             q_next = self._V(ss_psi).item() if not absorbing else 0
 
-            grad_mu_s = np.atleast_2d(self._mu.diff(s))
+            grad_mu_s = np.atleast_2d(self._mu.diff(s).T)
             omega = self._A.get_weights()
 
             delta = r + self.mdp_info.gamma * q_next - self._Q(s, a)
@@ -96,7 +96,7 @@ class COPDAC_Q(Agent):
                                                             action)).item()
 
     def _nu(self, state, action):
-        grad_mu = np.atleast_2d(self._mu.diff(state))
+        grad_mu = np.atleast_2d(self._mu.diff(state).T)
         delta = action - self._mu(state)
 
         return delta.dot(grad_mu)
-- 
2.43.0


From 195f953ddccdf01a65a9253522c4652af305d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:30 +0000
Subject: [PATCH 64/94] fix: a logger without seed does not append to the data
 of other seeds

---
 mushroom_rl/core/logger/data_logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/core/logger/data_logger.py b/mushroom_rl/core/logger/data_logger.py
index 4426874..059bdb4 100644
--- a/mushroom_rl/core/logger/data_logger.py
+++ b/mushroom_rl/core/logger/data_logger.py
@@ -125,7 +125,7 @@ class DataLogger(object):
     def _load_numpy(self):
         for file in self._results_dir.iterdir():
             if file.is_file() and file.suffix == '.npy':
-                if file.stem.endswith(self._suffix):
-                    name = re.split(r'-\d+$', file.stem)[0]
+                name, *seed = re.split(r'-(\d+)$', file.stem)[:2]
+                if self._suffix == ('-' + seed[0] if seed else ''):
                     data = np.load(str(file)).tolist()
                     self._data_dict[name] = data
-- 
2.43.0


From 87b4d63cbc87686e4355eceb07fa5ff0a8b338c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:54:30 +0000
Subject: [PATCH 65/94] fix: console loggers with the same name do not share or
 clear their handlers

---
 mushroom_rl/core/logger/console_logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/core/logger/console_logger.py b/mushroom_rl/core/logger/console_logger.py
index f50bf9d..bd9d21a 100644
--- a/mushroom_rl/core/logger/console_logger.py
+++ b/mushroom_rl/core/logger/console_logger.py
@@ -47,7 +47,7 @@ class ConsoleLogger(object):
         formatter = logging.Formatter(fmt='%(asctime)s [%(levelname)s] %(message)s',
                                       datefmt='%d/%m/%Y %H:%M:%S')
 
-        self._logger = logging.getLogger(self._log_id)
+        self._logger = logging.Logger(self._log_id)
         self._logger.setLevel(min(console_log_level, file_log_level))
         self._logger.propagate = False
         ch = TqdmHandler()
-- 
2.43.0


From fd4f2eed7c6a105201123b008c90597836c4e27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 66/94] fix: parallel environments are reset to the whole given
 state

---
 mushroom_rl/core/multiprocess_environment.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/core/multiprocess_environment.py b/mushroom_rl/core/multiprocess_environment.py
index 6f56685..cc09853 100644
--- a/mushroom_rl/core/multiprocess_environment.py
+++ b/mushroom_rl/core/multiprocess_environment.py
@@ -21,11 +21,8 @@ def _env_worker(remote, env_class, use_generator, args, kwargs):
                 res = env.step(action)
                 remote.send(res)
             elif cmd == 'reset':
-                if data is not None:
-                    init_states = data[0]
-                else:
-                    init_states = None
-                res = env.reset(init_states)
+                init_state = data
+                res = env.reset(init_state)
                 remote.send(res)
             elif cmd == 'render':
                 record = data
-- 
2.43.0


From 7145e42ec1af4aac79422008e36ba41820d103e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 67/94] fix: VectorCore records the frames of the active
 environments

---
 mushroom_rl/core/vectorized_core.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/core/vectorized_core.py b/mushroom_rl/core/vectorized_core.py
index 8e89cf6..85b224a 100644
--- a/mushroom_rl/core/vectorized_core.py
+++ b/mushroom_rl/core/vectorized_core.py
@@ -160,9 +160,9 @@ class VectorCore(object):
             frames = self.env.render_all(mask, record=record)
 
             if record:
-                for i in range(self.env.number):
-                    if mask[i]:
-                        self._record[i](frames[i])
+                active_recorders = [r for i, r in enumerate(self._record) if mask[i]]
+                for recorder, frame in zip(active_recorders, frames):
+                    recorder(frame)
 
         last = absorbing | (self._episode_steps >= self.env.info.horizon)
 
-- 
2.43.0


From 38a6443f96aaaf1f5ec01d9f833fb7d962c26560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 68/94] fix: numerical gradient at integer parameters

---
 mushroom_rl/utils/numerical_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/numerical_gradient.py b/mushroom_rl/utils/numerical_gradient.py
index b1d6561..0fbceff 100644
--- a/mushroom_rl/utils/numerical_gradient.py
+++ b/mushroom_rl/utils/numerical_gradient.py
@@ -85,7 +85,7 @@ def numerical_diff_function(function, params, eps=1e-6):
 
     """
 
-    g = np.zeros_like(params)
+    g = np.zeros(np.shape(params))
     n_params = len(params)
 
     for i in range(n_params):
-- 
2.43.0


From 1f5b359697b199168e3ca1d9e9828bf8ebb32c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:59 +0000
Subject: [PATCH 69/94] fix: a video recorder without frames can be stopped

---
 mushroom_rl/utils/record.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/utils/record.py b/mushroom_rl/utils/record.py
index 2ffa000..fd34ae3 100644
--- a/mushroom_rl/utils/record.py
+++ b/mushroom_rl/utils/record.py
@@ -64,6 +64,7 @@ class VideoRecorder(object):
 
     def stop(self):
         cv2.destroyAllWindows()
-        self._video_writer.release()
-        self._video_writer = None
-        self._counter += 1
+        if self._video_writer is not None:
+            self._video_writer.release()
+            self._video_writer = None
+            self._counter += 1
-- 
2.43.0


From 8757635244a3124e69cb7320bd502c771df1058c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:59 +0000
Subject: [PATCH 70/94] fix: CollectDataset can be cleaned before collecting

---
 mushroom_rl/utils/callbacks/collect_dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/callbacks/collect_dataset.py b/mushroom_rl/utils/callbacks/collect_dataset.py
index 1510e3d..d48a3b8 100644
--- a/mushroom_rl/utils/callbacks/collect_dataset.py
+++ b/mushroom_rl/utils/callbacks/collect_dataset.py
@@ -24,7 +24,8 @@ class CollectDataset(Callback):
             self._dataset += dataset
 
     def clean(self):
-        self._dataset.clear()
+        if self._dataset is not None:
+            self._dataset.clear()
 
     def get(self):
         return self._dataset
-- 
2.43.0


From 19ab80eee7fded2546206804620a5c83348e814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:52 +0000
Subject: [PATCH 71/94] fix: resetting a gym environment to a state sets the
 state of the environment, not of its wrapper

---
 mushroom_rl/environments/gym_env.py       | 2 +-
 mushroom_rl/environments/gymnasium_env.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/gym_env.py b/mushroom_rl/environments/gym_env.py
index 191d8c8..8894d42 100644
--- a/mushroom_rl/environments/gym_env.py
+++ b/mushroom_rl/environments/gym_env.py
@@ -84,7 +84,7 @@ class Gym(Environment):
             return np.atleast_1d(self.env.reset()), {}
         else:
             self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), {}
 
diff --git a/mushroom_rl/environments/gymnasium_env.py b/mushroom_rl/environments/gymnasium_env.py
index ee42945..2d2fc4f 100644
--- a/mushroom_rl/environments/gymnasium_env.py
+++ b/mushroom_rl/environments/gymnasium_env.py
@@ -89,7 +89,7 @@ class Gymnasium(Environment):
             return np.atleast_1d(state), info
         else:
             _, info = self.env.reset()
-            self.env.state = state
+            self.env.unwrapped.state = state
 
             return np.atleast_1d(state), info
 
-- 
2.43.0


From a589786fd8ea1e6c3881401f43c8cbbc38f48fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:12 +0000
Subject: [PATCH 72/94] fix: average pooling of Atari frames

---
 mushroom_rl/environments/atari.py           | 2 +-
 mushroom_rl/environments/gymnasium_atari.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/atari.py b/mushroom_rl/environments/atari.py
index 2f62b87..e40ea5b 100644
--- a/mushroom_rl/environments/atari.py
+++ b/mushroom_rl/environments/atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
diff --git a/mushroom_rl/environments/gymnasium_atari.py b/mushroom_rl/environments/gymnasium_atari.py
index 8f52b9c..1493af8 100644
--- a/mushroom_rl/environments/gymnasium_atari.py
+++ b/mushroom_rl/environments/gymnasium_atari.py
@@ -33,7 +33,7 @@ class MaxAndSkip(gym.Wrapper):
         if self._max_pooling:
             frame = self._obs_buffer.max(axis=0)
         else:
-            frame = self._obs_buffer.mean(axis=0)
+            frame = self._obs_buffer.mean(axis=0).astype(np.uint8)
 
         return frame, total_reward, absorbing, info
 
-- 
2.43.0


From db1844ad922f0d4c6113ac1e961e67a88218e656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:27 +0000
Subject: [PATCH 73/94] fix: positions and velocities of bodies and sites in
 the first observation of MuJoCo environments

---
 mushroom_rl/environments/mujoco.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index e76bec3..b442291 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -429,6 +429,9 @@ class MuJoCo(Environment):
         if obs is not None:
             self.obs_helper._modify_data(self._model, self._data, obs)
 
+        mujoco.mj_fwdPosition(self._model, self._data)
+        mujoco.mj_fwdVelocity(self._model, self._data)
+
     def get_all_observation_keys(self):
         """
         A function that returns all observation keys defined in the observation specification.
-- 
2.43.0


From c868d0685f6a98ea99f72b88a7922456968ceed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:27 +0000
Subject: [PATCH 74/94] fix: entries of MuJoCo observations can be removed in
 any order

---
 mushroom_rl/utils/mujoco/observation_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/utils/mujoco/observation_helper.py b/mushroom_rl/utils/mujoco/observation_helper.py
index 77429e8..67553fb 100644
--- a/mushroom_rl/utils/mujoco/observation_helper.py
+++ b/mushroom_rl/utils/mujoco/observation_helper.py
@@ -92,7 +92,7 @@ class ObservationHelper:
         The index is always of the original observation!
         """
         indices = self.obs_idx_map[key]
-        adjusted_index = index - len(self.build_omit_idx[key])
+        adjusted_index = index - sum(i < index for i in self.build_omit_idx[key])
 
         self.obs_low = np.delete(self.obs_low, indices[adjusted_index])
         self.obs_high = np.delete(self.obs_high, indices[adjusted_index])
-- 
2.43.0


From f99170bd85156eeafe38d7702a62aaac4e4f1b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 75/94] fix: resetting MultiMuJoCo also returns the episode
 info

---
 mushroom_rl/environments/mujoco.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index b442291..28bdcf9 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -691,7 +691,7 @@ class MultiMuJoCo(MuJoCo):
             self._viewer.load_new_model(self._model)
 
         self._obs = self._create_observation(self.obs_helper._build_obs(self._model, self._data))
-        return self._modify_observation(self._obs)
+        return self._modify_observation(self._obs), {}
 
     @property
     def more_than_one_env(self):
-- 
2.43.0


From 3a69f66158dd28ff697de4d5b9819e9edbc1038c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 76/94] fix: the timestep of MultiMuJoCo applies to all models

---
 mushroom_rl/environments/mujoco.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 28bdcf9..59e155f 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -590,7 +590,8 @@ class MultiMuJoCo(MuJoCo):
         self._current_model_idx = 0
         self._model = self._models[self._current_model_idx]
         if timestep is not None:
-            self._model.opt.timestep = timestep
+            for m in self._models:
+                m.opt.timestep = timestep
             self._timestep = timestep
         else:
             self._timestep = self._model.opt.timestep
-- 
2.43.0


From 3d028b327691b7340827c3834ceb2544abdd63fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:30:58 +0000
Subject: [PATCH 77/94] fix: MultiMuJoCo compares the observation limits of all
 models

---
 mushroom_rl/environments/mujoco.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/mujoco.py b/mushroom_rl/environments/mujoco.py
index 59e155f..dd0d5f2 100644
--- a/mushroom_rl/environments/mujoco.py
+++ b/mushroom_rl/environments/mujoco.py
@@ -623,7 +623,7 @@ class MultiMuJoCo(MuJoCo):
 
         # Read the observation spec to build a mapping at every step. It is
         # ensured that the values appear in the order they are specified.
-        self.obs_helpers = [ObservationHelper(observation_spec, self._model, self._data,
+        self.obs_helpers = [ObservationHelper(observation_spec, m, d,
                                               max_joint_velocity=max_joint_vel)
                             for m, d in zip(self._models, self._datas)]
         self.obs_helper = self.obs_helpers[self._current_model_idx]
@@ -632,7 +632,7 @@ class MultiMuJoCo(MuJoCo):
 
         # multi envs with different obs limits are now allowed, do sanity check
         for oh in self.obs_helpers:
-            low, high = self.obs_helper.get_obs_limits()
+            low, high = oh.get_obs_limits()
             if not np.array_equal(low, observation_space.low) or not np.array_equal(high, observation_space.high):
                 raise ValueError("The provided environments differ in the their observation limits. "
                                  "This is not allowed.")
-- 
2.43.0


From bca9da3333e1149e0703ddd1bf1217110ab1fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 78/94] fix: ProMP computes its phase from the policy state and
 does not change the one it is given

---
 mushroom_rl/policy/promps.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index d074a3e..57cc426 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -46,17 +46,17 @@ class ProMP(ParametricPolicy):
             _periodic='primitive'
         )
 
-    def __call__(self, state, action):
-        z = self._compute_phase(state)
+    def __call__(self, state, action, policy_state):
+        z = self._compute_phase(state, policy_state)
         mu = self._approximator(self._phi(z))
 
         if self._sigma is None:
-            return 1.0 if mu == action else 0.0
+            return 1.0 if np.array_equal(mu, action) else 0.0
         else:
             return multivariate_normal.pdf(action, mu, self._sigma)
 
     def draw_action(self, state, policy_state):
-        z = self._compute_phase(state)
+        z = self._compute_phase(state, policy_state)
 
         mu = self._approximator(self._phi(z))
 
@@ -75,12 +75,12 @@ class ProMP(ParametricPolicy):
             state (np.ndarray): The current state of the system.
 
         """
-        policy_state += 1
+        next_policy_state = policy_state + 1
 
-        if not self._periodic and policy_state >= self._duration:
-            policy_state = self._duration
+        if not self._periodic:
+            next_policy_state = np.minimum(next_policy_state, self._duration)
 
-        return policy_state
+        return next_policy_state
 
     def _compute_phase(self, state, policy_state):
         """
@@ -114,4 +114,4 @@ class ProMP(ParametricPolicy):
         self._duration = duration - 1
 
     def reset(self):
-        return 0
+        return np.zeros(1)
-- 
2.43.0


From 1d07e09eb283f90b78dfe6028b4acdff61a88bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 79/94] fix: DMP initializes the base policy and follows the
 policy interface

---
 mushroom_rl/policy/dmp.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 74a9aa5..4a1e1d6 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -32,6 +32,8 @@ class DMP(ParametricPolicy):
         self._z = np.zeros(action_size)
         self._y = np.zeros(action_size)
 
+        super().__init__()
+
         self._add_save_attr(
             _approximator='mushroom',
             _phi='mushroom',
@@ -48,13 +50,13 @@ class DMP(ParametricPolicy):
             _y='numpy'
         )
 
-    def __call__(self, state, action):
-        return 1.0 if np.allclose(self._y == action) else 0.0
+    def __call__(self, state, action, policy_state=None):
+        return 1.0 if np.allclose(self._y, action) else 0.0
 
-    def draw_action(self, state):
+    def draw_action(self, state, policy_state=None):
         self.update_system(state)
 
-        return self._y
+        return self._y.copy(), None
 
     def set_goal(self, goal):
         self._g = goal
-- 
2.43.0


From 1199871930657204503a4573b9db5a4c8a565cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 80/94] fix: VectorPolicy collects the next policy states and
 resizes in the right direction

---
 mushroom_rl/policy/vector_policy.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/policy/vector_policy.py b/mushroom_rl/policy/vector_policy.py
index ac2ec1d..c37c0b9 100644
--- a/mushroom_rl/policy/vector_policy.py
+++ b/mushroom_rl/policy/vector_policy.py
@@ -30,16 +30,16 @@ class VectorPolicy(ParametricPolicy):
             actions.append(action)
 
             if policy_next_state is not None:
-                policy_next_state.append(policy_next_state)
+                policy_next_states.append(policy_next_state)
 
-        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_state)
+        return np.array(actions), None if len(policy_next_states) == 0 else np.array(policy_next_states)
 
     def set_n(self, n_envs):
-        if len(self) < n_envs:
-            self._policy_vector = self._policy_vector[:n_envs]
         if len(self) > n_envs:
+            self._policy_vector = self._policy_vector[:n_envs]
+        if len(self) < n_envs:
             n_missing = n_envs - len(self)
-            self._policy_vector += [self._policy_vector[0] for _ in range(n_missing)]
+            self._policy_vector += [deepcopy(self._policy_vector[0]) for _ in range(n_missing)]
 
     def get_flat_policy(self):
         return self._policy_vector[0]
-- 
2.43.0


From fec86c425aeed8c5a47bdf0fb962972804728194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:31 +0000
Subject: [PATCH 81/94] fix: black-box agents start vectorized episodes without
 a context and reset only the starting policies

---
 .../black_box_optimization/black_box_optimization.py     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
index f7d0daa..88bdd84 100644
--- a/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
+++ b/mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py
@@ -64,11 +64,14 @@ class BlackBoxOptimization(Agent):
 
         theta = self.policy.get_weights()
         if start_mask.any():
-            context = self._context_builder(initial_states, **episode_info)[start_mask]
+            if self.distribution.is_contextual:
+                context = self._context_builder(initial_states, **episode_info)[start_mask]
+            else:
+                context = None
 
             if self._deterministic:
                 if context is not None:
-                    theta[start_mask] = self.distribution.mean(context[start_mask])
+                    theta[start_mask] = self.distribution.mean(context)
                 else:
                     theta[start_mask] = self._agent_backend.from_list(
                         [self.distribution.mean() for _ in range(start_mask.sum())])
@@ -81,7 +84,7 @@ class BlackBoxOptimization(Agent):
                         [self.distribution.sample() for _ in range(start_mask.sum())])
             self.policy.set_weights(theta)
 
-        policy_states = self.policy.reset()
+        policy_states = self.policy.reset(start_mask)
 
         return policy_states, theta
 
-- 
2.43.0


From 50041392f763779ca513582eae34034be5f95f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 82/94] fix: compute the Monte Carlo advantage of a trajectory
 of one step

---
 mushroom_rl/rl_utils/value_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/rl_utils/value_functions.py b/mushroom_rl/rl_utils/value_functions.py
index 3b6b338..3c2650e 100644
--- a/mushroom_rl/rl_utils/value_functions.py
+++ b/mushroom_rl/rl_utils/value_functions.py
@@ -23,9 +23,9 @@ def compute_advantage_montecarlo(V, s, ss, r, absorbing, gamma):
         and the advantage function.
     """
     with torch.no_grad():
-        r = r.squeeze()
+        r = r.reshape(-1)
         q = torch.zeros(len(r))
-        v = V(s).squeeze()
+        v = V(s).reshape(-1)
 
         q_next = V(ss[-1]).squeeze().item()
         for rev_k in range(len(r)):
-- 
2.43.0


From 84586a7153727fd610a163c3a6c8c385d994501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:56 +0000
Subject: [PATCH 83/94] fix: views and flattened ExtraInfo own their key and
 shape mappings

---
 mushroom_rl/core/extra_info.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/core/extra_info.py b/mushroom_rl/core/extra_info.py
index 8c35974..ca014c0 100644
--- a/mushroom_rl/core/extra_info.py
+++ b/mushroom_rl/core/extra_info.py
@@ -111,8 +111,8 @@ class ExtraInfo(Serializable, UserDict):
         self.parse()
 
         info = ExtraInfo(1, self._array_backend.get_backend_name(), self._device)
-        info._shape_mapping = self._shape_mapping
-        info._key_mapping = self._key_mapping
+        info._shape_mapping = self._shape_mapping.copy()
+        info._key_mapping = self._key_mapping.copy()
         info._structured_storage = {}
 
         for key in self.data:
@@ -231,8 +231,8 @@ class ExtraInfo(Serializable, UserDict):
         """
         self.parse()
         info = ExtraInfo(self._n_envs, self._array_backend.get_backend_name(), self._device)
-        info._key_mapping = self._key_mapping
-        info._shape_mapping = self._shape_mapping
+        info._key_mapping = self._key_mapping.copy()
+        info._shape_mapping = self._shape_mapping.copy()
 
         if not copy:
             info._structured_storage = {key: value[index, ...] for key, value in self._structured_storage.items()}
-- 
2.43.0


From 2c9c808b82966fd893ef2eb66277bce28f4e23ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:03 +0000
Subject: [PATCH 84/94] fix: ProMP and DMP can be saved with their features,
 which are not Serializable

---
 mushroom_rl/policy/dmp.py    | 2 +-
 mushroom_rl/policy/promps.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/policy/dmp.py b/mushroom_rl/policy/dmp.py
index 4a1e1d6..3bc1f93 100644
--- a/mushroom_rl/policy/dmp.py
+++ b/mushroom_rl/policy/dmp.py
@@ -36,7 +36,7 @@ class DMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _dt='primitive',
             _tau='primitive',
             _alpha_v='numpy',
diff --git a/mushroom_rl/policy/promps.py b/mushroom_rl/policy/promps.py
index 57cc426..bc9d5a5 100644
--- a/mushroom_rl/policy/promps.py
+++ b/mushroom_rl/policy/promps.py
@@ -40,7 +40,7 @@ class ProMP(ParametricPolicy):
 
         self._add_save_attr(
             _approximator='mushroom',
-            _phi='mushroom',
+            _phi='pickle',
             _duration='primitive',
             _sigma='numpy',
             _periodic='primitive'
-- 
2.43.0


From bd3f252986c39019dc2b55d7a32c4c635609dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:49 +0000
Subject: [PATCH 85/94] fix: DMControl with pixel observations ignores the time
 limit of the task as it does otherwise

---
 mushroom_rl/environments/dm_control_env.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/dm_control_env.py b/mushroom_rl/environments/dm_control_env.py
index a5edd2c..3410db5 100644
--- a/mushroom_rl/environments/dm_control_env.py
+++ b/mushroom_rl/environments/dm_control_env.py
@@ -42,8 +42,6 @@ class DMControl(Environment):
         """
         # MDP creation
         self.env = suite.load(domain_name, task_name, task_kwargs=task_kwargs)
-        if use_pixels:
-            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
 
         # get the default horizon
         if horizon is None:
@@ -52,6 +50,9 @@ class DMControl(Environment):
         # Hack to ignore dm_control time limit.
         self.env._step_limit = np.inf
 
+        if use_pixels:
+            self.env = pixels.Wrapper(self.env, render_kwargs={'width': pixels_width, 'height': pixels_height})
+
         if use_pixels:
             self._convert_observation_space = self._convert_observation_space_pixels
             self._convert_observation = self._convert_observation_pixels
-- 
2.43.0


From f585421a579dbd9c0d65229d18933d0b437bb12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 86/94] fix: air hockey puck velocity is [lin_x, lin_y, ang_z]
 in the MuJoCo observation

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py   | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 020f81c..5616ea4 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -151,8 +151,8 @@ class AirHockeyBase(MuJoCo):
             rot_mat = robot_frame[:3, :3]
 
             vel_lin = np.zeros(3)
-            vel_lin[:2] = puck_in[1:]
+            vel_lin[:2] = puck_in[:2]
 
             vel_target = rot_mat.T @ vel_lin
 
-            puck_in[1:] = vel_target[:2]
+            puck_in[:2] = vel_target[:2]
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 27308b0..9cdb236 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -55,8 +55,8 @@ class AirHockeyDouble(AirHockeyBase):
 
     def get_puck(self, obs):
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index 5d138a9..a958dba 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -53,8 +53,8 @@ class AirHockeySingle(AirHockeyBase):
 
         """
         puck_pos = self.obs_helper.get_from_obs(obs, "puck_pos")
-        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[1:]
-        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[0]
+        puck_lin_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[:2]
+        puck_ang_vel = self.obs_helper.get_from_obs(obs, "puck_vel")[2]
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self):
-- 
2.43.0


From 31427027469d1b5222bb7e5e09335c4fc96f5a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 87/94] fix: air hockey joint position constraints are computed
 from the joint positions

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 4 ++--
 mushroom_rl/environments/mujoco_envs/air_hockey/single.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index 9cdb236..be83cd9 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -140,8 +140,8 @@ class AirHockeyDouble(AirHockeyBase):
 
             # joint_pos_constraint: stay within the robots joint position limits
             constraints[key]["joint_pos_constraints"] = np.zeros(6)
-            constraints[key]["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
-            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_vel
+            constraints[key]["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1][i * 3: (i+1) * 3]
+            constraints[key]["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0][i * 3: (i+1) * 3] - q_pos
 
             # joint_vel_constraint: stay within the robots joint velocity limits
             constraints[key]["joint_vel_constraints"] = np.zeros(6)
diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
index a958dba..5a636d6 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/single.py
@@ -125,8 +125,8 @@ class AirHockeySingle(AirHockeyBase):
 
         # joint_pos_constraint: stay within the robots joint position limits
         constraints["joint_pos_constraints"] = np.zeros(6)
-        constraints["joint_pos_constraints"][:3] = q_vel - self.obs_helper.get_joint_pos_limits()[1]
-        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_vel
+        constraints["joint_pos_constraints"][:3] = q_pos - self.obs_helper.get_joint_pos_limits()[1]
+        constraints["joint_pos_constraints"][3:] = self.obs_helper.get_joint_pos_limits()[0] - q_pos
 
         # joint_vel_constraint: stay within the robots joint velocity limits
         constraints["joint_vel_constraints"] = np.zeros(6)
-- 
2.43.0


From 9960c9e42203bb405a2cb0a7cbe329d34a65e559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 88/94] fix: hits and end effector of the second air hockey
 robot

---
 mushroom_rl/environments/mujoco_envs/air_hockey/double.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
index be83cd9..266f56b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/double.py
@@ -60,9 +60,9 @@ class AirHockeyDouble(AirHockeyBase):
         return puck_pos, puck_lin_vel, puck_ang_vel
 
     def get_ee(self, robot=1):
-        ee_pos = self._read_data("planar_robot_" + str(robot) + "/ee_pos")
+        ee_pos = self._read_data("robot_" + str(robot) + "/ee_pos")
 
-        ee_vel = self._read_data("planar_robot_" + str(robot) + "/ee_vel")
+        ee_vel = self._read_data("robot_" + str(robot) + "/ee_vel")
 
         return ee_pos, ee_vel
 
@@ -106,7 +106,7 @@ class AirHockeyDouble(AirHockeyBase):
             self.robot_1_hit = self._check_collision("puck", "robot_1/ee")
 
         if not self.robot_2_hit:
-            self.robot_2_hit = self._check_collision("puck", "robot_1/ee")
+            self.robot_2_hit = self._check_collision("puck", "robot_2/ee")
 
         if not self.has_bounce:
             self.has_bounce = self._check_collision("puck", "rim_short_sides")
-- 
2.43.0


From 0e1979f1eb230a3456259e691c4f623b6b94cece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 89/94] fix: air hockey rim collision group contains all the
 rims

---
 mushroom_rl/environments/mujoco_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
index 5616ea4..358ce6b 100644
--- a/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/mujoco_envs/air_hockey/base.py
@@ -41,7 +41,7 @@ class AirHockeyBase(MuJoCo):
                            ("puck_vel", "puck", ObservationType.JOINT_VEL)]
 
         collision_spec = [("puck", ["puck"]),
-                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_l", "rim_left", "rim_right"]),
+                          ("rim", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r", "rim_left", "rim_right"]),
                           ("rim_short_sides", ["rim_home_l", "rim_home_r", "rim_away_l", "rim_away_r"])]
 
         if 1 <= self.n_agents <= 2:
-- 
2.43.0


From b7aaf4c3860c4d4f7a0eb48136465d3b5cf01be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 90/94] fix: keep the control timestep in the MDPInfo of the
 PyBullet air hockey

---
 mushroom_rl/environments/pybullet_envs/air_hockey/double.py | 2 +-
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index 56aac56..e07777f 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -48,7 +48,7 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
         obs_high[11:13] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
 
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
 
     def _create_observation(self, state):
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 3e61828..c3546f4 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -45,7 +45,7 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         obs_low[0:2] = [-1, -0.5]
         obs_high[0:2] = [1, 0.5]
         observation_space = Box(low=obs_low, high=obs_high)
-        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon)
+        return MDPInfo(observation_space, mdp_info.action_space, mdp_info.gamma, mdp_info.horizon, mdp_info.dt)
 
     def _create_observation(self, state):
         puck_pose = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)
-- 
2.43.0


From 5588eab1ed09e9226bbe88da3f8f0038a7c247a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 91/94] fix: air-flow noise of the PyBullet air hockey

---
 mushroom_rl/environments/pybullet_envs/air_hockey/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
index dfd7462..3576770 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/base.py
@@ -137,7 +137,7 @@ class AirHockeyBaseBullet(PyBullet):
     def _simulation_pre_step(self):
         if self.env_noise:
             force = np.concatenate([np.random.randn(2), [0]]) * 0.0005
-            self._client.applyExternalForce(self._model_map['puck']['id'], -1, force, [0., 0., 0.],
+            self._client.applyExternalForce(self._model_map['puck'], -1, force, [0., 0., 0.],
                                             self._client.WORLD_FRAME)
 
     def is_absorbing(self, state):
-- 
2.43.0


From 9e6817dd50b46e9775a832d8c2a7b0506e98263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 92/94] fix: observation noise of the PyBullet air hockey

---
 mushroom_rl/environments/pybullet_envs/air_hockey/double.py | 1 -
 mushroom_rl/environments/pybullet_envs/air_hockey/single.py | 1 -
 2 files changed, 2 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index e07777f..93a595f 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -64,7 +64,6 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
 
             if self.obs_noise:
                 puck_pose_2d[:2] += np.random.randn(2) * 0.001
-                puck_pose_2d[2] += np.random.randn(1) * 0.001
 
             puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
             puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index c3546f4..8a46384 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -58,7 +58,6 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
 
         if self.obs_noise:
             puck_pose_2d[:2] += np.random.randn(2) * 0.001
-            puck_pose_2d[2] += np.random.randn(1) * 0.001
 
         puck_lin_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)
         puck_ang_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_ANG_VEL)
-- 
2.43.0


From d6fa4db44453160e51c7e16c7589479162dbfb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:12 +0000
Subject: [PATCH 93/94] fix: PyBullet air hockey hit and prepare terminate and
 are rewarded on the reached state

---
 mushroom_rl/environments/pybullet_envs/air_hockey/hit.py     | 4 ++--
 mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py b/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
index ecee285..3db176f 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/hit.py
@@ -82,7 +82,7 @@ class AirHockeyHitBullet(AirHockeySingleBullet):
         r = 0
         puck_pos = self.get_sim_state(next_state, "puck", PyBulletObservationType.BODY_POS)[:2]
 
-        puck_vel = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
+        puck_vel = self.get_sim_state(next_state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
 
         # If puck is out of bounds
         if absorbing:
@@ -130,7 +130,7 @@ class AirHockeyHitBullet(AirHockeySingleBullet):
         if super().is_absorbing(state):
             return True
         if self.has_hit:
-            puck_vel = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
+            puck_vel = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_LIN_VEL)[:2]
             if np.linalg.norm(puck_vel) < 0.01:
                 return True
         return self.has_bounce
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py b/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
index 9c5c96e..a244254 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/prepare.py
@@ -136,13 +136,13 @@ class AirHockeyPrepareBullet(AirHockeySingleBullet):
             return True
         if self.sub_problem == "side":
             if self.has_hit:
-                puck_pos = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_POS)[:2]
+                puck_pos = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)[:2]
                 if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                     return True
             return self.has_bounce
         else:
             if self.has_hit:
-                puck_pos = self.get_sim_state(self._state, "puck", PyBulletObservationType.BODY_POS)[:2]
+                puck_pos = self.get_sim_state(state, "puck", PyBulletObservationType.BODY_POS)[:2]
                 if puck_pos[0] > 0 or abs(puck_pos[1]) < 0.01:
                     return True
             return False
-- 
2.43.0


From 04d3c54c302e5565919f9263ca2efa1409481d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:52 +0000
Subject: [PATCH 94/94] fix: low-pass filter of the velocities observed in the
 PyBullet air hockey

---
 .../environments/pybullet_envs/air_hockey/double.py | 13 ++++++++++---
 .../environments/pybullet_envs/air_hockey/single.py | 10 ++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
index 93a595f..77bf1b9 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/double.py
@@ -24,6 +24,12 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
         self._change_dynamics()
         self._disable_collision()
 
+    def reset(self, state=None):
+        # The low-pass filter of the velocities starts anew at every episode
+        self.obs_prev = None
+
+        return super().reset(state)
+
     def _modify_mdp_info(self, mdp_info):
         """
         Robot 1:
@@ -77,10 +83,11 @@ class AirHockeyDoubleBullet(AirHockeyBaseBullet):
             robot_vel[2] = self.get_sim_state(state, self.agents[i]['name'] + "/joint_3",
                                               PyBulletObservationType.JOINT_VEL)
 
-            if self.obs_delay:
+            if self.obs_delay and self.obs_prev is not None:
                 alpha = 0.5
-                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[i][3:6]
-                robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[i][9:12]
+                obs_prev = self.obs_prev[i * 11:(i + 1) * 11]
+                puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * obs_prev[2:5]
+                robot_vel = alpha * robot_vel + (1 - alpha) * obs_prev[8:11]
 
             obs[i * 11:(i+1) * 11] = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
         self.obs_prev = obs
diff --git a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
index 8a46384..d583db9 100644
--- a/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
+++ b/mushroom_rl/environments/pybullet_envs/air_hockey/single.py
@@ -32,6 +32,12 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         self._change_dynamics()
         self._disable_collision()
 
+    def reset(self, state=None):
+        # The low-pass filter of the velocities starts anew at every episode
+        self.obs_prev = None
+
+        return super().reset(state)
+
     def _modify_mdp_info(self, mdp_info):
         """
         puck position indexes: [0, 1]
@@ -71,9 +77,9 @@ class AirHockeySingleBullet(AirHockeyBaseBullet):
         robot_vel[2] = self.get_sim_state(state, self.agents[0]['name'] + "/joint_3",
                                           PyBulletObservationType.JOINT_VEL)
 
-        if self.obs_delay:
+        if self.obs_delay and self.obs_prev is not None:
             alpha = 0.5
-            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:6]
+            puck_vel_2d = alpha * puck_vel_2d + (1 - alpha) * self.obs_prev[2:5]
             robot_vel = alpha * robot_vel + (1 - alpha) * self.obs_prev[8:11]
 
         self.obs_prev = np.concatenate([puck_pose_2d, puck_vel_2d, robot_pos, robot_vel])
-- 
2.43.0

