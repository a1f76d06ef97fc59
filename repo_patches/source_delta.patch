From 44de9841d6153845b8fff423f386870a9f3a2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:21 +0000
Subject: [PATCH 01/23] fix: keep PrioritizedEpisodicReplayBuffer's transition
 view in step with its episodes

Transitions were stored as bare dicts (unlike every other buffer, whose
sample() yields lists of transitions), trimmed independently of episode
eviction, capacity was reported as None, and the remaining capacity was
forgotten by load().
---
 pfrl/replay_buffers/prioritized_episodic.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pfrl/replay_buffers/prioritized_episodic.py b/pfrl/replay_buffers/prioritized_episodic.py
index e31a748..eaabf5b 100644
--- a/pfrl/replay_buffers/prioritized_episodic.py
+++ b/pfrl/replay_buffers/prioritized_episodic.py
@@ -26,8 +26,8 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
         self.episodic_memory = PrioritizedBuffer(
             capacity=None, wait_priority_after_sampling=wait_priority_after_sampling
         )
-        self.memory = RandomAccessQueue(maxlen=capacity)
-        self.capacity_left = capacity
+        self.memory = RandomAccessQueue()
+        self.capacity = capacity
         self.default_priority_func = default_priority_func
         self.uniform_ratio = uniform_ratio
         self.return_sample_weights = return_sample_weights
@@ -66,12 +66,11 @@ class PrioritizedEpisodicReplayBuffer(EpisodicReplayBuffer, PriorityWeightError)
                 priority = self.default_priority_func(current_episode)
             else:
                 priority = None
-            self.memory.extend(current_episode)
+            self.memory.extend([transition] for transition in current_episode)
             self.episodic_memory.append(current_episode, priority=priority)
-            if self.capacity_left is not None:
-                self.capacity_left -= len(current_episode)
             self.current_episode[env_id] = []
-            while self.capacity_left is not None and self.capacity_left < 0:
+            while self.capacity is not None and len(self.memory) > self.capacity:
                 discarded_episode = self.episodic_memory.popleft()
-                self.capacity_left += len(discarded_episode)
+                for _ in range(len(discarded_episode)):
+                    self.memory.popleft()
         assert not self.current_episode[env_id]
-- 
2.43.0


From faa87c631d21a500b9534c57b573cd69dde52e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 02/23] fix: make PersistentRandomAccessQueue.popleft/extend
 match RandomAccessQueue

popleft() dropped the popped item and extend() with an iterator wrote the
items to disk but not to memory.
---
 pfrl/collections/persistent_collections.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index 8850977..c8f99fb 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -285,8 +285,7 @@ class PersistentRandomAccessQueue(object):
 
     def extend(self, xs):
         for x in xs:
-            self._append(x)
-        self.buffer.extend(xs)
+            self.append(x)
 
     def __iter__(self):
         return iter(self.buffer)
@@ -304,7 +303,7 @@ class PersistentRandomAccessQueue(object):
         return self.buffer.sample(n)
 
     def popleft(self):
-        self.buffer.popleft()
+        return self.buffer.popleft()
 
     def __len__(self):
         return len(self.buffer)
-- 
2.43.0


From 34d33cd9e1b2fcf36260d059345af24b9ca939ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:04 +0000
Subject: [PATCH 03/23] fix: load the newest ancestor data into
 PersistentRandomAccessQueue

An unbounded queue (maxlen=None) could not be opened on an ancestor, and
data of older ancestors could crowd out the ancestor's own newest data
because whole chunks were loaded regardless of how much was needed.
---
 pfrl/collections/persistent_collections.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pfrl/collections/persistent_collections.py b/pfrl/collections/persistent_collections.py
index c8f99fb..ed00bf0 100644
--- a/pfrl/collections/persistent_collections.py
+++ b/pfrl/collections/persistent_collections.py
@@ -382,15 +382,21 @@ class PersistentRandomAccessQueue(object):
                 length += len(list(reader.read_chunk_index(gen)))
                 gen += 1
 
-        if length < num_data_needed and meta["ancestor"] is not None:
-            self._load_ancestor(meta["ancestor"], num_data_needed - length)
+        if meta["ancestor"] is not None:
+            if num_data_needed is None:
+                self._load_ancestor(meta["ancestor"], None)
+            elif length < num_data_needed:
+                self._load_ancestor(meta["ancestor"], num_data_needed - length)
 
         for datadir in datadirs:
             reader = _ChunkReader(datadir, self.fs)
-            rank_data = []
-            maxlen = num_data_needed - len(self.buffer)
-            if maxlen <= 0:
-                break
+            maxlen = None
+            if num_data_needed is not None:
+                maxlen = num_data_needed - len(self.buffer)
+                if maxlen <= 0:
+                    break
+            # Chunks are read as a whole, so keep only the newest data needed
+            rank_data = RandomAccessQueue(maxlen=maxlen)
             _ = reader.read_chunks(maxlen, rank_data)
             if self.logger:
                 self.logger.info(
-- 
2.43.0


From e189f6a3904ee831d56ad5a7bd7273281240cccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:57 +0000
Subject: [PATCH 04/23] fix: bootstrap DDPG's n-step targets with the n-step
 discount

compute_critic_loss multiplied the bootstrap value by gamma even when the
replay buffer returns n-step experiences, whose discount is gamma**n.
---
 pfrl/agents/ddpg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 9319f54..2513b17 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -153,13 +153,14 @@ class DDPG(AttributeSavingMixin, BatchAgent):
         batch_terminal = batch["is_state_terminal"]
         batch_state = batch["state"]
         batch_actions = batch["action"]
+        batch_discount = batch["discount"]
         batchsize = len(batch_rewards)
 
         with torch.no_grad():
             assert not self.recurrent
             next_actions = self.target_policy(batch_next_state).sample()
             next_q = self.target_q_function((batch_next_state, next_actions))
-            target_q = batch_rewards + self.gamma * (
+            target_q = batch_rewards + batch_discount * (
                 1.0 - batch_terminal
             ) * next_q.reshape((batchsize,))
 
-- 
2.43.0


From 12182546bec00bde1020515c06e90e85e7c2de5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:57 +0000
Subject: [PATCH 05/23] fix: respect n_times_update in TD3

---
 pfrl/agents/td3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index e70e7e9..9a35cb1 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -128,7 +128,7 @@ class TD3(AttributeSavingMixin, BatchAgent):
             replay_buffer=replay_buffer,
             update_func=self.update,
             batchsize=minibatch_size,
-            n_times_update=1,
+            n_times_update=n_times_update,
             replay_start_size=replay_start_size,
             update_interval=update_interval,
             episodic_update=False,
-- 
2.43.0


From 979a611bd19c99d8875c080ae8e3dddd2bd11fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:57 +0000
Subject: [PATCH 06/23] fix: use the given batch_states in updates of DDPG, TD3
 and SAC

Only action selection used it; updates silently used the default.
---
 pfrl/agents/ddpg.py              | 8 +++++++-
 pfrl/agents/soft_actor_critic.py | 8 +++++++-
 pfrl/agents/td3.py               | 8 +++++++-
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/ddpg.py b/pfrl/agents/ddpg.py
index 2513b17..ba6a093 100644
--- a/pfrl/agents/ddpg.py
+++ b/pfrl/agents/ddpg.py
@@ -190,7 +190,13 @@ class DDPG(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
 
         self.critic_optimizer.zero_grad()
         self.compute_critic_loss(batch).backward()
diff --git a/pfrl/agents/soft_actor_critic.py b/pfrl/agents/soft_actor_critic.py
index 57f76ae..791862a 100644
--- a/pfrl/agents/soft_actor_critic.py
+++ b/pfrl/agents/soft_actor_critic.py
@@ -309,7 +309,13 @@ class SoftActorCritic(AttributeSavingMixin, BatchAgent):
 
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         self.update_policy_and_temperature(batch)
         self.sync_target_network()
diff --git a/pfrl/agents/td3.py b/pfrl/agents/td3.py
index 9a35cb1..3e5c78c 100644
--- a/pfrl/agents/td3.py
+++ b/pfrl/agents/td3.py
@@ -252,7 +252,13 @@ class TD3(AttributeSavingMixin, BatchAgent):
     def update(self, experiences, errors_out=None):
         """Update the model from experiences"""
 
-        batch = batch_experiences(experiences, self.device, self.phi, self.gamma)
+        batch = batch_experiences(
+            experiences,
+            self.device,
+            self.phi,
+            self.gamma,
+            batch_states=self.batch_states,
+        )
         self.update_q_func(batch)
         if self.q_func_n_updates % self.policy_update_delay == 0:
             self.update_policy(batch)
-- 
2.43.0


From 60234b51a4438643858e4f5feccab37785ab45b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:57 +0000
Subject: [PATCH 07/23] fix: copy non-float buffers in soft_copy_param

The value was only stored in the temporary state dict, never in the
target module.
---
 pfrl/utils/copy_param.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index c6887a9..eb7e93f 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -19,7 +19,7 @@ def soft_copy_param(target_link, source_link, tau):
         else:
             # Scalar type
             # Some modules such as BN has scalar value `num_batches_tracked`
-            target_dict[k] = source_value
+            target_value.copy_(source_value)
 
 
 def copy_grad(target_link, source_link):
-- 
2.43.0


From 3b90e8222cd42efaf58a2e6e51f75920462ec1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 08/23] fix: pass a built-in int seed to set_random_seed in
 train_agent_async

random.seed() of Python >= 3.11 rejects numpy integers, so every worker of
train_agent_async died before its first step.
---
 pfrl/experiments/train_agent_async.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index d8b3b40..c59147a 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -270,7 +270,8 @@ def train_agent_async(
         random_seeds = np.arange(processes)
 
     def run_func(process_idx):
-        random_seed.set_random_seed(random_seeds[process_idx])
+        # Array elements such as numpy.int64 are not accepted by random.seed
+        random_seed.set_random_seed(int(random_seeds[process_idx]))
 
         env = make_env(process_idx, test=False)
         if evaluator is None:
-- 
2.43.0


From 15b3b39e2169aa8d8a288a77c4133adab2564509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:18:57 +0000
Subject: [PATCH 09/23] fix: start the global step counter of train_agent_async
 from step_offset

step_offset is the time step from which training starts, but the counter
started from 0, so a resumed run took all the steps again and its step
numbers did not match the evaluation schedule.
---
 pfrl/experiments/train_agent_async.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/experiments/train_agent_async.py b/pfrl/experiments/train_agent_async.py
index c59147a..d8d2e60 100644
--- a/pfrl/experiments/train_agent_async.py
+++ b/pfrl/experiments/train_agent_async.py
@@ -222,7 +222,7 @@ def train_agent_async(
     # Prevent numpy from using multiple threads
     os.environ["OMP_NUM_THREADS"] = "1"
 
-    counter = mp.Value("l", 0)
+    counter = mp.Value("l", step_offset)
     episodes_counter = mp.Value("l", 0)
 
     if stop_event is None:
-- 
2.43.0


From 37ef0861c8c464ec6c48c30aefc5d0753d7b1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:33 +0000
Subject: [PATCH 10/23] fix: weight REINFORCE's log-probabilities by the
 rewards that follow each action

---
 pfrl/agents/reinforce.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/reinforce.py b/pfrl/agents/reinforce.py
index c34baeb..cfb3d70 100644
--- a/pfrl/agents/reinforce.py
+++ b/pfrl/agents/reinforce.py
@@ -140,7 +140,6 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
                 self.log_prob_sequences[-1] = []
                 self.entropy_sequences[-1] = []
             elif done:
-                self.reward_sequences[-1].append(reward)
                 if self.backward_separately:
                     self.accumulate_grad()
                     if self.n_backward == self.batchsize:
@@ -181,9 +180,9 @@ class REINFORCE(agent.AttributeSavingMixin, agent.Agent):
         for r_seq, log_prob_seq, ent_seq in zip(
             self.reward_sequences, self.log_prob_sequences, self.entropy_sequences
         ):
-            assert len(r_seq) - 1 == len(log_prob_seq) == len(ent_seq)
+            assert len(r_seq) == len(log_prob_seq) == len(ent_seq)
             # Convert rewards into returns (=sum of future rewards)
-            R_seq = np.cumsum(list(reversed(r_seq[1:])))[::-1]
+            R_seq = np.cumsum(list(reversed(r_seq)))[::-1]
             for R, log_prob, entropy in zip(R_seq, log_prob_seq, ent_seq):
                 loss = -R * log_prob - self.beta * entropy
                 losses.append(loss)
-- 
2.43.0


From c47a00220ccc4861f96bea56fec83330bb0c2f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:33 +0000
Subject: [PATCH 11/23] fix: allow decay_steps=0 at t=0 in
 LinearDecayEpsilonGreedy

The constructor accepts decay_steps=0, but selecting an action at t=0 then
divided by zero.
---
 pfrl/explorers/epsilon_greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/explorers/epsilon_greedy.py b/pfrl/explorers/epsilon_greedy.py
index c034d6a..6d82c50 100644
--- a/pfrl/explorers/epsilon_greedy.py
+++ b/pfrl/explorers/epsilon_greedy.py
@@ -69,7 +69,7 @@ class LinearDecayEpsilonGreedy(explorer.Explorer):
         self.epsilon = start_epsilon
 
     def compute_epsilon(self, t):
-        if t > self.decay_steps:
+        if t >= self.decay_steps:
             return self.end_epsilon
         else:
             epsilon_diff = self.end_epsilon - self.start_epsilon
-- 
2.43.0


From 778ea163cc07d317bec07795e1ed091a7718b5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:41 +0000
Subject: [PATCH 12/23] fix: soft-copy floating-point entries of every dtype

soft_copy_param skipped bfloat16 entries: they were not mixed with rate tau.
---
 pfrl/utils/copy_param.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfrl/utils/copy_param.py b/pfrl/utils/copy_param.py
index eb7e93f..a47a55c 100644
--- a/pfrl/utils/copy_param.py
+++ b/pfrl/utils/copy_param.py
@@ -1,6 +1,3 @@
-import torch
-
-
 def copy_param(target_link, source_link):
     """Copy parameters of a link to another link."""
     target_link.load_state_dict(source_link.state_dict())
@@ -12,7 +9,7 @@ def soft_copy_param(target_link, source_link, tau):
     source_dict = source_link.state_dict()
     for k, target_value in target_dict.items():
         source_value = source_dict[k]
-        if source_value.dtype in [torch.float32, torch.float64, torch.float16]:
+        if source_value.is_floating_point():
             assert target_value.shape == source_value.shape
             target_value.mul_(1 - tau)
             target_value.add_(tau * source_value)
-- 
2.43.0


From 4d183f618b4874405ef75b42d7c79784c28e854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 13/23] fix: return the new episode's observation from
 FireResetEnv.reset

When the second fire action ended the episode, the env was reset but the
observation of the ended episode was returned.
---
 pfrl/wrappers/atari_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2a49779..97b0669 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -68,7 +68,7 @@ class FireResetEnv(gym.Wrapper):
             self.env.reset(**kwargs)
         obs, _, done, info = self.env.step(2)
         if done or info.get("needs_reset", False):
-            self.env.reset(**kwargs)
+            obs = self.env.reset(**kwargs)
         return obs
 
     def step(self, ac):
-- 
2.43.0


From 470c36a09f2243a24fc2ab6d5fd076f99550aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 14/23] fix: do not return stale frames from MaxAndSkipEnv

When an episode ended or hit its time limit before the last two skipped
frames, the returned observation was the maximum of frames of an earlier
step or episode. With time limits it is used for bootstrapping.
---
 pfrl/wrappers/atari_wrappers.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 97b0669..2196037 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -129,10 +129,9 @@ class MaxAndSkipEnv(gym.Wrapper):
         done = None
         for i in range(self._skip):
             obs, reward, done, info = self.env.step(action)
-            if i == self._skip - 2:
-                self._obs_buffer[0] = obs
-            if i == self._skip - 1:
-                self._obs_buffer[1] = obs
+            # keep the last two frames seen in this step
+            self._obs_buffer[0] = obs if i == 0 else self._obs_buffer[1]
+            self._obs_buffer[1] = obs
             total_reward += reward
             if done or info.get("needs_reset", False):
                 break
-- 
2.43.0


From 3acc6112bd7a85fbca43e02f74007b62d6bb173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 15/23] fix: reset the env if EpisodicLifeEnv's no-op step ends
 the game

The end of the episode was ignored, so that the next episode started on a
finished env.
---
 pfrl/wrappers/atari_wrappers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/wrappers/atari_wrappers.py b/pfrl/wrappers/atari_wrappers.py
index 2196037..4f46eff 100644
--- a/pfrl/wrappers/atari_wrappers.py
+++ b/pfrl/wrappers/atari_wrappers.py
@@ -110,7 +110,10 @@ class EpisodicLifeEnv(gym.Wrapper):
             obs = self.env.reset(**kwargs)
         else:
             # no-op step to advance from terminal/lost life state
-            obs, _, _, _ = self.env.step(0)
+            obs, _, done, info = self.env.step(0)
+            if done or info.get("needs_reset", False):
+                # the no-op step ended the game
+                obs = self.env.reset(**kwargs)
         self.lives = self.env.unwrapped.ale.lives()
         return obs
 
-- 
2.43.0


From 6dbea3a549bbef59135f30228965db07a548521d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:46 +0000
Subject: [PATCH 16/23] fix: expose the env's spec from SerialVectorEnv

It was the observation space.
---
 pfrl/envs/serial_vector_env.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pfrl/envs/serial_vector_env.py b/pfrl/envs/serial_vector_env.py
index 73104ad..aff4bf7 100644
--- a/pfrl/envs/serial_vector_env.py
+++ b/pfrl/envs/serial_vector_env.py
@@ -18,7 +18,6 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         self.last_obs = [None] * self.num_envs
         self.action_space = envs[0].action_space
         self.observation_space = envs[0].observation_space
-        self.spec = envs[0].observation_space
 
     def step(self, actions):
         results = [env.step(a) for env, a in zip(self.envs, actions)]
@@ -43,6 +42,10 @@ class SerialVectorEnv(pfrl.env.VectorEnv):
         for env in self.envs:
             env.close()
 
+    @property
+    def spec(self):
+        return self.envs[0].spec
+
     @property
     def num_envs(self):
         return len(self.envs)
-- 
2.43.0


From f632e1dcab0028b26f5df19f1c8f44d5db843cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 17/23] fix: clear EmpiricalNormalization's cache when loading
 its state

After loading statistics into a module that had been used, values were
normalized with the new mean but the old variance.
---
 pfrl/nn/empirical_normalization.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pfrl/nn/empirical_normalization.py b/pfrl/nn/empirical_normalization.py
index a49560e..92f1950 100644
--- a/pfrl/nn/empirical_normalization.py
+++ b/pfrl/nn/empirical_normalization.py
@@ -58,6 +58,11 @@ class EmpiricalNormalization(nn.Module):
 
         return self._cached_std_inverse
 
+    def _load_from_state_dict(self, *args, **kwargs):
+        super()._load_from_state_dict(*args, **kwargs)
+        # clear cache
+        self._cached_std_inverse = None
+
     def experience(self, x):
         """Learn input values without computing the output values of them"""
 
-- 
2.43.0


From 775ee0474304753318a45ecc5cfd7ea3dd449fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:50 +0000
Subject: [PATCH 18/23] fix: bound the variance of NormalizedRewardFilter from
 below by eps

It was bounded from above, so that rewards were divided by zero when they
had not varied (e.g. by the first reward if it is 0).
---
 pfrl/utils/reward_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfrl/utils/reward_filter.py b/pfrl/utils/reward_filter.py
index 9df735f..0720e46 100644
--- a/pfrl/utils/reward_filter.py
+++ b/pfrl/utils/reward_filter.py
@@ -12,7 +12,7 @@ class NormalizedRewardFilter(object):
         self.average_reward_squared *= 1 - self.tau
         self.average_reward_squared += self.tau * reward**2
         var = self.average_reward_squared - self.average_reward**2
-        stdev = min(var, self.eps) ** 0.5
+        stdev = max(var, self.eps) ** 0.5
         return self.scale * (reward - self.average_reward) / stdev
 
 
-- 
2.43.0


From 1373ebd0e75744579066e292cb52500c196611cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:39 +0000
Subject: [PATCH 19/23] fix: use the batch_states given to TRPO in its updates

---
 pfrl/agents/trpo.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pfrl/agents/trpo.py b/pfrl/agents/trpo.py
index 312185b..dd057a3 100644
--- a/pfrl/agents/trpo.py
+++ b/pfrl/agents/trpo.py
@@ -381,7 +381,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
 
     def _update_obs_normalizer(self, dataset):
         assert self.obs_normalizer
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         self.obs_normalizer.experience(states)
 
     def _update_vf(self, dataset):
@@ -396,7 +396,9 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         for batch in _yield_minibatches(
             dataset, minibatch_size=self.vf_batch_size, num_epochs=self.vf_epochs
         ):
-            states = batch_states([b["state"] for b in batch], self.device, self.phi)
+            states = self.batch_states(
+                [b["state"] for b in batch], self.device, self.phi
+            )
             if self.obs_normalizer:
                 states = self.obs_normalizer(states, update=False)
             vs_teacher = torch.as_tensor(
@@ -430,7 +432,7 @@ class TRPO(agent.AttributeSavingMixin, agent.BatchAgent):
         assert "adv" in dataset[0]
 
         # Use full-batch
-        states = batch_states([b["state"] for b in dataset], self.device, self.phi)
+        states = self.batch_states([b["state"] for b in dataset], self.device, self.phi)
         if self.obs_normalizer:
             states = self.obs_normalizer(states, update=False)
         actions = torch.as_tensor([b["action"] for b in dataset], device=self.device)
-- 
2.43.0


From cebc751ca9e6ae70320edbbbc3bc7f453ca2ca68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:39 +0000
Subject: [PATCH 20/23] fix: return zero from conjugate_gradient when the
 right-hand side is zero

---
 pfrl/utils/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pfrl/utils/conjugate_gradient.py b/pfrl/utils/conjugate_gradient.py
index 6ea0049..5b64cf9 100644
--- a/pfrl/utils/conjugate_gradient.py
+++ b/pfrl/utils/conjugate_gradient.py
@@ -21,6 +21,8 @@ def conjugate_gradient(A_product_func, b, tol=1e-10, max_iter=10):
     x = torch.zeros_like(b)
     r0 = b - A_product_func(x)
     p = r0
+    if torch.norm(r0) < tol:
+        return x
     for _ in range(max_iter):
         a = torch.matmul(r0, r0) / torch.matmul(A_product_func(p), p)
         x = x + p * a
-- 
2.43.0


From 823ff22fb4af2ff24e92c38be775d1581753b5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:36 +0000
Subject: [PATCH 21/23] fix: keep the replay buffer locked from prioritized
 sampling until the priorities are updated

---
 pfrl/agents/dqn.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index a05ea5a..e354215 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -679,8 +679,13 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                 else:
                     with replay_buffer_lock:
                         transitions = self.replay_buffer.sample(self.minibatch_size)
+                        if isinstance(self.replay_buffer, PrioritizedReplayBuffer):
+                            # The update writes back priorities by position, so
+                            # no transition can be added or evicted meanwhile
+                            self.update(transitions)
 
-                    self.update(transitions)
+                    if not isinstance(self.replay_buffer, PrioritizedReplayBuffer):
+                        self.update(transitions)
 
                 # Update the shared model. This can be expensive if GPU is used
                 # since this is a DtoH copy, so it is updated only at regular
-- 
2.43.0


From 4100dc9fd7eaf2b8fd1c3c12bd9440469215dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:53 +0000
Subject: [PATCH 22/23] fix: keep serving actors after an exception so that
 they can save the agent and exit

---
 pfrl/agents/dqn.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index e354215..7a0ac54 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -611,7 +611,7 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         if pipe.closed:
             return
         try:
-            while pipe.poll() and not exception_event.is_set():
+            while pipe.poll():
                 cmd, data = pipe.recv()
                 if cmd == "get_statistics":
                     assert data is None
@@ -725,7 +725,8 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
         exception_event: mp.synchronize.Event,
     ) -> None:
         # To stop this loop, call stop_event.set()
-        while not stop_event.is_set() and not exception_event.is_set():
+        # After an exception, actors still need replies to save the agent and exit
+        while not stop_event.is_set():
             time.sleep(1e-6)
             # Poll actors for messages
             for i, pipe in enumerate(pipes):
-- 
2.43.0


From 7b1159c9cd0f4a705df5d543b245d7247a204841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:53 +0000
Subject: [PATCH 23/23] fix: reply to an actor whose save or load request
 failed

---
 pfrl/agents/dqn.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pfrl/agents/dqn.py b/pfrl/agents/dqn.py
index 7a0ac54..81a5588 100644
--- a/pfrl/agents/dqn.py
+++ b/pfrl/agents/dqn.py
@@ -619,11 +619,17 @@ class DQN(agent.AttributeSavingMixin, agent.BatchAgent):
                         stats = self.get_statistics()
                     pipe.send(stats)
                 elif cmd == "load":
-                    self.load(data)
-                    pipe.send(None)
+                    try:
+                        self.load(data)
+                    finally:
+                        # Reply even on failure: the actor is waiting
+                        pipe.send(None)
                 elif cmd == "save":
-                    self.save(data)
-                    pipe.send(None)
+                    try:
+                        self.save(data)
+                    finally:
+                        # Reply even on failure: the actor is waiting
+                        pipe.send(None)
                 elif cmd == "transition":
                     with replay_buffer_lock:
                         if "env_id" not in data:
-- 
2.43.0

