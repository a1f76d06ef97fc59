#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, claimed=True, observe=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


P("P01", "Replay stores exactly the consecutive n-step windows of each episode",
  "For every interleaving of transitions from any number of environments, with episodes that terminate or are interrupted anywhere, a (prioritized) n-step replay buffer holds exactly one experience per transition: that transition followed by its successors in the same episode of the same environment, up to n transitions or the episode's end, with every field as given. Windows never mix episodes or environments, nothing is lost, duplicated or reordered, and with a capacity only the oldest experiences are dropped. Saving and reloading a buffer preserves the stored experiences and its capacity.",
  ["histories", "configurations"], "all histories of append/stop/save/load over several environments, all terminal patterns, all n and capacities",
  "tests append one or two short fixed episodes for one n; they do not range over interleavings of environments, interrupts and overflows",
  ["pfrl/replay_buffers/replay_buffer.py", "pfrl/replay_buffers/prioritized.py", "pfrl/collections/random_access_queue.py"],
  [("n-step accumulation", "pfrl/replay_buffers/replay_buffer.py:ReplayBuffer.append"), ("interrupt flush", "pfrl/replay_buffers/replay_buffer.py:ReplayBuffer.stop_current_episode")])

P("P02", "Batched experiences carry the discounted n-step return and bootstrap data",
  "For every batch of sampled experiences of any mixture of lengths, the batch given to the learner has, per experience, the first state and action, the sum of gamma^i times the i-th reward, gamma raised to the number of transitions as the discount, the last next-state (and next action when all have one), and a terminal flag set iff some transition of the window is terminal. For batches of whole sequences, per-transition values are laid out time-major over sequences sorted by decreasing length, with each sequence's own first recurrent states.",
  ["inputs", "configurations"], "all reward/flag/gamma values and all window and sequence lengths up to the bound",
  "tests compare a few fixed numeric batches",
  ["pfrl/replay_buffer.py", "pfrl/utils/recurrent.py", "pfrl/utils/batch_states.py"],
  [("window batching", "pfrl/replay_buffer.py:batch_experiences"), ("sequence batching", "pfrl/replay_buffer.py:batch_recurrent_experiences")])

P("P03", "Episodic replay keeps and evicts whole episodes and samples contiguous parts",
  "After any history of transitions and interruptions from several environments, an episodic replay buffer holds exactly the most recent completed episodes, each intact and in order, and its transition view holds exactly the transitions of those episodes; when the number of stored transitions would exceed the capacity, whole oldest episodes are evicted until it fits. Sampled (sub)episodes are distinct, contiguous, at most the requested length, and of full length whenever the episode is long enough.",
  ["histories", "configurations"], "all histories of append/stop over several environments, capacities, sampling outcomes",
  "tests fill a buffer with fixed-length episodes from one environment",
  ["pfrl/replay_buffers/episodic.py", "pfrl/replay_buffers/prioritized_episodic.py", "pfrl/replay_buffer.py"],
  [("episode eviction", "pfrl/replay_buffers/episodic.py:EpisodicReplayBuffer.stop_current_episode"), ("subsequence", "pfrl/replay_buffer.py:random_subseq")])

P("P04", "The random-access queue is a bounded FIFO list with exact sampling",
  "For every sequence of operations, the random-access queue behaves as a plain list: append/extend at the back dropping from the front beyond its maximum length, pop from the front, read and write at any valid positive or negative index, IndexError for any other index or an empty pop, iteration and length in order. Drawing k items without replacement returns k items at pairwise distinct positions whatever the random source yields, and is refused when k exceeds the population.",
  ["histories", "inputs"], "all operation histories, all indices, all outcomes of the random source",
  "tests run one random operation stream; the rejection branch of the sampler depends on rare repeated draws",
  ["pfrl/collections/random_access_queue.py", "pfrl/utils/random.py"],
  [("two-stack queue", "pfrl/collections/random_access_queue.py:RandomAccessQueue"), ("distinct draws", "pfrl/utils/random.py:sample_n_k")])

P("P05", "Prioritized memory aggregates always match its live priorities",
  "After any history of insertions, evictions, priority updates and removals, the total and the minimum maintained by the prioritized memory equal the sum and the minimum of the priorities of exactly the items currently stored, with item i's data still associated with item i's priority. New items enter with the given priority, or else with the largest priority ever assigned, and a bounded memory drops its oldest item first.",
  ["histories", "inputs"], "all histories of append/pop/update with arbitrary real priorities",
  "tests use random small sequences of fixed length; the tree's shape depends on the whole history",
  ["pfrl/collections/prioritized.py"],
  [("segment trees over a sliding window", "pfrl/collections/prioritized.py:TreeQueue"), ("priority protocol", "pfrl/collections/prioritized.py:PrioritizedBuffer")])

P("P06", "Prioritized sampling draws by priority mass and weights it correctly",
  "For all positive priorities and every outcome of the random source, prioritized sampling returns distinct items (unless it mixes uniform draws without awaiting new priorities), picks the item whose cumulative-priority interval contains the drawn point, and reports each item's probability as its share of the total priority (mixed with the uniform share when a uniform ratio is used) together with the smallest such probability. Importance weights equal (N p)^-beta, divided by the largest weight of the batch or memory when normalization is on so that they never exceed 1, with beta rising linearly to 1. Updated priorities are (clipped error + eps)^alpha and are assigned to exactly the items last sampled, in order.",
  ["inputs", "histories"], "all priorities, random draws, errors, alpha/beta/eps settings, batch sizes up to the bound",
  "tests check empirical frequencies of a few priority vectors",
  ["pfrl/collections/prioritized.py", "pfrl/replay_buffers/prioritized.py", "pfrl/replay_buffers/prioritized_episodic.py"],
  [("mass descent", "pfrl/collections/prioritized.py:SumTreeQueue.prioritized_sample"), ("importance weights", "pfrl/replay_buffers/prioritized.py:PriorityWeightError")])

P("P07", "Persistent replay recovers what was stored, in order, after any stop",
  "Whenever a persistent queue or replay buffer is reopened after being closed or after the process was killed at any point of an append (including the switch to a new data file), it yields every item whose append had returned (the newest ones up to its maximum length), in append order, possibly followed by the one item being written, and never corrupted, duplicated or reordered data; appending then continues normally. While open it behaves exactly like the in-memory queue of the same maximum length. A queue opened on top of an ancestor additionally starts with the ancestor's most recent items, as many as fit.",
  ["crash_points", "histories"], "all append/reopen histories, all crash points inside a write (any prefix of the bytes written since the last flush), all maximum lengths and ancestor sizes up to the bound",
  "tests close and reopen cleanly a few times; no test stops inside a write",
  ["pfrl/collections/persistent_collections.py", "pfrl/replay_buffers/persistent.py"],
  [("data before index", "pfrl/collections/persistent_collections.py:_VarChunk.append"), ("ancestor reload", "pfrl/collections/persistent_collections.py:PersistentRandomAccessQueue")])

P("P08", "Learning updates and target synchronization follow the configured schedule",
  "For every configuration and every step number, the learner is updated iff the replay buffer has reached its start size (and, for episodic updates, enough episodes) and the step is a multiple of the update interval, exactly the configured number of times with the configured batch size; target networks are synchronized at exactly the multiples of the target update interval; delayed policy updates happen at exactly the configured fraction of critic updates.",
  ["histories", "configurations"], "all buffer sizes, intervals, repetition counts and step sequences up to the bound",
  "tests check that learning progresses, not when updates happen",
  ["pfrl/replay_buffer.py", "pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
  [("update gate", "pfrl/replay_buffer.py:ReplayUpdater.update_if_necessary"), ("target sync", "pfrl/agents/dqn.py:DQN._batch_observe_train")])

P("P09", "Single-environment training runs exactly the requested steps with the right protocol",
  "For every environment behaviour, training performs exactly the remaining number of environment steps (fewer only when a success score is reached), feeds each observation to the agent in order, reports each reward, next observation, done flag and an interruption flag that is set iff the episode hits the maximum length or the environment asks for a reset, and resets the environment exactly when an episode ends and training continues. Checkpoints are written at the configured frequency, the final agent is saved once at the end, step hooks see every step number, evaluation is offered after each episode end, and an exception still leaves a saved agent.",
  ["histories", "configurations"], "all done/reset/exception patterns, step offsets, episode limits and checkpoint frequencies up to the bound",
  "tests use a few mocked rollouts",
  ["pfrl/experiments/train_agent.py"],
  [("training loop", "pfrl/experiments/train_agent.py:train_agent"), ("driver", "pfrl/experiments/train_agent.py:train_agent_with_evaluation")])

P("P10", "Batch training keeps per-environment episodes separate and counts every step",
  "For every pattern of episode ends across parallel environments, batch training advances the step count by the number of environments per iteration until the requested total, passes each environment's own reward, next observation, done and interruption flags to the agent at that environment's index, resets exactly the environments whose episode ended, and counts each finished episode once. Checkpoints and step hooks occur for every step number in order, and the final agent is saved at the end.",
  ["histories", "configurations"], "all per-environment done/reset patterns, numbers of environments, step totals, episode limits up to the bound",
  "tests use fixed-length toy environments",
  ["pfrl/experiments/train_agent_batch.py"],
  [("batch loop", "pfrl/experiments/train_agent_batch.py:train_agent_batch")])

P("P11", "Asynchronous training counts every step once and stops cleanly under any schedule",
  "Whatever the interleaving of worker processes, each environment step of any worker increments the shared step counter exactly once and gets its own consecutive number; every worker goes on until its first step numbered at or beyond the requested total (or until training is stopped), so the total is reached and overshot by at most one step per other worker, and exactly one worker saves the final agent. At most one evaluation runs per evaluation interval, the best score is the maximum over all workers and the agent saved as best is the one that scored it; a success saves that agent and stops every worker after at most one more step. A failing first worker saves its agent and its exception propagates; an exception signal makes the first worker save and end all workers within one step.",
  ["schedules", "configurations"], "all interleavings at shared-memory operations of up to 3 workers, all episode-end patterns up to the bound",
  "one run observes one schedule; the asynchronous tests do not even pass here",
  ["pfrl/experiments/train_agent_async.py", "pfrl/experiments/evaluator.py", "pfrl/utils/async_.py"],
  [("worker loop", "pfrl/experiments/train_agent_async.py:train_loop"), ("evaluation ticket", "pfrl/experiments/evaluator.py:AsyncEvaluator")])

P("P12", "Evaluation scores are the returns of the requested complete episodes",
  "For every environment behaviour, evaluating for n episodes returns exactly n scores, each the sum of rewards of one complete episode (ended by done, by an environment reset request, or by the maximum length), and with several environments the episodes are the first n by start order regardless of how long each lasts; evaluating for n steps never exceeds the step budget and counts each completed episode once. The agent is evaluated in evaluation mode only, observes every transition, and is back in its previous mode afterwards; summary statistics are the mean, median, deviation, maximum and minimum of those scores.",
  ["histories", "inputs"], "all reward values, episode-end patterns, numbers of environments, episode/step budgets up to the bound",
  "tests use a few scripted environments",
  ["pfrl/experiments/evaluator.py"],
  [("rollout", "pfrl/experiments/evaluator.py:_run_episodes"), ("batched rollout", "pfrl/experiments/evaluator.py:_batch_run_episodes"), ("statistics", "pfrl/experiments/evaluator.py:eval_performance")])

P("P13", "Evaluations happen once per interval and the best agent is the one kept",
  "For any increasing sequence of step numbers, an evaluation runs at the first opportunity at or after each multiple of the evaluation interval beyond the last one and never twice for the same interval. The best score so far is the maximum of all evaluation means, the saved best agent is the agent as it was at that evaluation, and every evaluation adds exactly one record in step order.",
  ["histories", "configurations"], "all step sequences, intervals, offsets and scores up to the bound",
  "tests check a handful of step numbers",
  ["pfrl/experiments/evaluator.py"],
  [("interval arithmetic", "pfrl/experiments/evaluator.py:Evaluator.evaluate_if_necessary"), ("best tracking", "pfrl/experiments/evaluator.py:Evaluator.evaluate_and_update_max_score")])

P("P14", "Q-learning agents regress to their published targets without leaking gradients",
  "For all rewards, discounts, terminal flags, actions and network outputs, each discrete value-based agent's loss is its specified (clipped) error between the chosen action's value and its published target: plain and double Q-learning, (double) persistent and plain advantage learning, and dynamic policy programming. Terminal transitions never bootstrap, n-step windows bootstrap with their own discount, importance weights multiply per-sample losses, reported errors are the absolute differences, and no gradient flows into the target.",
  ["inputs", "configurations"], "all real network outputs, rewards, discounts, flags and weights for batches and action counts up to the bound",
  "tests compare a few numeric cases or only check that training improves",
  ["pfrl/agents/dqn.py", "pfrl/agents/double_dqn.py", "pfrl/agents/al.py", "pfrl/agents/pal.py", "pfrl/agents/double_pal.py", "pfrl/agents/dpp.py"],
  [("targets", "pfrl/agents/dqn.py:DQN._compute_target_values"), ("loss", "pfrl/agents/dqn.py:compute_value_loss")])

P("P15", "Distributional targets conserve probability and losses match their definitions",
  "Projecting any categorical distribution through reward and discount onto the fixed support yields non-negative probabilities that sum to one and preserve the mean of the clipped atoms; categorical agents minimize the cross entropy to that projection of the greedy (or double-greedy) next action's distribution, collapsing to the reward at terminals. Quantile agents minimize the quantile Huber loss between every predicted quantile and every target sample with the correct quantile level, again without bootstrapping at terminals.",
  ["inputs", "configurations"], "all probabilities, rewards, discounts, flags, quantile levels for supports, batches and sample counts up to the bound",
  "tests check hand-picked projections",
  ["pfrl/agents/categorical_dqn.py", "pfrl/agents/categorical_double_dqn.py", "pfrl/agents/iqn.py"],
  [("projection", "pfrl/agents/categorical_dqn.py:_apply_categorical_projection"), ("quantile Huber", "pfrl/agents/iqn.py:compute_eltwise_huber_quantile_loss")])

P("P16", "Continuous-control critics and actors optimize their published objectives",
  "For all sampled transitions and network outputs, DDPG, TD3 and SAC regress every critic to reward plus the transition's own discount times the next value (target policy for DDPG, minimum of two target critics with clipped smoothing noise for TD3, minimum of two target critics minus temperature times log-probability for SAC) with no bootstrapping at terminals; actors ascend the critic (entropy-regularized for SAC), and the temperature moves toward the entropy target. Each optimizer step changes only its own network.",
  ["inputs", "configurations"], "all rewards, discounts, flags, critic/actor outputs and noise for batches up to the bound",
  "tests run short trainings and check only learning signals",
  ["pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py"],
  [("DDPG critic loss", "pfrl/agents/ddpg.py:DDPG.compute_critic_loss"), ("TD3 update", "pfrl/agents/td3.py:TD3.update_q_func"), ("SAC update", "pfrl/agents/soft_actor_critic.py:SoftActorCritic.update_q_func")])

P("P17", "Generalized advantages and value targets are exact on every episode",
  "For every trajectory, gamma and lambda, the advantage of each step is the (gamma lambda)-discounted sum of the one-step temporal-difference errors to the end of the stored episode, bootstrapping from the value of the next state unless that step is terminal, and the value target is advantage plus value. Every transition collected in training is used in exactly one policy update, inside its own environment's episode, and splitting long episodes into bounded sequences keeps order and loses nothing. With an observation normalizer, every observation the networks see is normalized exactly once, and the normalizer learns each update's states exactly once.",
  ["inputs", "histories"], "all rewards, values, flags, gamma, lambda, episode partitions across environments up to the bound",
  "tests compare a few hand-made episodes",
  ["pfrl/agents/ppo.py", "pfrl/agents/trpo.py"],
  [("GAE", "pfrl/agents/ppo.py:_add_advantage_and_value_target_to_episode"), ("dataset bookkeeping", "pfrl/agents/ppo.py:PPO._batch_observe_train")])

P("P18", "On-policy actor-critic returns respect episode boundaries and discounting",
  "For every rollout of rewards, values and episode ends, A2C's n-step and generalized-advantage returns, A3C's bootstrapped returns, and REINFORCE's returns equal their recursive definitions: rewards are discounted within an episode only, nothing flows across an episode end, and an unfinished rollout bootstraps from the value of the state that follows it. The actor, critic and entropy losses combine them with the configured coefficients and treat the advantage as a constant.",
  ["inputs", "histories"], "all rewards, values, end patterns, gamma, lambda, rollout lengths and environment counts up to the bound",
  "tests only check that training succeeds",
  ["pfrl/agents/a2c.py", "pfrl/agents/a3c.py", "pfrl/agents/reinforce.py"],
  [("A2C returns", "pfrl/agents/a2c.py:A2C._compute_returns"), ("A3C update", "pfrl/agents/a3c.py:A3C.update"), ("REINFORCE", "pfrl/agents/reinforce.py:REINFORCE.accumulate_grad")])

P("P19", "PPO optimizes the clipped objective over complete passes of the data",
  "For all probability ratios, advantages, values and targets, PPO's loss is the negative mean of the minimum of the unclipped and clipped surrogate, plus the weighted value error (maximum of clipped and unclipped when value clipping is on), minus the weighted entropy. For feed-forward models every epoch visits every collected transition at least once and no more than the minibatch rounding requires, in minibatches of the configured size; for recurrent models the minibatches of an epoch are disjoint, hold exactly the configured number of items taken contiguously from episodes, and drop fewer items than one minibatch.",
  ["inputs", "configurations"], "all ratios, advantages, values, dataset and minibatch sizes, epochs and shuffles up to the bound",
  "tests check learning, and the loss on a few fixed tensors",
  ["pfrl/agents/ppo.py"],
  [("loss", "pfrl/agents/ppo.py:PPO._lossfun"), ("minibatches", "pfrl/agents/ppo.py:_yield_minibatches")])

P("P20", "Explorers follow their schedules and never produce out-of-range choices",
  "For every step number and configuration, linear decay goes from the start to the end value exactly over the decay steps and stays there, exponential decay is max(start * decay^t, end), and epsilon-greedy returns the random action iff the draw falls below the current epsilon and the greedy action otherwise. Additive Gaussian noise is the greedy action plus scaled noise clipped to the action bounds, Ornstein-Uhlenbeck noise follows its recursion, and Boltzmann exploration samples from the softmax of values over temperature.",
  ["inputs", "configurations"], "all step numbers, epsilons, decay lengths, random draws, noise and bounds",
  "tests sample a few steps and check empirical frequencies",
  ["pfrl/explorers/epsilon_greedy.py", "pfrl/explorers/additive_gaussian.py", "pfrl/explorers/additive_ou.py", "pfrl/explorers/boltzmann.py"],
  [("epsilon schedules", "pfrl/explorers/epsilon_greedy.py"), ("noise", "pfrl/explorers/additive_ou.py")])

P("P21", "Action-value objects are self-consistent",
  "For all network outputs, the greedy action of an action-value object attains its reported maximum and no other action evaluates higher (for quadratic values, within the feasible box for diagonal curvature), the value of any action matches its definition (expectation over atoms or quantiles for distributional values, the quadratic form for continuous values), advantages are values minus the maximum, and indexing a batch commutes with every query.",
  ["inputs", "configurations"], "all network outputs, actions and batch indices up to the bound",
  "tests check random samples",
  ["pfrl/action_value.py"],
  [("discrete", "pfrl/action_value.py:DiscreteActionValue"), ("distributional", "pfrl/action_value.py:DistributionalDiscreteActionValue"), ("quadratic", "pfrl/action_value.py:QuadraticActionValue")])

P("P22", "Parameter synchronization copies or mixes every entry exactly",
  "Hard synchronization makes every parameter and buffer of the target equal to the source; soft synchronization with rate tau makes every floating-point entry (1 - tau) times the old target plus tau times the source and every other entry equal to the source. The source is never modified, later source changes do not reach the target, and gradient copies are exact with absent gradients staying absent.",
  ["inputs", "histories"], "all parameter values and tau, all repetitions",
  "tests use fixed linear layers and tau values",
  ["pfrl/utils/copy_param.py"],
  [("hard and soft copy", "pfrl/utils/copy_param.py")])

P("P23", "Agents record exactly what happened and evaluation leaves training untouched",
  "For every sequence of training steps in any number of environments, off-policy agents store each transition once with the state acted on, the action taken, the observed reward, next state and termination flag, tagged by its environment, never linking across an episode end; an interrupted episode is closed but not marked terminal. Acting and observing in evaluation mode stores nothing, updates nothing, does not advance the training step count, and leaves the recurrent state of training unchanged: evaluation has a recurrent state of its own, fresh at each episode's start, and networks act in evaluation mode and are put back into the mode they were in.",
  ["histories"], "all interleavings of act/observe with done/reset flags over several environments, with evaluation phases anywhere",
  "tests check one environment and short runs",
  ["pfrl/agents/dqn.py", "pfrl/agents/ddpg.py", "pfrl/agents/td3.py", "pfrl/agents/soft_actor_critic.py", "pfrl/agent.py"],
  [("transition recording", "pfrl/agents/dqn.py:DQN._batch_observe_train"), ("mode switch", "pfrl/agent.py:Agent.eval_mode")])

P("P24", "Environment wrappers transform only what they promise, in every episode",
  "For every underlying environment behaviour, wrappers keep the step/reset protocol: time limits signal a reset exactly at the limit without marking termination, frame stacks hold the last k frames of the current episode only, frame skipping sums rewards and takes the pixel maximum of the last two frames actually seen, life-loss episodes end on lost lives and truly reset only at game over, reward wrappers scale or clip exactly, action wrappers map the normalized box onto the original box and random actions replace the given one with the configured probability. Observations, rewards and flags not mentioned pass through unchanged.",
  ["histories", "inputs"], "all reward, done, info and observation sequences up to the bound",
  "tests use scripted environments",
  ["pfrl/wrappers/atari_wrappers.py", "pfrl/wrappers/continuing_time_limit.py", "pfrl/wrappers/scale_reward.py", "pfrl/wrappers/normalize_action_space.py", "pfrl/wrappers/randomize_action.py", "pfrl/wrappers/vector_frame_stack.py", "pfrl/wrappers/cast_observation.py", "pfrl/utils/env_modifiers.py"],
  [("Atari wrappers", "pfrl/wrappers/atari_wrappers.py"), ("time limit", "pfrl/wrappers/continuing_time_limit.py:ContinuingTimeLimit.step")])

P("P25", "Vector environments step and reset each environment independently",
  "For any number of environments and any reset mask, a vector environment applies the i-th action to the i-th environment and returns the i-th result at index i, resets exactly the masked-out environments and returns the current observation of every environment, and a worker processes its requests in order and replies to each exactly once. The serial and multi-process variants are indistinguishable.",
  ["histories", "configurations"], "all action/mask sequences and environment counts up to the bound",
  "tests run a few random masks",
  ["pfrl/envs/serial_vector_env.py", "pfrl/envs/multiprocess_vector_env.py", "pfrl/wrappers/vector_frame_stack.py"],
  [("serial", "pfrl/envs/serial_vector_env.py:SerialVectorEnv"), ("multi-process", "pfrl/envs/multiprocess_vector_env.py:MultiprocessVectorEnv")])

P("P26", "Recurrent state handling keeps every sequence and its state aligned",
  "For any set of sequence lengths, flattening, packing, unpacking and splitting sequences are mutually inverse and keep each element's sequence and time position; concatenating per-sequence recurrent states and extracting the i-th one returns the original; masking zeroes exactly the selected entries. A recurrent composite model produces, for each sequence in a batch, the same outputs and final state as running that sequence alone step by step from the same initial state.",
  ["inputs", "configurations"], "all lengths, values, masks and nesting structures up to the bound",
  "tests cover a few fixed shapes",
  ["pfrl/utils/recurrent.py", "pfrl/nn/recurrent_sequential.py", "pfrl/nn/recurrent_branched.py"],
  [("recurrent utilities", "pfrl/utils/recurrent.py"), ("sequential composition", "pfrl/nn/recurrent_sequential.py:RecurrentSequential.forward")])

P("P27", "Running normalization equals the statistics of all data seen",
  "However the data is split into batches, the running mean and variance equal the population mean and variance of all samples seen so far; normalization subtracts that mean and divides by the square root of variance plus epsilon, clipping to the threshold if given; the inverse undoes it; learning stops once the configured amount has been seen; normalizing without update changes nothing; and loading statistics takes full effect. Reward filters subtract an exponential running average and, when normalizing, divide by the root of the running variance bounded below by eps.",
  ["inputs", "histories"], "all sample values and all splits into batches up to the bound",
  "tests compare random data for one split",
  ["pfrl/nn/empirical_normalization.py", "pfrl/utils/reward_filter.py"],
  [("incremental moments", "pfrl/nn/empirical_normalization.py:EmpiricalNormalization.experience")])

P("P28", "Saving and loading an agent restores its complete learned state",
  "For every agent class and all parameter, buffer and optimizer values, loading a saved agent into another instance of it restores every saved component: networks, target networks, optimizers, observation normalizer and temperature where present, recursively through nested savable objects and through data-parallel wrappers; for A3C and ACER also the shared model, so that the next synchronization keeps the loaded parameters (ACER's averaged policy is not saved). Saving writes only under the given directory and does not alter the agent; the loaded agent does not change when the saved one trains on; absent optional components are skipped, and a missing file is reported rather than silently skipped. DQN snapshots also restore the step and update counters and the replay buffer.",
  ["configurations", "histories"], "all agent classes, all parameter values, each single missing file",
  "tests round-trip a few agents and compare their actions on few inputs",
  ["pfrl/agent.py", "pfrl/agents/dqn.py", "pfrl/agents/a3c.py", "pfrl/agents/acer.py"],
  [("recursive save/load", "pfrl/agent.py:AttributeSavingMixin"), ("snapshots", "pfrl/agents/dqn.py:DQN.save_snapshot")])

P("P29", "Linearly annealed hyperparameters hit their endpoints and stay in between",
  "For every step number and every total of at least two steps, a linear-interpolation hook sets the value to the start value at the first step, the stop value at and after the last configured step, and the exact linear interpolation in between, calling its setter exactly once per step; pruning hooks report each evaluation exactly once and prune exactly when told to.",
  ["inputs", "histories"], "all steps, totals and endpoint values",
  "tests check a few steps of one configuration",
  ["pfrl/experiments/hooks.py", "pfrl/experiments/evaluation_hooks.py"],
  [("interpolation", "pfrl/experiments/hooks.py:LinearInterpolationHook")])

P("P30", "The trust-region step respects its constraint or leaves the policy unchanged",
  "For every gradient and every outcome of evaluating candidate policies, the line search tries step sizes 1, 1/2, 1/4, ... and leaves the policy at the first candidate that is finite, does not decrease the surrogate objective and keeps the divergence within the limit, or exactly at the old parameters if none qualifies. The search direction solves the damped curvature system (conjugate gradient is exact, up to its early-stopping tolerance, within as many iterations as dimensions, and returns zero for a zero right-hand side) and is scaled to the divergence limit. All observations used in updates go through the agent's own batch_states.",
  ["inputs"], "all objective/divergence outcomes, all positive-definite systems up to the bound",
  "tests only check that training improves, and one linear system",
  ["pfrl/agents/trpo.py", "pfrl/utils/conjugate_gradient.py"],
  [("line search", "pfrl/agents/trpo.py:TRPO._line_search"), ("conjugate gradient", "pfrl/utils/conjugate_gradient.py")])

P("P31", "Optimizer and gradient clipping perform their exact update rules",
  "For all parameters, gradients and hyperparameters, the RMSprop variant divides by the square root of the running second moment (minus squared mean when centered) plus epsilon inside the root, with its momentum and weight decay rules, identically in its shared-memory variant; the optimizer leaves the gradients as they were. Gradient clipping scales all gradients by one common factor, limit / (norm + 1e-6), when their joint norm exceeds the limit, and leaves smaller gradients unchanged, returning the norm before clipping.",
  ["inputs", "histories"], "all parameter/gradient values over several steps, all hyperparameters",
  "tests compare a few random vectors",
  ["pfrl/optimizers/rmsprop_eps_inside_sqrt.py", "pfrl/utils/clip_l2_grad_norm.py"],
  [("update rule", "pfrl/optimizers/rmsprop_eps_inside_sqrt.py:RMSpropEpsInsideSqrt.step"), ("norm clip", "pfrl/utils/clip_l2_grad_norm.py:clip_l2_grad_norm_")])

P("P32", "Policy heads and bounded outputs define the distributions they claim",
  "For all inputs, bounded outputs lie within [low, high] and follow loc + scale * tanh(x); Gaussian heads return the given mean with standard deviation equal to the square root of the configured variance function per dimension; triangular matrices are filled row by row with positive diagonals; the deterministic head returns its input as mean and as every sample, with zero variance; and the mode of every supported distribution is its most probable point (for transformed distributions, the transform of the base distribution's mode).",
  ["inputs", "configurations"], "all inputs, bounds and parameters up to the bound",
  "tests check sampled statistics",
  ["pfrl/policies/gaussian_policy.py", "pfrl/policies/deterministic_policy.py", "pfrl/functions/bound_by_tanh.py", "pfrl/functions/lower_triangular_matrix.py", "pfrl/distributions/delta.py", "pfrl/utils/mode_of_distribution.py"],
  [("heads", "pfrl/policies/gaussian_policy.py"), ("mode", "pfrl/utils/mode_of_distribution.py")])

P("P33", "Off-policy actor-critic with replay uses exact Retrace targets and truncation",
  "For every trajectory, behaviour and current policy probabilities and critic outputs, ACER's value targets follow the Retrace recursion with importance ratios truncated at one, its policy gradient truncates importance weights at the configured bound with the bias-correction term (over all actions, or over one sampled action when actions are continuous), and the trust-region adjustment is the projection that brings the linearized divergence from the average policy down to its limit and vanishes when the limit is not exceeded. Transitions are stored with their behaviour distribution, and the average policy moves towards the policy by 1 - alpha per update.",
  ["inputs"], "all rewards, probabilities, values and trajectory lengths up to the bound",
  "tests compare gradients statistically for single steps",
  ["pfrl/agents/acer.py"],
  [("Retrace", "pfrl/agents/acer.py:ACER.compute_loss"), ("truncated importance weighting", "pfrl/agents/acer.py:compute_policy_gradient_full_correction")])

P("P34", "Learners and actors of distributed Q-learning exchange every transition once",
  "In actor-learner training, under every interleaving of actors, poller and learner, each transition an actor observes enters the learner's replay buffer at most once, in order, in that actor's own stream, with terminations and interruptions marked, and is there before a later request of that actor returns. Operations on the replay buffer never overlap, and with prioritized replay the priority written back belongs to the transition that was sampled. The learner starts when enough is stored, performs no more than the requested number of updates, refreshes the actors' model every given number of updates and the target network at the effective step count, and calls its hooks once per update. Statistics, save and load requests are carried out before they return. A failure of the learner or poller is reported and leaves no actor waiting forever. Actors act on the shared model with their own exploration and recurrent state, as P23 demands of learning agents.",
  ["histories", "schedules"], "all interleavings of up to 2 actors, the poller and the learner up to the bound",
  "the actor-learner tests run one schedule",
  ["pfrl/agents/dqn.py", "pfrl/agents/state_q_function_actor.py"],
  [("polling", "pfrl/agents/dqn.py:DQN._poll_pipe"), ("learner", "pfrl/agents/dqn.py:DQN._learner_loop"), ("actor", "pfrl/agents/state_q_function_actor.py:StateQFunctionActor")])

NOT_APPLICABLE = {}


def main():
    have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "props")) if f.startswith("p") and f[1:-3].isdigit()}
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in PROPS:
        i = p["id"]
        if i in have and i not in NOT_APPLICABLE:
            checks.append(dict(
                property=i,
                quick_cmd="/opt/venv/bin/python check.py %s --tier quick" % i,
                thorough_cmd="/opt/venv/bin/python check.py %s --tier thorough" % i,
                technique="symbolic execution of the real code + z3 (bounded, path-exhaustive)",
                level="other",
                level_note="Holds for every value of the symbolic inputs on every path within the bounds listed in the evidence file; floats are reals; stubs and assumptions are listed there; outside the bounds nothing is claimed."))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "no check built yet")))
    m = dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na,
             notes="Every check imports pfrl from /repo's working tree on each run; nothing is cached between runs.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(checks), "checks,", len(na), "not applicable")


if __name__ == "__main__":
    main()
