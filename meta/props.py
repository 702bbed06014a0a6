prop('C01', 'Core runs exactly the requested interaction and fits exactly on schedule',
     'For every environment, agent and sequence of Core.learn/Core.evaluate calls, a run performs exactly the requested number of steps or complete episodes (or one episode per given initial state), starting with an environment reset, resetting exactly at every episode start and stopping environment and agent once at the end. '
     'Core.learn calls agent.fit exactly each time n_steps_per_fit steps or n_episodes_per_fit episodes have been collected since the previous fit of that run, with exactly the samples collected since then (and one theta per episode for episodic agents), followed by the fit callbacks in order, the step callback being called once per step; Core.evaluate never fits and returns exactly the samples of the run. '
     'Every observation, initial or successive, passes through every core preprocessor exactly once and in order.',
     ['histories', 'configurations'], 'all run sequences, quotas, episode lengths, horizons, numpy/torch environment and agent backends, stateless/stateful/episodic agents',
     'tests run a few fixed configurations; off-by-one errors need particular combinations of quota, fit period, episode length, horizon and earlier runs',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/_impl/core_logic.py', 'mushroom_rl/core/dataset.py'],
     [('run loop', 'Core._run, Core._step, Core._reset'), ('quota bookkeeping', 'CoreLogic'), ('fit and callbacks', 'Core.fit')],
     observe='environment reset/step/stop calls, agent.fit datasets, callbacks')
prop('C02', 'Every recorded transition is exactly what happened between agent and environment',
     'In every dataset produced by Core, row t holds the state the agent acted in, the action the environment executed, the reward, next state and absorbing flag it returned, last is true exactly when the state is absorbing or the horizon was reached, and within an episode next_state[t] equals state[t+1]. '
     'The policy receives the current (preprocessed) state, a stateful policy gets its own previous next_policy_state threaded through the episode and a fresh one from policy.reset() at every episode start, and agent.episode_start gets the initial state and reset info of each episode. '
     'An action planned by the agent through next_action is executed exactly once and never leaks into a new episode; core preprocessors change what is recorded and acted on, agent preprocessors only what the policy sees.',
     ['inputs', 'histories', 'configurations'], 'all environments (discrete/continuous, finite/infinite horizon, random absorbing patterns), policies, backends and runs',
     'tests compare a few final datasets; aliasing of buffers, wrong flags at truncation and stale policy state only show for particular histories',
     ['mushroom_rl/core/core.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py'],
     [('step recording', 'Core._step'), ('episode start', 'Core._reset'), ('action selection and backend conversion', 'Agent.draw_action')])
prop('C03', 'VectorCore keeps the trajectories of all parallel environments intact',
     'For every set of parallel environments with independent episode lengths, VectorCore.learn/evaluate runs exactly the requested number of complete episodes, or stops at the first parallel step that reaches the requested number of steps, resets an environment exactly when its episode ended, and never steps an environment past its end. '
     'Every fit (n_steps_per_fit a multiple of the number of environments, or n_episodes_per_fit) and every evaluation receives exactly the samples executed since the previous one, each once, with its own state, action, reward, flags, policy states and step info, as unbroken per-environment trajectories whose cut points are marked last, with one theta per complete episode in matching order. '
     'Observations are preprocessed exactly once and evaluate is not affected by an earlier learn.',
     ['histories', 'configurations', 'schedules'], 'all interleavings of episode ends over parallel environments, quotas, fit periods, backends and run sequences',
     'the tests use one environment set and one agent; masks, residual samples and flattening go wrong only for particular combinations of episode ends',
     ['mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/_impl/vectorized_core_logic.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/core/extra_info.py'],
     [('vectorized loop', 'VectorCore._run'), ('masks and quotas', 'VectorizedCoreLogic'), ('flattening', 'VectorizedDataset.flatten, clear')],
     note='known finding excluded by construction: n_steps_per_fit not a multiple of n_envs')
prop('C04', 'A Dataset behaves as an ordered sequence of transitions under every operation',
     'Under any history of append, slicing, integer-array and boolean indexing, get_view(copy=True/False), concatenation, copy, clear, from_array, select_first_episodes and select_random_samples, a Dataset (numpy, torch or list backend, stateless or stateful) holds exactly the same rows in the same order as a plain list of transitions would, every field (including policy states and step info) staying with its row. '
     'Concatenation marks the last row of a non-empty left operand as last and changes nothing else, copies are independent of the original, operations never disturb other datasets, integer indexing accepts exactly -len..len-1, and parse/parse_policy_state return the same columns in the requested backend.',
     ['histories', 'inputs', 'configurations'], 'all operation histories over datasets of every backend',
     'tests exercise single operations on full datasets; mix-ups appear for partially filled buffers, views of views and chains of operations',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/_impl/numpy_dataset.py', 'mushroom_rl/core/_impl/torch_dataset.py', 'mushroom_rl/core/_impl/list_dataset.py', 'mushroom_rl/core/extra_info.py'],
     [('views and indexing', 'Dataset.get_view, __getitem__'), ('concatenation', 'Dataset.__add__'), ('storage', 'NumpyDataset, TorchDataset, ListDataset')])
prop('C05', 'Episode statistics of a Dataset equal their definitions on every backend',
     'For every dataset, window of a dataset or concatenation, n_episodes counts the episodes including a trailing incomplete one, episodes_length lists the lengths of the complete episodes, compute_J(gamma), undiscounted_return and discounted_return give sum_t gamma^t r_t per episode (including a trailing incomplete one), and get_init_states returns the first state of each episode. '
     'compute_metrics(gamma) returns min, max, mean, median and number of the returns of the complete episodes only (zeros if there is none), and numpy and torch datasets with the same data report the same values.',
     ['inputs', 'configurations'], 'all trajectory structures, rewards, discounts, backends and flag representations',
     'tests check one dataset; boundary structures (first sample last, only incomplete episode, trailing cut) matter',
     ['mushroom_rl/core/dataset.py', 'mushroom_rl/core/array_backend.py'],
     [('returns', 'Dataset.compute_J, compute_metrics'), ('episodes', 'Dataset.episodes_length, get_init_states, n_episodes')])
prop('C06', 'Step information stays aligned with the steps that produced it',
     'Under any history of append, parse (to numpy or torch, repeated), get_view, concatenation, copy and clear, ExtraInfo returns for every key (nested keys joined with "_") an array whose row t, and column e for several environments, is exactly the value given at step t by environment e, or nan where that step did not provide the key. '
     'flatten orders rows environment by environment, optionally restricted to a mask, and the mapping is read-only.',
     ['histories', 'inputs', 'configurations'], 'all append/parse/view/sum histories, scalar, vector, matrix and nested values, list or dictionary form, 1..n environments',
     'tests parse one or two appends once; alignment breaks only when parsed and unparsed data are mixed',
     ['mushroom_rl/core/extra_info.py'],
     [('parse', 'ExtraInfo.parse'), ('views and sums', 'ExtraInfo.get_view, __add__, flatten, copy')])
prop('C09', 'Replay memory holds the most recent n-step transitions, sampled uniformly',
     'Under any history of add (n-step returns 1..k), get and reset, a ReplayMemory of capacity N holds exactly the N most recently added transitions (size, initialized and reset follow), and get(n) returns n rows that are each exactly one stored transition in all of its fields, every stored transition being drawn with equal probability. '
     'With n_steps_return k, one transition is stored for every window of k consecutive steps of one trajectory (none for shorter windows at its end): first state and action, discounted sum of the k rewards, next state and flags of the last step; the rewards of the given dataset are not changed.',
     ['histories', 'inputs', 'configurations'], 'all capacities, add sizes, wrap-around points, trajectory structures, n-step lengths, backends, stateful agents',
     'tests fill a memory once; wrap-around, n-step boundaries and repeated adds need particular histories',
     ['mushroom_rl/rl_utils/replay_memory.py'],
     [('ring buffer', 'ReplayMemory.add, get, reset'), ('n-step', 'ReplayMemory.add')],
     note='the reference keeps a list of the last N transitions')
prop('C10', 'Prioritized replay samples proportionally to priority with exact weights',
     'Under any history of add(dataset, priorities), get and update, a PrioritizedReplayMemory holds the most recently added transitions with their current priorities, draws each with probability proportional to its priority, and get(n) returns for each row the exact stored transition, an index identifying it for update, and the importance weight (N * p / total)^-beta normalised by its maximum in the batch. '
     'update(error, idx) sets exactly the priorities of the given indexes to (|error| + eps)^alpha, and max_priority, SumTree.total_p and SumTree.max_p always equal the maximum and total of the stored priorities.',
     ['histories', 'inputs'], 'all histories of adds, samplings and updates, capacities including wrap-around, tied and very small priorities',
     'tests look at a single fixed DQN run; a stale internal node or an index shift only shows for particular histories',
     ['mushroom_rl/rl_utils/replay_memory.py'],
     [('sum tree', 'SumTree'), ('sampling and weights', 'PrioritizedReplayMemory.get, update, add')])
prop('C11', 'Sequence replay returns contiguous single-trajectory histories',
     'Every sequence sampled from a SequenceReplayMemory is a window of at most truncation_length consecutive stored transitions of one trajectory, ending in the sampled transition and zero padded, never joining different trajectories or the newest and the oldest samples of a full buffer. '
     'States, actions, next states, policy states, previous actions (zero at the start of a trajectory), reward, absorbing and last flags and the length returned for it are exactly those of that window, and every stored transition can be sampled.',
     ['histories', 'inputs', 'configurations'], 'all capacities, truncation lengths, episode structures and add histories, numpy/torch, stateless/stateful agents',
     'tests check one buffer that never wraps',
     ['mushroom_rl/rl_utils/replay_memory.py'],
     [('sequence sampling', 'SequenceReplayMemory._get_sequences / get')])
prop('C12', 'Numpy and torch array backends compute the same values',
     'For every array, every operation of the ArrayBackend interface (creation, concatenation, where, clip, median, squeeze, expand_dims, arange, packing and flattening of (time, environment) data, from_list, random integers in range) gives on the torch and the numpy backend the same values and shapes as plain numpy, without changing its arguments. '
     'Conversions between numpy, torch and list backends preserve contents, and the backend of an array is recognised.',
     ['inputs', 'configurations'], 'all arrays of rank 1-4, element types, dimensions, masks and operations',
     'tests cover a few operations with one input each', ['mushroom_rl/core/array_backend.py'],
     [('backends', 'NumpyBackend, TorchBackend, ListBackend')])
prop('C13', 'Parameters and tables follow their schedules separately for each index',
     'For every sequence of calls, Parameter, LinearParameter and DecayParameter return the constant, the linear interpolation from initial to threshold value over n updates (then the threshold), and initial/k^exp, clipped to min and max, where k counts the updates of that index only; calling updates, get_value does not. '
     'Variance-dependent parameters follow their formula on the targets seen at that index (within the window), Table and EnsembleTable return exactly what was last written or fitted at each entry (the ensemble its mean), and eligibility traces accumulate or replace exactly the visited entry.',
     ['histories', 'inputs'], 'all call sequences, table sizes, bounds and schedules',
     'tests sample the first few values of scalar parameters', ['mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/variance_parameters.py', 'mushroom_rl/approximators/table.py', 'mushroom_rl/approximators/ensemble_table.py', 'mushroom_rl/rl_utils/eligibility_trace.py'],
     [('schedules', 'Parameter.__call__, _compute'), ('tables', 'Table, EnsembleTable'), ('traces', 'EligibilityTrace')])
prop('C14', 'Running statistics and observation preprocessors equal their batch definitions',
     'For every stream of observations, fed one by one or in batches, RunningStandardization (together with its prior observation of mean 0 and variance 1), RunningExpWeightedAverage and RunningAveragedWindow report exactly the statistics of the whole stream (since reset), independently of the batching and equally on numpy and torch. '
     'StandardizationPreprocessor returns the clipped standardised observation, MinMaxPreprocessor maps bounded components to [-1, 1] by the bounds of the space and standardises the others, and neither changes the observation, the space or its own statistics when called.',
     ['histories', 'inputs', 'configurations'], 'all streams, batchings, resets, bounded/unbounded components and backends',
     'tests compare a single stream with a stored vector', ['mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/preprocessors.py'],
     [('statistics', 'RunningStandardization.update_stats'), ('preprocessors', 'StandardizationPreprocessor, MinMaxPreprocessor')])
prop('C20', 'Advantage estimators equal their definition on every trajectory structure',
     'For every set of trajectories, rewards, value function, gamma and lambda, compute_gae returns sum_k (gamma lambda)^k delta_{t+k} up to the end of the trajectory of t (and this plus V(s_t) as target), bootstrapping with V(s\') at truncated ends and with 0 at absorbing ones; compute_advantage returns r + gamma V(s\') (1 - absorbing) as target and its difference to V(s) as advantage; compute_advantage_montecarlo the discounted rewards-to-go of a trajectory. '
     'Nothing leaks across trajectory ends and the arguments are left unchanged.',
     ['inputs'], 'all lengths, end types, cut points, rewards, value functions, gamma and lambda',
     'tests compare one data set against stored numbers', ['mushroom_rl/rl_utils/value_functions.py'],
     [('estimators', 'compute_gae, compute_advantage, compute_advantage_montecarlo')])
prop('C28', 'Gradient optimizers apply exactly their update rule at every step',
     'For every sequence of gradients and every learning rate schedule, SGDOptimizer, AdamOptimizer and AdaptiveOptimizer return parameters + step with step given by the published rule (Adam with bias-corrected moments over the whole history; the adaptive step has metric length eps along the possibly natural gradient), ascending if maximize and descending otherwise. '
     'The parameters and gradients passed in are not changed.',
     ['histories', 'inputs'], 'all gradient sequences, constants, ascent/descent', 'tests run two steps of one configuration',
     ['mushroom_rl/rl_utils/optimizers.py'], [('rules', 'SGDOptimizer, AdamOptimizer, AdaptiveOptimizer')])
prop('C15', 'Movement primitives and vectorised policies act on their own parameters and time',
     'A ProMP started from reset() draws at step t an action with mean mu(phi(t/duration)), the time stopping at the duration unless periodic, and covariance sigma (exactly the mean without sigma), its density is that Gaussian, and it never alters the policy state it is given; after set_duration(d) the phase reaches one at the d-th step. DMP actions are the integrated dynamical system, restarted by reset(), for the current goal and weights. '
     'In a VectorPolicy every copy acts on its own row of states and policy states with its own weights, under any history of resizing, reweighting and masked resets. '
     'A black-box agent run by VectorCore, also after ordinary runs or with another number of environments, runs every episode of every environment with one parameter vector of its own drawn at its start (the mean when deterministic), restarts only the policies of the starting environments, and hands each fit and evaluation exactly one vector per episode, attached to the returns of that episode.',
     ['histories', 'inputs', 'configurations', 'schedules'], 'all bases, durations, covariances, weights, goals, system constants; all histories of resizes and masked resets; all interleavings of episode ends over parallel environments',
     'the repository has no test of these policies, and the pairing of parameters and episodes depends on which environments end when',
     ['mushroom_rl/policy/promps.py', 'mushroom_rl/policy/dmp.py', 'mushroom_rl/policy/vector_policy.py', 'mushroom_rl/policy/policy.py', 'mushroom_rl/algorithms/policy_search/black_box_optimization/black_box_optimization.py', 'mushroom_rl/core/vectorized_core.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/utils/callbacks/collect_dataset.py'],
     [('movement primitives', 'ProMP.draw_action, update_time; DMP.update_system'), ('vector of policies', 'VectorPolicy'), ('parallel episodes', 'BlackBoxOptimization.episode_start_vectorized; VectorizedDataset.append_theta_vectorized')])
prop('C16', 'Tabular TD algorithms apply exactly their update at every step',
     'For every finite problem, learning-rate schedule (scalar or one per state-action pair), policy and history of steps, after each step the action values of QLearning, SARSA, ExpectedSARSA, SpeedyQLearning, DoubleQLearning, MaxminQLearning, WeightedQLearning, RLearning and RQLearning are those of the published update computed from the transitions so far, bootstrapping from 0 at absorbing next states and from the estimate at truncated ones. '
     'Each step changes only the visited state-action pair (of the table chosen uniformly, for the ensembles).',
     ['histories', 'inputs', 'configurations'], 'all histories of transitions and ends, schedules, discount factors, policies',
     'tests compare one seeded run with stored tables; a wrong bootstrap at a rare end type or schedule value passes',
     ['mushroom_rl/algorithms/value/td'], [('updates', 'TD._update of each algorithm')],
     note='the reference recomputes the published rule on plain arrays')
prop('C17', 'Eligibility-trace and linear TD algorithms apply their update along trajectories',
     'For every history of episodes, lambda, trace type and learning-rate schedule, after each step the action values of SARSALambda and QLambda (replacing and accumulating traces), and the weights of SARSALambdaContinuous, TrueOnlineSARSALambda and of TD algorithms on linear approximators, are exactly those of the published update. '
     'Traces are reset at the beginning of every episode, so nothing leaks between episodes, and absorbing next states bootstrap from 0.',
     ['histories', 'inputs', 'configurations'], 'all episode structures, lambdas, trace types, features',
     'tests run one seeded interaction; traces only differ across episode ends and revisits',
     ['mushroom_rl/algorithms/value/td', 'mushroom_rl/rl_utils/eligibility_trace.py'], [('traces', 'SARSALambda, QLambda, SARSALambdaContinuous, TrueOnlineSARSALambda')])
prop('C18', 'Batch TD algorithms compute their iterations on the given data',
     'For every data set, FQI, DoubleFQI and BoostedFQI fit at each iteration targets r + gamma max_a Q(s\', a) (for DoubleFQI the other half\'s estimate, for BoostedFQI the residual of the sum of the previous regressors) with 0 bootstrap at absorbing next states, for the requested number of iterations and for repeated fits. '
     'LSPI stops at weights that satisfy the least-squares temporal-difference fixed point of the greedy policy on its data.',
     ['inputs', 'histories', 'configurations'], 'all data sets, numbers of iterations, fits',
     'tests compare one seeded run with stored values', ['mushroom_rl/algorithms/value/batch_td'],
     [('fitted iterations', 'FQI, DoubleFQI, BoostedFQI'), ('LSTDQ', 'LSPI')])
prop('C19', 'Deep Q algorithms step towards the exact target and follow the target schedule',
     'For every replay content, configuration and sequence of fits, each fit of DQN, DoubleDQN, AveragedDQN, MaxminDQN, DuelingDQN, NoisyDQN, CategoricalDQN, QuantileDQN and Rainbow takes, only once the replay memory holds its initial size, one optimizer step on its published loss for the drawn batch (target 0 beyond absorbing states, clipped rewards if requested, importance weights if prioritized, priorities updated with the TD errors); MaxminDQN fits a single member, and every member is eventually fitted. '
     'The target network changes only every target_update_frequency fits, to the online weights (AveragedDQN: one of its copies in turn), and is otherwise constant.',
     ['histories', 'inputs', 'configurations'], 'all batch streams, periods, discount factors, clipping, ensembles',
     'tests compare final weights of one seeded run; boundary batches and schedule phases are not explored',
     ['mushroom_rl/algorithms/value/dqn'], [('targets', 'AbstractDQN.fit, _next_q'), ('schedule', 'AbstractDQN._update_target')])
prop('C21', 'Value-based policies give the probabilities of their definition at every moment',
     'For every action-value function, state and history of draws and updates, EpsGreedy, Boltzmann and Mellowmax return non-negative probabilities that sum to one and equal their definition (greedy actions sharing 1 - epsilon equally on top of epsilon / n_actions; softmax of beta Q; softmax at the root of the mellowmax equation), and draw_action selects actions with exactly these probabilities. '
     'Exploration schedules advance as documented (EpsGreedy once per draw or explicit update and separately per state when so built), and evaluating a policy does not change it.',
     ['histories', 'inputs', 'configurations'], 'all action values including ties and huge gaps, schedules, call histories',
     'tests draw one seeded action per policy', ['mushroom_rl/policy/td_policy.py'],
     [('probabilities', 'EpsGreedy.__call__, Boltzmann.__call__, Mellowmax'), ('draws', 'draw_action')])
prop('C22', 'Parametric policies match their densities, gradients and noise processes',
     'For every state, action and weights, GaussianPolicy, DiagonalGaussianPolicy, StateStdGaussianPolicy and StateLogStdGaussianPolicy evaluate to the Gaussian density with the mean and (co)variance their weights define, draw actions from it, and diff_log and diff are its exact gradients with respect to the weights vector, which set_weights and get_weights round-trip. '
     'DeterministicPolicy draws exactly its regressor output, OrnsteinUhlenbeckPolicy adds to the mean a noise that follows the process from its initial value in every episode, and ClippedGaussianPolicy clips Gaussian draws to the given bounds.',
     ['inputs', 'histories', 'configurations'], 'all weights, states, actions, covariances, dimensions, set/draw histories',
     'tests compare a handful of points of one seeded configuration', ['mushroom_rl/policy/gaussian_policy.py', 'mushroom_rl/policy/deterministic_policy.py', 'mushroom_rl/policy/noise_policy.py'],
     [('densities', 'AbstractGaussianPolicy.__call__'), ('gradients', 'diff_log of each policy'), ('noise', 'OrnsteinUhlenbeckPolicy, ClippedGaussianPolicy')])
prop('C23', 'Torch policies agree with the distribution their weights define',
     'For every weights vector and batch of states, GaussianTorchPolicy, BoltzmannTorchPolicy, SACPolicy (tanh-squashed, action bounds, clamped log standard deviation) and RecurrentGaussianTorchPolicy give the log-probabilities, probabilities, entropies and draws of the distribution defined by their weights, one row per state; the recurrent policy state carries the hidden state along an episode and starts from zero. '
     'get_weights, set_weights and parameters() refer to the same values, and weights passed to set_weights are copied, so optimizing one policy changes neither the vector nor another policy.',
     ['inputs', 'histories', 'configurations'], 'all weights, batches, dimensions, sequence lengths',
     'tests compare one seeded draw', ['mushroom_rl/policy/torch_policy.py', 'mushroom_rl/policy/recurrent_torch_policy.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py', 'mushroom_rl/utils/torch.py'],
     [('distributions', 'distribution_t, log_prob_t, entropy_t'), ('weights', 'TorchUtils.set_weights')])
prop('C24', 'Search distributions have exact densities, gradients and constrained fits',
     'For every parameter vector and history of set_parameters, sample and fits, the Gaussian distributions (fixed covariance, diagonal, Cholesky; numpy and torch) report the log density, density, mean, entropy and gradients of the Gaussian their parameters define, sample from it, and round-trip their parameters. '
     'mle sets the (weighted, unbiased) mean and standard deviation or covariance of the points, and con_wmle the weighted maximum likelihood solution within KL divergence eps of, and entropy loss kappa from, the previous distribution; the data are left unchanged.',
     ['inputs', 'histories', 'configurations'], 'all dimensions, parameters, weighted data sets, bounds',
     'tests compare gradients at one point and a single update', ['mushroom_rl/distributions'],
     [('densities', 'log_pdf, diff_log'), ('fits', 'mle, con_wmle')])
prop('C25', 'Linear and CMAC regressors predict, fit and differentiate exactly',
     'For every data set and history of fits and weight changes, Regressor with LinearApproximator (generic, Q- and action-regressors, with or without features) predicts features times weights, fits the least-squares solution (per action for action regressors) and diff is the exact derivative with respect to the weights vector; CMAC predicts the sum of the active weights and moves each by the mean error share of the samples that hit it. '
     'Single and batch predictions agree, an ensemble combines its members by mean, sum, min or max and fits only the requested one, get_weights/set_weights round-trip, and data or vectors passed in are not changed.',
     ['inputs', 'histories', 'configurations'], 'all dimensions, data, weights, regressor kinds, ensemble sizes',
     'tests compare a few predictions of one fit', ['mushroom_rl/approximators/parametric/linear.py', 'mushroom_rl/approximators/parametric/cmac.py', 'mushroom_rl/approximators/regressor.py', 'mushroom_rl/approximators/ensemble.py', 'mushroom_rl/approximators/_implementations'],
     [('approximators', 'LinearApproximator, CMAC'), ('dispatch', 'Regressor, QRegressor, ActionRegressor, Ensemble')])
prop('C26', 'Torch approximators take exactly the requested gradient steps',
     'For every data set and fit configuration, a fit of TorchApproximator or NumpyTorchApproximator takes n_epochs passes (or stops early by epsilon, patience and the validation loss) each over a partition of the training part into minibatches, one optimizer step per minibatch on the (weighted) loss of exactly those rows, after reinitialising if requested; loss_fit is the mean loss of the last epoch. '
     'Predictions equal the network for single inputs and batches, Q-regressors and ensembles; diff is the gradient with respect to the weights vector; models are independent of the vector they were set from.',
     ['inputs', 'histories', 'configurations'], 'all data sizes, batch sizes, epochs, splits, weights, targets',
     'tests compare one seeded fit', ['mushroom_rl/approximators/parametric/torch_approximator.py', 'mushroom_rl/approximators/parametric/networks', 'mushroom_rl/utils/minibatches.py', 'mushroom_rl/utils/torch.py'],
     [('fit', 'TorchApproximator.fit, _fit_epoch, _compute_batch_loss'), ('diff', 'TorchApproximator.diff')])
prop('C27', 'Features evaluate their definition for points, batches and split inputs',
     'For every range, count and point, a tiling maps each point inside it to the one tile that contains it (None outside), generated tilings cover [low, high) with the documented displacement, and tile features have exactly one active entry per tiling, at the tiling\'s offset; Gaussian, von Mises, Fourier, polynomial, random Fourier, functional and state-action features equal their formula on the generated centres, harmonics or monomials (each exactly once). '
     'Evaluating a batch, a single point, or several inputs that are concatenated gives the same rows, and size is the number of entries.',
     ['inputs', 'configurations'], 'all ranges, counts, dimensions, points inside, on and outside of the bounds',
     'tests evaluate a few stored points', ['mushroom_rl/features', 'mushroom_rl/utils/features.py'],
     [('tiles', 'Tiles, VoronoiTiles, TilesFeatures'), ('bases', 'GaussianRBF, FourierBasis, PolynomialBasis, tensors')])
prop('C07', 'Saving and loading any component preserves its behaviour',
     'For every serializable component (parameters, tables, approximators, policies, distributions, optimizers, running statistics and preprocessors, replay memories, datasets, spaces and info objects) in any reachable state, save followed by load, with full_save true or false, and copy() give an object of the same type that answers every later sequence of uses exactly as the original does. '
     'The restored object is independent: using it never changes the original, and attributes are stored according to their declared save method, those marked with "!" only on full saves and restored as None otherwise.',
     ['inputs', 'histories', 'configurations'], 'all components, configurations, usage histories before and after the round trip, numpy and torch backends, repeated round trips',
     'the tests compare attributes after one save; a forgotten attribute or shared reference shows only in how the restored object behaves later',
     ['mushroom_rl/core/serialization.py', 'mushroom_rl/core/dataset.py', 'mushroom_rl/core/agent.py', 'mushroom_rl/core/environment.py', 'mushroom_rl/rl_utils/spaces.py', 'mushroom_rl/rl_utils/replay_memory.py', 'mushroom_rl/rl_utils/parameters.py', 'mushroom_rl/rl_utils/preprocessors.py', 'mushroom_rl/rl_utils/running_stats.py', 'mushroom_rl/rl_utils/optimizers.py', 'mushroom_rl/approximators', 'mushroom_rl/policy', 'mushroom_rl/distributions'],
     [('format', 'Serializable.save, save_zip, load, load_zip'), ('declared attributes', '_add_save_attr, _post_load')],
     note='replay memory contents are dropped by partial saves as documented: memories are compared on full saves and copies only')
prop('C08', 'A saved and loaded agent acts and keeps learning exactly like the original',
     'For every algorithm, configuration and training history, an agent restored by save (full) + Agent.load or by copy() has the same type, draws the same actions and reports the same action values, weights or distribution parameters from the same random state, and continued learning from the same random state gives the same transitions and the same learned quantities as the original agent. '
     'Training the restored agent never changes the original, and an agent restored from a partial save acts identically and can go on learning.',
     ['histories', 'configurations'], 'every algorithm family (tabular, linear, batch, DQN, actor-critic, policy search), configurations and training histories before and after the round trip',
     'the tests load one agent per algorithm after one configuration and compare attributes, not subsequent behaviour',
     ['mushroom_rl/core/agent.py', 'mushroom_rl/core/serialization.py', 'mushroom_rl/algorithms'],
     [('agent persistence', 'Agent.save, Agent.load, Serializable.copy'), ('algorithm state', '_add_save_attr and _post_load of each algorithm')],
     note='partial saves of replay-based agents drop the replay memory: only acting and ability to learn are compared')
prop('C29', 'Finite MDPs follow their model and the generators build the documented one',
     'For every transition, reward and initial-state array, a FiniteMDP starts (or is reset to a given state) and moves only along transitions of positive probability with the right frequencies, pays exactly reward[s, a, s\'] and reports absorbing exactly in states without outgoing transitions. '
     'The chain, grid-world and taxi generators build, for every map and success probability, exactly the documented model: moves, walls and borders, slips, absorbing goals and holes, passengers collected, rewards on arrival and uniform initial states.',
     ['inputs', 'histories'], 'all finite MDPs, maps (with or without trailing newline), probabilities, rewards and walks',
     'the tests use one map of each kind and a ten-step walk',
     ['mushroom_rl/environments/finite_mdp.py', 'mushroom_rl/environments/generators/grid_world.py', 'mushroom_rl/environments/generators/simple_chain.py', 'mushroom_rl/environments/generators/taxi.py'],
     [('simulation', 'FiniteMDP.step, reset'), ('generators', 'compute_probabilities, compute_reward, compute_mu, parse_grid')])
prop('C30', 'Built-in control environments follow their documented dynamics and rewards',
     'For every parameter setting, initial state and action sequence, GridWorld, GridWorldVanHasselt, LQR, CarOnHill, CartPole, InvertedPendulum, Segway, ShipSteering and PuddleWorld return the states given by their equations of motion (actions clipped to the action bounds, angles wrapped, bounded variables clipped, noise within its bound), the documented reward and an absorbing flag exactly when the documented condition holds, and start from the documented or the given state. '
     'Observations already returned, actions and states passed in are never modified afterwards.',
     ['inputs', 'histories', 'configurations'], 'all parameters, states, action sequences and reset histories',
     'the tests run ten steps of one trajectory with default parameters and never reach bounds, gates, goals or terminal conditions',
     ['mushroom_rl/environments/grid_world.py', 'mushroom_rl/environments/lqr.py', 'mushroom_rl/environments/car_on_hill.py', 'mushroom_rl/environments/cart_pole.py', 'mushroom_rl/environments/inverted_pendulum.py', 'mushroom_rl/environments/segway.py', 'mushroom_rl/environments/ship_steering.py', 'mushroom_rl/environments/puddle_world.py', 'mushroom_rl/utils/angles.py'],
     [('dynamics', 'step, _dynamics, _grid_step'), ('termination and reward', 'step'), ('initial states', 'reset')])
prop('C31', 'Dynamic programming and Car-On-Hill solvers return the optimal values',
     'For every finite MDP and gamma < 1, value_iteration returns the optimal value of every state within the error implied by eps, and policy_iteration returns an optimal deterministic policy together with its exact value; the model is not modified. '
     'solve_car_on_hill returns gamma^(k-1) when k is the smallest number of steps (fewer than max_k) reaching the top with the given first action, -1 when that action fails at once and a negative value otherwise.',
     ['inputs'], 'all finite MDPs (absorbing states, ties, zero discount), accuracies, car states, actions and depths',
     'the tests solve one grid world and one set of car states',
     ['mushroom_rl/solvers/dynamic_programming.py', 'mushroom_rl/solvers/car_on_hill.py'],
     [('dynamic programming', 'value_iteration, policy_iteration'), ('breadth-first search', 'bfs, solve_car_on_hill')])
prop('C32', 'LQR solver values, gains and gradients equal their definitions',
     'For every linear system, quadratic reward, discount and stabilizing gain, compute_lqr_V and compute_lqr_Q (deterministic and Gaussian policy versions) equal the expected discounted return of acting with that policy in the LQR environment, for single states and batches, and compute_lqr_P is the matrix of that value. '
     'The returned gradients are the derivatives of those functions with respect to the gain, and compute_lqr_feedback_gain returns the gain that maximizes the value.',
     ['inputs'], 'all systems of one to three state and action dimensions, gains, covariances, batches',
     'the tests compare constants of three systems',
     ['mushroom_rl/solvers/lqr.py', 'mushroom_rl/environments/lqr.py'],
     [('closed forms', 'compute_lqr_P, _compute_lqr_intermediate_results'), ('gradients', 'compute_lqr_V_gaussian_policy_gradient_K'), ('Riccati iteration', 'compute_lqr_feedback_gain')])
prop('C33', 'Black-box policy search explores per episode and updates as documented',
     'Every episode of a black-box optimization agent runs with one parameter vector drawn from the search distribution at its start (its mean when set_deterministic is on), recorded in order in the dataset given to fit. '
     'Each fit updates the distribution from exactly those vectors and the discounted returns of their episodes: RWR and REPS by weighted maximum likelihood with weights exp(beta (J - max J)) and exp((J - max J) / eta*), eta* minimizing the REPS dual, ConstrainedREPS and MORE within the divergence and entropy bounds while improving the (surrogate) objective, PGPE by an optimizer step along the gradient with its variance-minimizing baseline, ePPO by clipped-surrogate steps on normalized returns.',
     ['histories', 'inputs', 'configurations'], 'all algorithms, distributions, policy sizes, episode lengths, rewards, discounts and consecutive fits',
     'the tests compare the final parameters of one run per algorithm',
     ['mushroom_rl/algorithms/policy_search/black_box_optimization', 'mushroom_rl/distributions/gaussian.py', 'mushroom_rl/distributions/torch_distribution.py'],
     [('episode start and fit', 'BlackBoxOptimization.episode_start, fit'), ('updates', '_update of RWR, REPS, ConstrainedREPS, PGPE, MORE, ePPO')],
     note='contextual distributions are not covered; vectorized environments are in C15')
prop('C34', 'REINFORCE, GPOMDP and eNAC follow their gradient estimate on every batch',
     'For every Gaussian policy, optimizer, discount and batch of episodes (any number, different lengths), each fit moves the policy parameters by one optimizer step along the estimate computed from exactly the episodes of that batch: '
     'REINFORCE with whole-episode scores and discounted returns, GPOMDP with per-step discounted rewards and cumulative scores of the episodes still running, both with their variance-minimizing per-component baselines, and eNAC as the natural gradient solving the least-squares system of discounted scores and baseline features of the initial state. '
     'Consecutive fits do not leak information into each other.',
     ['histories', 'inputs'], 'all policies, batch sizes, episode lengths, rewards, discounts, optimizers and consecutive fits',
     'the tests compare the final weights of one run on one LQR, with fixed-length episodes',
     ['mushroom_rl/algorithms/policy_search/policy_gradient', 'mushroom_rl/policy/gaussian_policy.py'],
     [('batch processing', 'PolicyGradient.fit, _parse'), ('estimates', '_compute_gradient, _step_update, _episode_end_update of each algorithm')])
prop('C35', 'Actor-critics with per-step or replay updates apply exactly their update rule',
     'StochasticAC, its average-reward version and COPDAC_Q update critic, traces, average reward and policy exactly as defined on every sample (no bootstrap from absorbing states, traces restart with every episode, learning-rate schedules advance once per sample), for any number of action dimensions. '
     'DDPG, TD3 and SAC start learning only after initial_replay_size samples; each fit regresses every critic towards r + gamma (1 - absorbing) Q\', with Q\' from the target networks (minimum over the ensemble for TD3 and SAC, clipped smoothing noise and action bounds in TD3, entropy bonus in SAC), improves the actor through the online critic with the configured delay, warm-up and gradient clipping, adapts the SAC temperature to the target entropy and moves the target networks by tau. '
     'The SAC policy squashes Gaussian samples into the action bounds and reports their exact log-probability.',
     ['histories', 'inputs', 'configurations'], 'all transition streams, fit sizes, batch sizes, coefficients, optimizers and network weights',
     'the tests compare final weights of one short run with absorbing flags that hardly occur',
     ['mushroom_rl/algorithms/actor_critic/classic_actor_critic', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ddpg.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/td3.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/sac.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/deep_actor_critic.py'],
     [('per-step updates', 'fit of StochasticAC, StochasticAC_AVG and COPDAC_Q'), ('replay updates', 'fit, _next_q, _loss, _update_target, _update_alpha'), ('squashed policy', 'SACPolicy')])
prop('C36', 'On-policy actor-critics apply exactly their objective to the given trajectories',
     'For every batch of trajectories (absorbing, truncated or cut), A2C performs one entropy-regularized, optionally clipped policy-gradient step with Monte Carlo advantages; PPO and PPO_BPTT compute normalized generalized advantages, fit the critic to their targets and take n_epochs of minibatch steps on the clipped surrogate, each epoch visiting every sample exactly once, with old log-probabilities from the states as preprocessed when acting; PPO_BPTT evaluates policy and critic on sequences that never cross a trajectory boundary. '
     'TRPO either leaves the policy unchanged or takes a step along the search direction with mean divergence at most 1.5 max_kl that does not reduce the surrogate.',
     ['histories', 'inputs', 'configurations'], 'all trajectory structures, coefficients, schedules, minibatch sizes, truncation lengths, preprocessors and consecutive fits',
     'the tests compare final weights of one run with one trajectory structure and no preprocessors',
     ['mushroom_rl/algorithms/actor_critic/deep_actor_critic/a2c.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/ppo_bptt.py', 'mushroom_rl/algorithms/actor_critic/deep_actor_critic/trpo.py', 'mushroom_rl/rl_utils/value_functions.py', 'mushroom_rl/utils/minibatches.py'],
     [('policy updates', 'fit, _update_policy, _loss'), ('trust region', 'TRPO._line_search, _conjugate_gradient'), ('sequences', 'PPO_BPTT._transform_to_sequences')],
     note='A2C is claimed for batches whose episodes end in absorbing states or at the end of the batch; critics return one column')
prop('C37', 'Loggers keep exactly what was logged and never change what is learned',
     'Every file a logger writes holds exactly the values logged since its last fresh start, in order: appending continues the file of the same name and seed, other seeds and folders are never touched, the best agent on disk is the one with the highest performance so far, epochs and plain agents keep their own files, and a logged dataset can be read back. '
     'Console and log-file messages appear exactly once, at their level, through the logger that emitted them. Attaching a logger to an algorithm leaves its learning unchanged.',
     ['histories', 'configurations'], 'all interleavings of loggers opened, appended, closed and written to, with any seeds, names and levels',
     'the tests write one or two arrays through one logger',
     ['mushroom_rl/core/logger', 'mushroom_rl/approximators/parametric/torch_approximator.py'],
     [('data files', 'DataLogger'), ('messages', 'ConsoleLogger'), ('composition', 'Logger')])
prop('C38', 'Angle, rotation, minibatch, gradient and torch helpers are exact for every input',
     'For every input, angle normalization and distances return the equivalent angle in the canonical interval, conversions between Euler angles, quaternions and rotation matrices describe the same rotation, minibatch generation visits every sample exactly once with rows of all arrays kept together, '
     'numerical differentiation agrees with the analytic derivative of smooth functions, policies and distributions (integer parameters included) without changing them, mean and confidence intervals equal their definitions, and weights and gradients read from or written to torch parameters keep their order, values and independence.',
     ['inputs'], 'all angles, rotations, array sizes, batch sizes, parameter shapes and functions',
     'the tests have no case, or one constant, for each helper',
     ['mushroom_rl/utils/angles.py', 'mushroom_rl/utils/minibatches.py', 'mushroom_rl/utils/numerical_gradient.py', 'mushroom_rl/utils/plot.py', 'mushroom_rl/utils/torch.py'],
     [('angles', 'normalize_angle, shortest_angular_distance, euler_to_quat, quat_to_euler'), ('minibatches', 'minibatch_generator'), ('torch', 'TorchUtils, CategoricalWrapper')])
prop('C39', 'Parallel environments behave like the same environments stepped one by one',
     'For every number of processes and history of masked resets (with or without given states), masked steps, renderings, seedings and stops, MultiprocessEnvironment returns for each selected environment exactly the states, rewards, absorbing flags, step infos, episode infos and frames that the same environment returns when driven alone, and environments outside the mask do not advance. '
     'A VectorCore run on parallel environments yields for every environment the transitions of that environment driven alone with the same actions.',
     ['histories', 'schedules'], 'two to eight processes, arbitrary masks, initial states, episode lengths and orders of operations',
     'the tests step one environment with a full mask once',
     ['mushroom_rl/core/multiprocess_environment.py', 'mushroom_rl/core/vectorized_env.py', 'mushroom_rl/core/vectorized_core.py'],
     [('workers', '_env_worker'), ('masked operations', 'MultiprocessEnvironment.reset_all, step_all, render_all')])
prop('C40', 'Callbacks, recorders, spaces and the registry report exactly what happened',
     'For every history of learning and evaluation, CollectDataset holds exactly the transitions passed to the fit callbacks since it was last cleaned, CollectQ, CollectMaxQ and CollectParameters the values at every call, in order and unaffected by later learning, and a video recorder writes one video per recording with exactly the rendered frames, at the rate implied by the environment timestep, never overwriting earlier videos of the same recorder. '
     'Box and Discrete spaces report the bounds, shape and size they were built with, and an environment made by name is an instance of the registered class built with the given arguments.',
     ['histories', 'inputs'], 'all run histories, callback sets, numbers of recordings and frames, shapes, bounds and names',
     'the tests collect one run and no video',
     ['mushroom_rl/utils/callbacks', 'mushroom_rl/utils/record.py', 'mushroom_rl/rl_utils/spaces.py', 'mushroom_rl/core/environment.py', 'mushroom_rl/core/core.py'],
     [('callbacks', 'Callback.__call__, get, clean'), ('recording', 'VideoRecorder'), ('registry', 'Environment.register, make')])
prop('C41', 'Wrapped Gym, Atari and dm_control environments behave as what they wrap',
     'For every wrapped environment and history of resets and steps, the wrapper returns the observations (flattened or not), rewards and termination of the wrapped environment, with spaces, bounds and horizon equal to its own (the time limit is enforced only by the horizon), passes each action on unchanged, and a reset to a given state starts from that state. '
     'Atari games additionally show a history of the last preprocessed frames (identical first frames after a reset), report a lost life as end of episode when configured so without restarting the game, and start with the documented random no-op actions; dm_control observations concatenate the observation entries in order.',
     ['histories', 'inputs', 'configurations'], 'generated environments (spaces, pictures, lives, lengths, limits), wrapper options and histories of resets and steps',
     'the tests run ten steps of one environment each, or skip where the simulator is not installed',
     ['mushroom_rl/environments/gym_env.py', 'mushroom_rl/environments/atari.py', 'mushroom_rl/environments/dm_control_env.py', 'mushroom_rl/utils/frames.py'],
     [('wrapping', 'Gym, Atari, DMControl: reset, step'), ('frames', 'LazyFrames, preprocess_frame, MaxAndSkip')])
prop('C42', 'MuJoCo environments show, control and reward exactly the simulated model',
     'For every model, observation and actuation specification, control frequency and history of resets and steps, observations consist of the specified quantities of the simulation in the specified order (entries removable and addable in any order, limits taken from the model, indices and helper accessors naming the same entries), the action drives exactly the specified actuators for the specified number of substeps, resets (also to given observations) put the simulation in that state, '
     'and the reward and absorbing hooks receive the observation, action and next observation of that step. MultiMuJoCo does the same for each of its models in turn.',
     ['histories', 'inputs', 'configurations'], 'generated models, specifications, substeps, intermediate steps and histories of resets and steps',
     'the tests run ten steps of four fixed robots',
     ['mushroom_rl/environments/mujoco.py', 'mushroom_rl/utils/mujoco/observation_helper.py'],
     [('simulation loop', 'MuJoCo.reset, step'), ('observation layout', 'ObservationHelper'), ('several models', 'MultiMuJoCo')])
prop('C43', 'PyBullet environments show, control and reward exactly the simulated models',
     'For every observation and actuation specification (order and control modes), timestep, number of intermediate steps and history of resets and steps, observations consist of the specified quantities of the simulation in the specified order with limits taken from the models, every action entry commands the specified joint in the specified mode, each reset restarts the simulation from the initial poses, and the reward and absorbing hooks receive the state, action and next state of that step.',
     ['histories', 'inputs', 'configurations'], 'generated specifications, control modes, timesteps and histories of resets and steps',
     'the tests run ten steps of two fixed robots',
     ['mushroom_rl/environments/pybullet.py', 'mushroom_rl/utils/pybullet'],
     [('simulation loop', 'PyBullet.reset, step'), ('layout', 'IndexMap'), ('access', 'ObservationHelper, ContactHelper')],
     note='contacts between links of the same model are not generated')

prop('C44', 'Air hockey and ball-in-a-cup observe, end and reward what physically happens',
     'For every task (hit, defend, prepare, repel, two agents; MuJoCo and PyBullet air hockey, ball in a cup), every option, initial placement and speed of the puck and every sequence of torques over any number of episodes: the episode starts in a documented situation; the observation is the true puck position and velocity seen from the base of each robot plus the true joint positions and velocities, changed only by the requested position noise or velocity filter; the hit and bounce flags tell whether such a contact happened in this episode; the episode ends exactly when the puck leaves the table or the condition of the task is met; the reward is the formula of the task on the reached situation; the reported constraints are those of the reached joint configuration; air noise only pushes the puck.',
     ['histories', 'inputs', 'configurations'], 'generated tasks, options, placements and pushes of the puck, torque sequences and restarts',
     'the tests run a few steps of the default tasks, in which the puck is never touched',
     ['mushroom_rl/environments/mujoco_envs/air_hockey', 'mushroom_rl/environments/mujoco_envs/ball_in_a_cup.py', 'mushroom_rl/environments/pybullet_envs/air_hockey', 'mushroom_rl/utils/mujoco/kinematics.py'],
     [('situation', 'AirHockeyBase, AirHockeySingle, AirHockeyDouble'), ('tasks', 'AirHockeyHit, AirHockeyDefend, AirHockeyPrepare, AirHockeyRepel'), ('PyBullet tasks', 'AirHockeyBaseBullet and subclasses'), ('cup', 'BallInACup')],
     note='resetting an air hockey environment to a given state, the observation limits of the puck and the hit flag of the PyBullet hit task within one control step are not judged')
