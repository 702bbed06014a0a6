HEAD = '''# Deciding MushroomRL's properties by property-based testing

## 1. Method

Every property in `properties.jsonl` is decided by generated-input search against an explicit oracle. One Python module per property
(`checks/cNN_*.py`) registers *cases*: a Hypothesis strategy that generates plain data (a configuration plus a history of operations), and
a function that builds the real objects from `/repo`, drives them through the history and compares every observable result with an oracle.
The oracles are, in order of preference: a reference model written from the published definition (plain Python / NumPy, float64), a
differential run (two backends, batch against single, parallel against sequential, loaded against original, logger attached against not),
a metamorphic relation or an invariant over the recorded history, and for randomness a statistical test with a failure probability below
1e-6 per run on fixed seeds (so that a run is deterministic).

* `run.py ID --tier quick|thorough` imports `mushroom_rl` from `/repo`'s working tree (pure Python, nothing to build), runs the cases with a
  seed derived from `VERIF_SEED`, the case name and the shard, shrinks a failure (Hypothesis' shrinker, at most about 60 s), writes the
  minimal input to `evidence/replays/`, prints the VIOLATION line and exits 1. `run.py ID --replay FILE` re-executes it.
* all randomness inside a case is reset from a hash of the case input, so a case is a deterministic function of (code, input): a replay
  reproduces, and shrinking is sound.
* thorough: ten times the examples (more for some cases), eight shards with different seeds in parallel processes.
* `evidence/ID.json`: number of generated cases, number of distinct non-trivial ones under the rule stated in the module, classes,
  samples and per-case counts, all measured in that run.
* Checks look at what the code does through public interfaces (environment calls observed by spies, datasets handed to `fit`, weights,
  action values, saved files); private attributes are used only where nothing public exposes the quantity (listed in section 6).
* Hypothesis is vendored under `vendor/` because it is not installed in the project's interpreter. The vendored copy is unmodified.

Why this reaches what the tests cannot: the repository's tests compare the end result of one fixed run per algorithm with stored numbers.
They never vary episode ends (absorbing / truncated / cut by a fit), batch structure, buffer wrap-around, configuration, the order of
operations or the moment of saving, and many stored numbers were recorded from the code itself. Here each of those is a generated dimension
and the expected value is computed independently.

## 2. Shared machinery

`pbt/harness.py` (cases, shrinking, replay, evidence), `pbt/boot.py` (environment, import of the target), `pbt/spies.py` (recording
environments, agents and policies for the run loops), `pbt/penv.py` (environments for worker processes), `pbt/dsgen.py` (datasets with a list
model), `pbt/memgen.py` (transition streams for replay memories), `pbt/tdgen.py` (scripts of transitions for TD methods), `pbt/nets.py`
(small deterministic networks), `pbt/agents.py` (a zoo of every algorithm for persistence checks). `meta/props.py` is the single source of
`properties.jsonl` and `MANIFEST.json`; `meta/design_notes.py` of this file; `meta/mutate.py` is the mutation survey of section 5.
'''
T = 'quick %s; '
HOW['C01'] = ('run histories of `Core.learn`/`evaluate` (counts of steps, episodes, fits; initial states; callbacks; horizons; absorbing patterns), several calls on the same core.',
              'a reference scheduler that predicts the exact sequence of environment, agent and callback events; observed through spies.',
              'up to a few hundred steps per history; quick about 10 s.')
HOW['C02'] = ('scripted environments and agents with unique labels in every state, action, reward, flag and info; core preprocessors that act as non-commuting maps.',
              'the journal of the spies: each recorded transition must be the journal entry, chained within an episode, with preprocessors applied once and in order.',
              'episodes up to about 20 steps; quick about 15 s.')
HOW['C03'] = ('numbers of environments 1–5, episode lengths per environment, requested quantities, horizons, preprocessors, repeated calls.',
              'a per-environment sequential reference model and the total-count rules of the vectorized loop.',
              'quick about 25 s; `n_steps_per_fit` multiples of the number of environments only (known finding).')
HOW['C04'] = ('histories of append, view, copy, add, clear, select, indexing on NumPy, torch and list datasets, with policy states, infos, masks.',
              'a list of labelled transitions (model-based testing).', 'up to 40 operations; quick about 25 s.')
HOW['C05'] = ('datasets with arbitrary episode structure (absorbing, truncated, open), rewards, discounts, backends.',
              'definitions of J, episode length, undiscounted metrics, initial states, median, written over lists.', 'quick about 10 s.')
HOW['C06'] = ('histories of append (nested dictionaries, keys appearing late), parse, clear, view, copy, add, stack/flatten.',
              'a list of dictionaries.', 'quick about 15 s.')
HOW['C07'] = ('every serializable component with generated configuration and usage history; save/load, zip, copy, repeated, full and partial.',
              'differential: the restored object and the original are driven through the same continuation from the same random state and must agree; the original must not change.',
              'quick about 60 s.')
HOW['C08'] = ('every algorithm of the library (zoo), configuration, training history before and after the round trip.',
              'differential: same actions, learned quantities and transitions as the original that was never saved.', 'tiny networks, tens of steps; quick about 100 s.')
HOW['C09'] = ('histories of add (single and batches), get, reset, wrap-around, n-step settings, backends.', 'a deque of labelled transitions; n-step returns computed from the definition; frequency test for uniformity.', 'capacities 2–20; quick about 20 s.')
HOW['C10'] = ('histories of add, get, update with generated TD errors and schedules of beta; sum trees with ties and zeros.', 'reference priorities, exact interval partition by sweeping the drawn position, importance weights from the definition.', 'capacities 2–20; quick about 15 s.')
HOW['C11'] = ('trajectory structures, truncation lengths, wrap-around, stateful and stateless policies.', 'the stored history: every sampled sequence must be the contiguous past of a stored transition within its trajectory, padded as documented.', 'quick about 25 s.')
HOW['C12'] = ('arrays of all shapes and values, operations of the backend interface.', 'differential between NumPy and torch backends and the NumPy definition; round trips of conversions.', 'quick about 12 s.')
HOW['C13'] = ('parameter kinds, schedules, table sizes, sequences of indexed calls.', 'closed-form schedules per index, batch variance / window statistics, dictionary model of tables and traces.', 'quick about 8 s.')
HOW['C14'] = ('streams of batches, window sizes, bounds (partly infinite), backends.', 'batch mean and variance of everything seen; min-max formula.', 'quick about 12 s.')
HOW['C15'] = ('time bases, durations, covariances, system constants and episodes; histories of resizes, weights and masked resets of a vector of policies; parallel environments with scripted episode lengths over several learn, evaluate and single-environment runs.', 'closed forms of the phase and mean, an Euler model of the dynamical system, one reference model per copy; the environments record the parameters each episode ran with and their returns, which are compared with the dataset of every fit.', 'up to 5 copies, 4 environments, 3 runs; quick about 10 s.')
HOW['C16'] = ('scripts of transitions (absorbing, restarts), learning-rate tables, ties.', 'one-step reference implementations of the published updates run in lockstep.', 'tables up to 4x3; quick about 20 s.')
HOW['C17'] = ('scripts, lambda, trace kinds, continuous features.', 'reference trace updates in lockstep (dutch/true-online included).', 'quick about 15 s.')
HOW['C18'] = ('batches of transitions, numbers of iterations, regressors (exact table regressors and linear).', 'the iteration computed directly; LSPI by solving its linear system.', 'absorbing transitions excluded for LSPI (known finding); quick about 20 s.')
HOW['C19'] = ('network weights, replay contents, batch sizes, target update frequencies, the nine DQN variants.', 'targets and losses from the definition in float64, one reference gradient step; projection of distributions by brute force.', 'tiny networks; quick about 60 s.')
HOW['C20'] = ('trajectories with every combination of absorbing/last flags, critics, gamma, lambda.', 'double-sum definition of the estimators per episode.', 'quick about 8 s.')
HOW['C21'] = ('action values with ties, schedules, temperatures.', 'probabilities from the definition; sampling frequencies; mellowmax root condition.', 'quick about 10 s.')
HOW['C22'] = ('policies, weights, states, actions.', 'densities from scipy, gradients by central differences, OU recursion.', 'quick about 15 s.')
HOW['C23'] = ('torch policies, weights, batches, recurrent sequences.', 'distribution recomputed from the network outputs, Monte Carlo for draws, autograd-free entropies.', 'quick about 20 s.')
HOW['C24'] = ('parameters, samples, weights, divergence bounds.', 'scipy densities, numerical gradients, weighted moments, KL and entropy constraints and optimality of the constrained fits.', 'dimension up to 4; quick about 25 s.')
HOW['C25'] = ('regressor kinds, ensembles, features, data.', 'matrix formulas and least squares; numerical derivatives; CMAC update from its definition.', 'quick about 10 s.')
HOW['C26'] = ('data, epochs, batch sizes, losses, dropout, early stopping, weights.', 'a hand-written torch training loop with the same batches; visits of samples counted through the loss.', 'quick about 25 s.')
HOW['C27'] = ('ranges, tile counts, points on and around borders, split inputs.', 'cell membership computed from the bounds; basis functions from their formula.', 'quick about 10 s.')
HOW['C28'] = ('sequences of gradients, parameters, minimization/maximization.', 'update rules in closed recursion; constraint of the adaptive optimizer.', 'quick about 8 s.')
HOW['C29'] = ('transition, reward and initial arrays; maps with walls, goals, holes, passengers.', 'membership in the positive-probability support and frequency test; the documented model built independently from the map.', 'maps up to 5x5; quick about 25 s.')
HOW['C30'] = ('parameters, initial states, action sequences, resets.', 'independent equations of motion integrated with scipy (tolerance 1e-4) and reward/termination rules.', 'quick about 15 s.')
HOW['C31'] = ('finite MDPs with ties, absorbing states, discounts; car states and depths.', 'linear-system policy evaluation and exhaustive policy search; brute-force expansion for the car.', 'up to 5 states, 3 actions; quick about 20 s.')
HOW['C32'] = ('systems, gains, covariances, batches.', 'value by summation of the discounted series and by simulation, numerical gradients, optimality of the gain by perturbation and Riccati residual.', 'dimension up to 3; quick about 20 s.')
HOW['C33'] = ('algorithms, distributions, episodes, rewards, discounts.', 'weights and updates from the definition (dual minimized by an independent optimizer), KL/entropy constraints.', 'quick about 60 s.')
HOW['C34'] = ('Gaussian policies, optimizers, batches of episodes of different lengths.', 'estimators from the definition with scores by numerical differentiation.', 'quick about 20 s.')
HOW['C35'] = ('transition streams, fit sizes, coefficients, networks.', 'lockstep reference updates (float64 torch), targets, delayed actor updates, temperature, squashed densities by change of variables.', 'quick about 60 s.')
HOW['C36'] = ('trajectory structures, coefficients, schedules, preprocessors, recurrent policies.', 'reference objectives and optimizer steps with the same minibatches; for TRPO the trust-region and improvement conditions.', 'quick about 60 s.')
HOW['C37'] = ('interleavings of several loggers (seeds, append, names, folders) and messages; algorithms with and without logger.', 'a dictionary model of the files; differential learning.', 'files in the scratch directory of the run; quick about 30 s.')
HOW['C38'] = ('angles, Euler angles and quaternions, batch sizes, functions, parameter blocks.', 'trigonometric identities, scipy rotations, permutation of rows, analytic derivatives.', 'quick about 10 s.')
HOW['C39'] = ('2–4 worker processes, masks, given states, seeds, renderings, stops.', 'local copies of the same environments stepped one by one; they report their whole history in each observation.', 'up to 15 operations; leftover workers are killed; quick about 15 s.')
HOW['C40'] = ('run histories with callbacks and recordings, spaces, registrations.', 'the journal of the environment; frames read back from a stand-in or the written video.', 'quick about 7 s.')
HOW['C41'] = ('generated Gym environments (spaces, lengths, limits), fake Atari games (lives, pictures), three dm_control tasks.', 'the same environment driven directly.', 'quick about 10 s.')
HOW['C42'] = ('MuJoCo models, specifications, substeps, histories.', 'the simulator driven directly through the mujoco bindings.', 'quick about 6 s.')
HOW['C43'] = ('specifications, control modes, timesteps, histories.', 'the simulator driven directly through the pybullet client.', 'quick about 9 s.')
HOW['C44'] = ('tasks, options, placements, pushes, torque sequences, restarts.', 'the MuJoCo models driven directly / the PyBullet world read through its client, with the formulas of the tasks.', 'quick about 120 s.')

TAIL = open(os.path.join(V, 'meta', 'design_tail.md')).read()
