"""C07 - every serializable component survives save/load and copy: same observable state and same behaviour afterwards."""
import os

import numpy as np
import torch
import torch.nn.functional as F
from hypothesis import strategies as st

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.ensemble_table import EnsembleTable
from mushroom_rl.approximators.parametric import CMAC, LinearApproximator, NumpyTorchApproximator, TorchApproximator
from mushroom_rl.approximators.table import Table
from mushroom_rl.core import AgentInfo, Dataset, DatasetInfo, MDPInfo, Serializable, VectorizedDataset
from mushroom_rl.core.extra_info import ExtraInfo
from mushroom_rl.distributions import (CholeskyGaussianTorchDistribution, DiagonalGaussianTorchDistribution,
                                       GaussianCholeskyDistribution, GaussianDiagonalDistribution, GaussianDistribution)
from mushroom_rl.features import Features
from mushroom_rl.features.basis import PolynomialBasis
from mushroom_rl.features.tiles import Tiles
from mushroom_rl.policy import (DMP, Boltzmann, BoltzmannTorchPolicy, ClippedGaussianPolicy, DeterministicPolicy,
                                DiagonalGaussianPolicy, EpsGreedy, GaussianPolicy, GaussianTorchPolicy, Mellowmax,
                                OrnsteinUhlenbeckPolicy, ProMP, RecurrentGaussianTorchPolicy, StateLogStdGaussianPolicy,
                                StateStdGaussianPolicy, VectorPolicy)
from mushroom_rl.rl_utils.eligibility_trace import EligibilityTrace
from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from mushroom_rl.rl_utils.preprocessors import MinMaxPreprocessor, StandardizationPreprocessor
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, ReplayMemory, SequenceReplayMemory
from mushroom_rl.rl_utils.running_stats import RunningAveragedWindow, RunningExpWeightedAverage, RunningStandardization
from mushroom_rl.rl_utils.spaces import Box, Discrete
from mushroom_rl.rl_utils.variance_parameters import (VarianceDecreasingParameter, VarianceIncreasingParameter,
                                                      WindowedVarianceIncreasingParameter)
from pbt import agents, nets
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C07', rule='a case is a component, its configuration, a history of uses before the save, the kind of round trip (full '
              'save, partial save, copy) and a history of uses afterwards; both objects are driven with the same inputs and '
              'random seeds; non-trivial when the component was used before and after')


def flat(*xs):
    out = []
    for x in xs:
        if x is None:
            out.append(np.array([-12345.]))
        elif isinstance(x, (tuple, list)):
            out.append(flat(*x) if len(x) else np.zeros(0))
        else:
            out.append(np.ravel(np.asarray(to_np(x), dtype=float)))
    return np.concatenate(out) if out else np.zeros(0)


def X(i, d=2):
    return np.array([((i * 7 + 3 * j) % 9) / 4. - 1. for j in range(d)])


INFO = MDPInfo(Box(-2 * np.ones(2), 2 * np.ones(2)), Discrete(3), .9, 20)


# ---- components: name -> (make(k), use(obj, i) -> observation) -------------------------------------------------------
COMPONENTS = {}


def comp(*names):
    def deco(fn):
        for n in names:
            COMPONENTS[n] = lambda k, n=n: fn(n, k)
        return fn
    return deco


@comp('parameter', 'linear', 'decay')
def _(name, k):
    size = [(1,), (4,), (4, 3)][k % 3]
    if name == 'parameter':
        p = Parameter(.3 + k, min_value=None if k % 2 else .5, max_value=None if k % 4 < 2 else .4 + k, size=size)
    elif name == 'linear':
        p = LinearParameter(1., [.1, 3.][k % 2], 4 + k, size=size)
    else:
        p = DecayParameter(1., exp=.3 + .1 * k, min_value=.2 if k % 2 else None, size=size)

    def use(p, i):
        idx = [np.array([i % 4]), np.array([i % 3])][:len(size)]
        return flat(p(*idx), p.get_value(*idx), p.initial_value, list(p.shape))
    return p, use


@comp('varinc', 'vardec', 'windowed')
def _(name, k):
    cls = dict(varinc=VarianceIncreasingParameter, vardec=VarianceDecreasingParameter,
               windowed=WindowedVarianceIncreasingParameter)[name]
    kw = dict(window=3 + k % 3) if name == 'windowed' else {}
    p = cls(value=1., exponential=bool(k % 2), min_value=None if k % 3 else .01, tol=1. + k, size=(3, 2), **kw)

    def use(p, i):
        idx = (np.array([i % 3]), np.array([i % 2]))
        p.update(*idx, target=float(i % 5) - 1.)
        return flat(p.get_value(*idx), p(*idx, target=1. * (i % 2)))
    return p, use


@comp('table', 'ensemble_table')
def _(name, k):
    if name == 'table':
        t = Table((3, 2), initial_value=.5 * k, dtype=None if k % 2 else float)
        ts = lambda t: [t]
    else:
        t = EnsembleTable(2 + k % 2, (3, 2), prediction=['mean', 'max', 'min'][k % 3])
        ts = lambda t: [t[j] for j in range(len(t))]

    def use(t, i):
        for j, q in enumerate(ts(t)):
            q[np.array([i % 3]), np.array([(i + j) % 2])] = i - .5 * j
        out = [t.predict(np.array([s])) for s in range(3)] + [t.predict(np.array([i % 3]), np.array([i % 2]))]
        return flat(out, t.n_actions)
    return t, use


@comp('lin', 'lin_q', 'lin_action', 'lin_ens', 'cmac', 'torch', 'numpytorch', 'torch_ens', 'torch_action')
def _(name, k):
    tiles = Tiles.generate(2, [3, 3], -2 * np.ones(2), 2 * np.ones(2))
    phi = Features(tilings=tiles)
    lp = dict(input_shape=(phi.size,), phi=phi)
    opt = agents.opt(['adam', 'sgd', 'rms'][k % 3], .05)
    if name == 'lin':
        r = Regressor(LinearApproximator, output_shape=(1 + k % 2,), **lp)
    elif name == 'lin_q':
        r = Regressor(LinearApproximator, output_shape=(3,), n_actions=3, **lp)
        r.set_weights(np.linspace(-1, 1, r.weights_size))
    elif name == 'lin_action':
        r = Regressor(LinearApproximator, output_shape=(1,), n_actions=3, **lp)
    elif name == 'lin_ens':
        r = Regressor(LinearApproximator, output_shape=(1,), n_models=2, prediction=['mean', 'min', 'max', 'sum'][k % 4], **lp)
    elif name == 'cmac':
        r = Regressor(CMAC, input_shape=(2,), output_shape=(1 + k % 2,), tilings=tiles)
    else:
        kw = dict(network=nets.QNet, optimizer=opt, loss=F.mse_loss, input_shape=(2,), batch_size=k % 3, quiet=True)
        if name == 'torch_action':
            r = Regressor(NumpyTorchApproximator, output_shape=(3,), n_actions=3, **kw)
        elif name == 'torch_ens':
            r = Regressor(TorchApproximator, output_shape=(2,), n_models=2, prediction=['mean', 'min'][k % 2], **kw)
        else:
            r = Regressor(TorchApproximator if name == 'torch' else NumpyTorchApproximator, output_shape=(2,), **kw)
    tq = name == 'torch_action'

    def use(r, i):
        s = np.array([X(i), X(i + 1), X(i + 2)])
        a = np.array([[i % 3], [(i + 1) % 3], [(i + 2) % 3]])
        if name in ('lin_action', 'torch_action'):
            q = np.array([1., -2., i * .5])
            r.fit(s, a, q)
            return flat(r.predict(s, a), r.predict(X(5)), r.get_weights(), r.n_actions)
        if name == 'lin_q':
            return flat(r.predict(s, a), r.predict(s), r.diff(X(i), np.array([i % 3])))
        out = r.output_shape[0]
        y = np.array([[1., 2.], [0., -1.], [i * .5, .25]])[:, :out]
        if name.startswith('torch') and name != 'torch_action':
            s, y = torch.as_tensor(s).float(), torch.as_tensor(y).float()
        r.fit(s, y)
        if name.endswith('_ens'):
            w = [r[j].get_weights() if name == 'torch_ens' else r[j].get_weights() for j in range(len(r))]
            return flat(r.predict(s), r.predict(s, idx=1), w)
        res = [r.predict(s), r.get_weights(), r.weights_size, list(r.input_shape), list(r.output_shape)]
        return flat(res)
    return r, use


@comp('epsgreedy', 'boltzmann', 'mellowmax')
def _(name, k):
    par = [Parameter(.4), LinearParameter(.9, .1, 10), DecayParameter(1.2, exp=.4)][k % 3]
    pol = dict(epsgreedy=EpsGreedy, boltzmann=Boltzmann)[name](par) if name != 'mellowmax' else Mellowmax(Parameter(2. + k % 3))
    q = Table((4, 3))
    q.table[:] = (np.arange(12).reshape(4, 3) * 5 % 7) / 3.
    pol.set_q(q)

    def use(pol, i):
        s = np.array([i % 4])
        a = pol.draw_action(s, None)[0]
        return flat(a, pol(s), pol(s, np.array([i % 3])), pol.get_q().predict(s))
    return pol, use


def reg(out=1, seed=0):
    r = Regressor(LinearApproximator, input_shape=(2,), output_shape=(out,))
    r.set_weights(np.linspace(.4, 1.1, r.weights_size) + .1 * seed)
    return r


@comp('det', 'gauss', 'diag', 'statestd', 'statelogstd')
def _(name, k):
    d = 1 + k % 2
    mu = reg(d)
    if name == 'det':
        pol = DeterministicPolicy(mu)
    elif name == 'gauss':
        pol = GaussianPolicy(mu, np.array([[.5, .1], [.1, .3]])[:d, :d])
    elif name == 'diag':
        pol = DiagonalGaussianPolicy(mu, np.array([.5, .7])[:d])
    elif name == 'statestd':
        pol = StateStdGaussianPolicy(mu, reg(d, 3), eps=.1 + .1 * (k % 3))
    else:
        pol = StateLogStdGaussianPolicy(mu, reg(d, 2))

    def use(pol, i):
        w = pol.get_weights()
        pol.set_weights(w + .05 * ((i % 3) - 1))
        s = X(i)
        a = pol.draw_action(s, None)[0]
        out = [a, pol.get_weights(), pol.weights_size]
        if name != 'det':
            b = X(i + 1)[:d]
            try:
                out += [pol(s, b), pol.diff_log(s, b)]
            except np.linalg.LinAlgError:           # the weights drifted to a zero standard deviation
                out += [-77.]
        return flat(out)
    return pol, use


@comp('gausstorch', 'boltztorch', 'ou', 'clipped', 'recurrent')
def _(name, k):
    d = 1 + k % 2
    if name == 'gausstorch':
        pol = GaussianTorchPolicy(agents.Critic, (2,), (d,), std_0=.5 + .1 * k)
    elif name == 'boltztorch':
        pol = BoltzmannTorchPolicy(agents.Critic, (2,), (3,), beta=[Parameter(.7), .4, LinearParameter(1., .2, 30)][k % 3])
    elif name == 'recurrent':
        pol = RecurrentGaussianTorchPolicy(policy_state_shape=(3,), network=agents.Rnn, input_shape=(2,), output_shape=(d,),
                                           std_0=[.7, 2.][k % 2], log_std_min=[-20, -.1][k % 2], log_std_max=[2, .2][k % 2])
    else:
        ap = Regressor(TorchApproximator, input_shape=(2,), output_shape=(d,), network=agents.LinearNet)
        if name == 'ou':
            pol = OrnsteinUhlenbeckPolicy(ap, sigma=torch.ones(d) * (.2 + .1 * k), theta=.1 + .05 * k, dt=.3,
                                          x0=None if k % 2 else torch.ones(d) * .3)
        else:
            pol = ClippedGaussianPolicy(ap, torch.eye(d) * (.1 + .1 * k), -.5 * torch.ones(d), (.2 + .1 * k) * torch.ones(d))

    def use(pol, i):
        w = torch.as_tensor(to_np(pol.get_weights()))
        pol.set_weights(w + .05 * ((i % 3) - 1))
        s = torch.as_tensor(X(i)).float()
        ps = pol.reset()
        out = [pol.get_weights(), ps, pol.is_stateful]
        for _ in range(2):
            a, ps = pol.draw_action(s, ps)
            out += [a, ps]
        if name in ('gausstorch', 'boltztorch'):
            ss = s[None]
            aa = torch.zeros(1, d) if name == 'gausstorch' else torch.tensor([[i % 3]])
            out += [pol.log_prob_t(ss, aa), pol.entropy_t(ss), len(list(pol.parameters()))]
        if name == 'recurrent':
            out += [pol.log_prob_t(s.view(1, 1, 2), torch.zeros(1, d), torch.zeros(1, 3), torch.tensor([1])), pol.entropy_t()]
        return flat(out)
    return pol, use


@comp('gdist', 'diagdist', 'choldist', 'tdiag', 'tchol')
def _(name, k):
    n = 1 + k % 3
    mu = np.linspace(-.5, .5, n)
    S = np.eye(n) * .5 + .1
    if name == 'gdist':
        d = GaussianDistribution(mu, S)
    elif name == 'diagdist':
        d = GaussianDiagonalDistribution(mu, .4 + .2 * np.arange(n))
    elif name == 'choldist':
        d = GaussianCholeskyDistribution(mu, S)
    elif name == 'tdiag':
        d = DiagonalGaussianTorchDistribution(torch.as_tensor(mu).float(), torch.as_tensor(.4 + .2 * np.arange(n)).float())
    else:
        d = CholeskyGaussianTorchDistribution(torch.as_tensor(mu).float(), torch.as_tensor(S).float())
    tor = name[0] == 't'

    def use(d, i):
        p = to_np(d.get_parameters()).copy()
        p[:n] += .1 * ((i % 3) - 1)
        d.set_parameters(torch.as_tensor(p) if tor else p)
        th = X(i, n)
        th = torch.as_tensor(th).float() if tor else th
        out = [d.sample(), d.log_pdf(th), d.mean(), d.entropy(), d.get_parameters(), d.is_contextual, d.parameters_size]
        if not tor:
            out += [d(th), d.diff_log(th)]
        return flat(out)
    return d, use


@comp('sgd', 'adam', 'adaptive')
def _(name, k):
    lr = [Parameter(.1), LinearParameter(.5, .1, 10), .05][k % 3]
    if name == 'sgd':
        o = SGDOptimizer(lr=lr, maximize=bool(k % 2))
    elif name == 'adam':
        o = AdamOptimizer(lr=lr, beta1=.8, beta2=.9, eps=[1e-7, .1][k % 2], maximize=bool(k % 2))
    else:
        o = AdaptiveOptimizer(eps=.1 + .1 * k, maximize=bool(k % 2))

    def use(o, i):
        return flat(o(X(i, 3), X(i + 4, 3)))
    return o, use


@comp('runstd', 'runexp', 'runwin')
def _(name, k):
    backend = ['numpy', 'torch'][k % 2]
    if name == 'runstd':
        r = RunningStandardization(shape=(2,), backend=backend, alpha=[1e-32, .2][(k // 2) % 2])
    elif name == 'runexp':
        r = RunningExpWeightedAverage(shape=(2,), alpha=.3, backend=backend, init_value=None if k % 3 else (
            np.ones(2) if backend == 'numpy' else torch.ones(2)))
    else:
        r = RunningAveragedWindow(shape=(2,), window_size=2 + k % 3, backend=backend)

    def use(r, i):
        v = X(i) if backend == 'numpy' else torch.as_tensor(X(i)).float()
        if i == 11:
            r.reset() if name == 'runstd' else r.reset(None)
        r.update_stats(v[None] if name == 'runstd' else v)
        return flat(r.mean, r.std if name == 'runstd' else 0.)
    return r, use


@comp('standard', 'minmax')
def _(name, k):
    backend = ['numpy', 'torch'][k % 2]
    low = [-2 * np.ones(2), np.array([-np.inf, -1.])][(k // 2) % 2]
    info = MDPInfo(Box(low, 2 * np.ones(2)), Discrete(3), .9, 20)
    p = (StandardizationPreprocessor if name == 'standard' else MinMaxPreprocessor)(info, backend, clip_obs=[10., 1.][(k // 3) % 2])

    def use(p, i):
        v = X(i) if backend == 'numpy' else torch.as_tensor(X(i)).float()
        p.update(v)
        return flat(p(v))
    return p, use


@comp('promp', 'dmp', 'vector')
def _(name, k):
    d = 1 + k % 2
    phi = Features(basis_list=PolynomialBasis.generate(2, 1))
    lin = Regressor(LinearApproximator, input_shape=(3,), output_shape=(d,))
    lin.set_weights(np.linspace(-1, 1, 3 * d))
    pol = ProMP(lin, phi, 3 + k % 4, sigma=None if k % 3 else .1 * np.eye(d), periodic=bool((k // 2) % 2))
    if name == 'dmp' or (name == 'vector' and k % 2):
        reg = Regressor(LinearApproximator, input_shape=(d + 1,), output_shape=(d,))
        reg.set_weights(np.linspace(-1, 1, d * (d + 1)))
        pol = DMP(reg, Features(basis_list=PolynomialBasis.generate(1, d)), np.linspace(.5, 1., d), .05 + .01 * k, 1. + .2 * k, 2., .5 + .1 * k, 3., .4)
    if name == 'vector':
        pol = VectorPolicy(pol, 2 + k % 3)

    def use(pol, i):
        w = pol.get_weights()
        pol.set_weights(w + .05 * ((i % 3) - 1) * (1. + np.arange(w.size)).reshape(w.shape))
        out = [pol.get_weights(), pol.is_stateful, pol.weights_size]
        if i % 4 == 0 or pol.is_stateful:
            ps = pol.reset()
        else:
            ps = None
        for _ in range(5):
            a, ps = pol.draw_action(np.tile(X(i), (8, 1)) if name == 'vector' else X(i), ps)
            out += [a, ps]
        return flat(*out)
    return pol, use


def rows(i, stateful, backend, n=4):
    """A small dataset of n rows; content depends on i."""
    ainfo = AgentInfo(False, (2,) if stateful else None, backend)
    d = Dataset(DatasetInfo.create_dataset_info(INFO, ainfo), n_steps=n)
    add_rows(d, i, stateful, n)
    return d


def add_rows(d, i, stateful, n=4):
    for j in range(n):
        e = 10 * i + j
        t = [X(e), np.array([e % 3]), e * .5, X(e + 1), j == 2 and i % 2 == 0, j == 2 or j == n - 1]
        if stateful:
            t += [X(e + 2), X(e + 3)]
        d.append(tuple(t), {})


@comp('replay', 'prioritized', 'sequence')
def _(name, k):
    backend = ['numpy', 'torch'][k % 2]
    stateful = bool((k // 2) % 2) and name != 'prioritized'
    ainfo = AgentInfo(False, (2,) if stateful else None, backend)
    if name == 'replay':
        m = ReplayMemory(INFO, ainfo, initial_size=5, max_size=9 + k)
    elif name == 'prioritized':
        m = PrioritizedReplayMemory(INFO, ainfo, initial_size=5, max_size=9 + k, alpha=.6, beta=LinearParameter(.4, 1., 20))
    else:
        m = SequenceReplayMemory(INFO, ainfo, initial_size=5, max_size=9 + k, truncation_length=2 + k % 2)

    def use(m, i):
        d = rows(i, stateful, 'numpy')
        if name == 'prioritized':
            m.add(d, np.linspace(.5, 2., 4))
        elif name == 'sequence':
            m.add(d)
        else:
            m.add(d, n_steps_return=1 + k % 2, gamma=.9)
        out = [m.initialized] if name == 'prioritized' else [m.size, m.initialized]
        if m.initialized:
            g = m.get(3)
            out += list(g)
            if name == 'prioritized':
                m.update(np.array([.1, 2., .7]) * (1 + i % 3), g[-2])
                out += [m.max_priority]
        return flat(out)
    return m, use


@comp('dataset')
def _(name, k):
    backend = ['numpy', 'torch', 'list'][k % 3]
    stateful = bool((k // 3) % 2)
    ainfo = AgentInfo(False, (2,) if stateful else None, 'numpy')
    info = MDPInfo(INFO.observation_space, INFO.action_space, .9, 20, backend='torch' if backend == 'torch' else 'numpy')
    d = Dataset(DatasetInfo.create_dataset_info(info, ainfo), n_steps=60) if backend != 'list' else None
    if d is None:
        di = DatasetInfo('list', None, 20, .9, INFO.observation_space.shape, float, INFO.action_space.shape, int,
                         (2,) if stateful else None)
        d = Dataset(di, n_steps=60)

    def use(d, i):
        if backend == 'torch':
            for j in range(3):
                e = 10 * i + j
                t = [torch.as_tensor(X(e)), torch.tensor([e % 3]), e * .5, torch.as_tensor(X(e + 1)), False, j == 2]
                d.append(tuple(t + [torch.as_tensor(X(e + 2)), torch.as_tensor(X(e + 3))] if stateful else t), {})
        else:
            add_rows(d, i, stateful, 3)
        out = list(d.parse(to='numpy')) + [len(d), d.n_episodes, d.compute_J(.9), d.undiscounted_return, d.discounted_return]
        if stateful:
            out += list(d.parse_policy_state(to='numpy'))
        return flat(out)
    return d, use


@comp('mdpinfo', 'agentinfo', 'datasetinfo')
def _(name, k):
    box = Box(np.array([-1., -np.inf]) if k % 2 else -3., 5. * np.ones(2) if k % 2 else 5., shape=None if k % 2 else (2, 2), data_type=[float, np.float32][k % 2])
    act = Discrete(3) if k % 3 else Box(-1 * np.ones(2), np.ones(2))
    mi = MDPInfo(box, act, .5 + .1 * (k % 3), [10, np.inf][k % 2], dt=.05, backend=['numpy', 'torch'][(k // 2) % 2])
    ai = AgentInfo(bool(k % 2), (3, 2) if k % 3 else None, ['numpy', 'torch'][k % 2])
    o = dict(mdpinfo=mi, agentinfo=ai, datasetinfo=DatasetInfo.create_dataset_info(mi, ai))[name]

    def use(o, i):
        if name == 'mdpinfo':
            a = o.action_space
            isd = isinstance(a, Discrete)
            return flat(np.nan_to_num(o.observation_space.low), o.observation_space.high, list(o.observation_space.shape), isd,
                        a.size if isd else flat(a.low, a.high), list(a.shape), o.gamma, o.horizon if o.horizon != np.inf else -7.,
                        o.dt, o.backend == 'torch', list(o.shape), o.observation_space.data_type == [float, np.float32][k % 2],
                        a.data_type == (int if isd else float))
        if name == 'agentinfo':
            assert o.is_stateful == (o.policy_state_shape is not None)
            return flat(o.is_episodic, o.is_stateful, list(o.policy_state_shape or ()), o.backend == 'torch')
        return flat(o.gamma, o.is_agent_stateful, list(o.state_shape), list(o.action_shape), list(o.policy_state_shape or ()), o.n_envs,
                    o.backend == 'torch', o.horizon if getattr(o, 'horizon', None) not in (None, np.inf) else -7.)
    return o, use


@comp('accumulating', 'replacing')
def _(name, k):
    e = EligibilityTrace((4, 3), name)

    def use(e, i):
        if i == 11:
            e.reset()
        e.update(np.array([i % 4]), np.array([i % 3]))
        e.table *= .5 + .04 * k
        return flat(e.table, [e[np.array([s]), np.array([a])] for s in range(4) for a in range(3)], list(e.shape))
    return e, use


@comp('vectordataset')
def _(name, k):
    backend = ['numpy', 'torch'][k % 2]
    stateful = bool((k // 2) % 2)
    n_envs = 2 + k % 3
    info = MDPInfo(INFO.observation_space, INFO.action_space, .9, 20, backend=backend)
    info = DatasetInfo.create_dataset_info(info, AgentInfo(False, (2,) if stateful else None, backend), n_envs)
    d = VectorizedDataset(info, n_steps=20 * n_envs)
    t = np.array if backend == 'numpy' else (lambda v: torch.as_tensor(np.array(v)))

    def use(d, i):
        if len(d) > 15 * n_envs:
            d.clear()
        for j in range(2):
            e = [10 * i + j + 3 * n for n in range(n_envs)]
            row = [t([X(v) for v in e]), t([[v % 3] for v in e]), t([v * .5 for v in e]), t([X(v + 1) for v in e]),
                   t([v % 4 == 0 for v in e]), t([v % 4 == 0 or j == 1 for v in e])]
            if stateful:
                row += [t([X(v + 2) for v in e]), t([X(v + 3) for v in e])]
            d.append_vectorized(tuple(row), {}, t([True] * n_envs if i % 3 else [True] + [bool(v % 2) for v in e[1:]]))
        f = d.flatten()
        out = list(f.parse(to='numpy')) + [len(d), len(f), f.n_episodes, f.compute_J(.9)]
        if stateful:
            out += list(f.parse_policy_state(to='numpy'))
        return flat(out)
    return d, use


@comp('extrainfo')
def _(name, k):
    backend = ['numpy', 'torch'][k % 2]
    e = ExtraInfo(1, backend)

    def use(e, i):
        if i == 11:
            e.clear()
        for j in range(2):
            e.append(dict(a=float(i + j), b=dict(c=X(i + j) if backend == 'numpy' else torch.as_tensor(X(i + j)))))
        if i % 3 == k % 3:
            e.parse()
        c = e.copy()
        c.parse()
        return flat(len(e), [c[key] for key in sorted(c)])
    return e, use


DROPS = {'replay', 'prioritized', 'sequence', 'epsgreedy', 'boltzmann', 'mellowmax'}


def restore(o, mode):
    if mode == 'copy':
        return o.copy()
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'sub', 'component.msh')
    o.save(path, full_save=mode == 'full')
    r = Serializable.load(path)
    os.remove(path)
    return r


def seed(n):
    np.random.seed(n)
    torch.manual_seed(n)


def roundtrip(x):
    name, mode = x['name'], x['mode']
    if mode == 'part' and name in DROPS:
        mode = 'full'
    seed(x['seed'])
    o, use = COMPONENTS[name](x['k'])
    for i in x['before']:
        use(o, i)
    r = restore(o, mode)
    assert type(r) is type(o), ('type', type(r), type(o))
    if x['twice']:
        r = restore(r, mode)
    a, b = [], []
    # the restored object is used first: the original must not notice
    keep = o.copy()
    for i in x['after']:
        seed(i + 77)
        b.append(use(r, i))
    for i in x['after']:
        seed(i + 77)
        a.append(use(o, i))
    for n, (p, q) in enumerate(zip(a, b)):
        assert p.shape == q.shape, ('shape', n, p.shape, q.shape)
        assert np.allclose(p, q, rtol=1e-6, atol=1e-8, equal_nan=True), ('use %d after %s' % (n, mode), p, q)
    c = []
    for i in x['after']:
        seed(i + 77)
        c.append(use(keep, i))
    for n, (p, q) in enumerate(zip(a, c)):
        assert p.shape == q.shape and np.allclose(p, q, rtol=1e-6, atol=1e-8, equal_nan=True), ('earlier copy', n, p, q)
    return '%s-%s' % (name, mode) if x['before'] else None


@st.composite
def histories(draw, names):
    return dict(name=draw(st.sampled_from(names)), k=draw(st.integers(0, 11)), seed=draw(st.integers(0, 99)),
                mode=draw(st.sampled_from(['full', 'part', 'copy'])), twice=draw(st.booleans()),
                before=draw(st.lists(st.integers(0, 12), max_size=6)), after=draw(st.lists(st.integers(0, 12), min_size=1, max_size=5)))


GROUPS = dict(parameters=['parameter', 'linear', 'decay', 'varinc', 'vardec', 'windowed'],
              approximators=['table', 'ensemble_table', 'lin', 'lin_q', 'lin_action', 'lin_ens', 'cmac', 'torch', 'numpytorch',
                             'torch_ens', 'torch_action'],
              policies=['epsgreedy', 'boltzmann', 'mellowmax', 'det', 'gauss', 'diag', 'statestd', 'statelogstd', 'gausstorch',
                        'boltztorch', 'ou', 'clipped', 'recurrent', 'promp', 'dmp', 'vector'],
              distributions=['gdist', 'diagdist', 'choldist', 'tdiag', 'tchol'],
              optimizers=['sgd', 'adam', 'adaptive'],
              stats=['runstd', 'runexp', 'runwin', 'standard', 'minmax'],
              memories=['replay', 'prioritized', 'sequence'],
              data=['dataset', 'mdpinfo', 'agentinfo', 'datasetinfo', 'vectordataset', 'extrainfo'],
              traces=['accumulating', 'replacing'])


def register(group, quick):
    @check.case(group, histories(GROUPS[group]), quick=quick)
    def _(x):
        return roundtrip(x)


@check.case('long histories', st.tuples(histories(sum((GROUPS[g] for g in sorted(GROUPS) if g != 'memories'), [])), st.integers(7, 60), st.integers(0, 999)),
            quick=120)
def long_roundtrip(x):
    h, n, s = x
    if h['name'] == 'dataset':
        n = min(n, 12)
    rng = np.random.RandomState(s)
    return roundtrip(dict(h, before=[int(v) for v in rng.randint(0, 13, size=n)]))


for g, q in dict(parameters=150, approximators=220, policies=360, distributions=100, optimizers=80, stats=120, memories=120,
                 data=160, traces=40).items():
    register(g, q)


# ---- the generic contract of Serializable for user classes ------------------------------------------------------------
class Leaf(Serializable):
    def __init__(self, v):
        self.v, self.big = v, np.arange(3) * v
        self._add_save_attr(v='primitive', big='numpy!')


class Blob(Serializable):
    def __init__(self, spec):
        methods = {}
        for n, (method, bang, v) in enumerate(spec):
            setattr(self, 'a%d' % n, value(method, v))
            methods['a%d' % n] = method + ('!' if bang else '')
        self.unsaved = 3
        self.loads = 0
        self._add_save_attr(**methods)

    def _post_load(self):
        self.loads = getattr(self, 'loads', 0) + 1


def value(method, v):
    if v is None:
        return None
    if method == 'primitive':
        return [v, float(v), str(v), v % 2 == 0, (v, v + 1), 0, False, '', -1.5 * v, [v, 'x']][v % 10]
    if method == 'numpy':
        shape = [(v + 1,), (v + 1, 2), (0,), (), (3, 1, v)][v % 5]
        return (np.arange(int(np.prod(shape))) * .5 - v).reshape(shape).astype([float, np.float32, int, bool][v % 4])
    if method == 'torch':
        shape = [(v + 1,), (2, v + 1), (0,), ()][v % 4]
        return (torch.arange(int(np.prod(shape))) * .25).reshape(shape).to([torch.float32, torch.float64, torch.int64][v % 3])
    if method in ('pickle', 'json'):
        return [dict(x=[v, v / 2.], y=str(v)), [], {}, 0, [None, True, 'a' * v]][v % 5]
    if method == 'mushroom':
        return [lambda: Leaf(v), lambda: [Leaf(v + i) for i in range(v % 7)], lambda: [Leaf(i) for i in range(8 + v)],
                lambda: [], lambda: Blob([('mushroom', False, 1), ('numpy', bool(v % 2), v), ('primitive', False, v), ('torch', False, v),
                                          ('mushroom', False, 6)]),
                lambda: [Blob([('numpy', False, v), ('mushroom', False, 6 + i)]) for i in range(2)]][v % 6]()
    return v


def same(method, full, a, b):
    if a is None:
        return b is None
    if method == 'mushroom':
        if isinstance(a, Blob):
            return type(b) is Blob and b.loads >= 1 and all(
                getattr(b, n) is None if m == 'none' or m[-1] == '!' and not full else same(m.rstrip('!'), full, getattr(a, n), getattr(b, n))
                for n, m in a._save_attributes.items())
        if isinstance(a, list):
            return isinstance(b, list) and len(a) == len(b) and all(same(method, full, x, y) for x, y in zip(a, b))
        return type(b) is Leaf and a.v == b.v and (np.array_equal(a.big, b.big) if full else b.big is None)
    if method in ('numpy', 'torch'):
        return type(a) is type(b) and a.dtype == b.dtype and np.array_equal(to_np(a), to_np(b))
    return type(a) is type(b) and a == b


@check.case('contract', st.tuples(st.lists(st.tuples(
    st.sampled_from(['primitive', 'numpy', 'torch', 'pickle', 'json', 'mushroom', 'none']), st.booleans(),
    st.one_of(st.none(), st.integers(0, 30))), min_size=1, max_size=7), st.booleans(), st.booleans(), st.booleans()), quick=400)
def contract(x):
    spec, full, twice, over = x
    o = Blob(spec)
    path = os.path.join(os.environ['VERIF_SCRATCH'], 'blob.msh')
    if over:                    # an older file at the same place is replaced
        Blob([('mushroom', False, 26), ('numpy', False, 30), ('pickle', False, 5)] + [(m, not b, 29) for m, b, _ in spec]).save(path, full_save=True)
    o.save(path, full_save=full)
    r = (Blob if twice else Serializable).load(path)
    if twice:
        r.save(path, full_save=full)
        r = Serializable.load(path)
    os.remove(path)
    assert type(r) is Blob and r.loads >= 1, 'type or _post_load'
    for n, (method, bang, v) in enumerate(spec):
        got = getattr(r, 'a%d' % n)
        if method == 'none' or (bang and not full):
            assert got is None, ('dropped attribute', n, method, got)
        else:
            assert same(method, full, value(method, v), got), ('attribute', n, method, value(method, v), got)
    return ('full' if full else 'part') if any(v is not None for _, _, v in spec) else None
