"""C38 - the numerical helpers (angles, rotations, gradients, minibatches, statistics, torch utilities) are exact for every input."""
import os
import shutil
import tempfile
import warnings
from math import cos, sin, pi

import numpy as np
import torch
from hypothesis import strategies as st
from scipy import stats

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import LinearApproximator
from mushroom_rl.distributions import GaussianCholeskyDistribution, GaussianDiagonalDistribution
from mushroom_rl.policy import DeterministicPolicy, DiagonalGaussianPolicy
from mushroom_rl.utils import angles as A
from mushroom_rl.utils.minibatches import minibatch_generator, minibatch_number
from mushroom_rl.utils.numerical_gradient import numerical_diff_dist, numerical_diff_function, numerical_diff_policy
from mushroom_rl.utils.plot import get_mean_and_confidence
from mushroom_rl.utils.torch import CategoricalWrapper, TorchUtils
from pbt.harness import Check

check = Check('C38', rule='a case is a call (or a sequence of calls) of the helpers on generated inputs; non-trivial when the angle lies '
              'outside the canonical interval, the rotation turns about several axes, the batch does not divide the data, '
              'or there is more than one parameter block')

angle = st.one_of(st.floats(-50, 50), st.floats(-1e4, 1e4), st.integers(-400, 400).map(lambda k: k * pi / 8), st.sampled_from([-1e-18, 1e-18, -pi, pi, 3 * pi, 1e4]))


@check.case('wrap', st.tuples(angle, angle), quick=600)
def wrap(x):
    a, b = x
    for f, lo, hi in ((A.normalize_angle_positive, 0., 2 * pi), (A.normalize_angle, -pi, pi)):
        r = f(a)
        assert lo - 1e-12 <= r <= hi + 1e-12, (f.__name__, a, r)
        assert abs(cos(r) - cos(a)) < 1e-9 and abs(sin(r) - sin(a)) < 1e-9, (f.__name__, a, r)
    d = A.shortest_angular_distance(a, b)
    assert abs(d) <= pi + 1e-12, ('distance', a, b, d)
    assert abs(cos(a + d) - cos(b)) < 1e-9 and abs(sin(a + d) - sin(b)) < 1e-9, ('distance', a, b, d)
    return 'wrap' if abs(a) > pi else None


def rx(a):
    return np.array([[1, 0, 0], [0, cos(a), -sin(a)], [0, sin(a), cos(a)]])


def ry(a):
    return np.array([[cos(a), 0, sin(a)], [0, 1, 0], [-sin(a), 0, cos(a)]])


def rz(a):
    return np.array([[cos(a), -sin(a), 0], [sin(a), cos(a), 0], [0, 0, 1]])


def mat(e):
    return rz(e[2]) @ ry(e[1]) @ rx(e[0])


def quat_mat(q):
    w, x, y, z = np.asarray(q) / np.linalg.norm(q)
    return np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - w * z), 2 * (x * z + w * y)],
                     [2 * (x * y + w * z), 1 - 2 * (x * x + z * z), 2 * (y * z - w * x)],
                     [2 * (x * z - w * y), 2 * (y * z + w * x), 1 - 2 * (x * x + y * y)]])


full = st.one_of(st.floats(-3.1, 3.1), st.integers(-31, 31).map(lambda v: v / 10.))
rot = st.tuples(full, st.one_of(st.floats(-1.5, 1.5), st.integers(-15, 15).map(lambda v: v / 10.)), full)


@check.case('rotations', st.lists(rot, min_size=1, max_size=12), quick=300)
def rotations(es):
    """All conversions agree with products of elementary rotations about the fixed axes, one by one and in batches."""
    E = np.array(es).T
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        Q = A.euler_to_quat(E)
        back = A.quat_to_euler(Q)
        assert Q.shape == (4, len(es)) and back.shape == E.shape
        for i, e in enumerate(es):
            e = np.array(e)
            M = mat(e)
            q = A.euler_to_quat(e)
            assert q.shape == (4,) and np.allclose(np.linalg.norm(q), 1)
            assert np.allclose(quat_mat(q), M, atol=1e-9), 'euler to quaternion'
            assert np.allclose(quat_mat(Q[:, i]), M, atol=1e-9), 'batch of quaternions'
            assert np.allclose(A.euler_to_mat(e), M, atol=1e-9), 'euler to matrix'
            assert np.allclose(mat(A.mat_to_euler(M)), M, atol=1e-7), 'matrix to euler'
            assert np.allclose(mat(A.quat_to_euler(q)), M, atol=1e-7), 'quaternion to euler'
            assert np.allclose(mat(A.quat_to_euler(-q)), M, atol=1e-7), 'opposite quaternion'
            assert np.allclose(mat(back[:, i]), M, atol=1e-7), 'batch of euler angles'
            assert np.allclose(A.quat_to_euler(q), e, atol=1e-6), 'euler angles of a rotation'
    return 'batch' if len(es) > 1 and all(abs(v) > .1 for v in es[0]) else None


@check.case('minibatches', st.tuples(st.one_of(st.integers(1, 40), st.integers(41, 300)), st.one_of(st.integers(1, 45), st.integers(46, 310)), st.integers(1, 3), st.booleans(), st.integers(0, 999)), quick=300)
def minibatches(x):
    n, b, k, use_torch, seed = x
    np.random.seed(seed)
    data = [np.arange(n), np.arange(n)[:, None] * [1., 10.], np.arange(n) * 3][:k]
    if use_torch:
        data = [torch.as_tensor(d) for d in data]
    before = [np.array(d) for d in data]
    batches = list(minibatch_generator(b, *data))
    assert len(batches) == minibatch_number(n, b) == -(-n // b), 'number of minibatches'
    seen = []
    for i, batch in enumerate(batches):
        assert len(batch) == k
        idx = np.array(batch[0])
        assert len(idx) == (b if i < len(batches) - 1 else n - b * (len(batches) - 1)), 'size of a minibatch'
        for d, full in zip(batch, before):
            assert np.array_equal(np.array(d), full[idx]), 'alignment'
        seen += list(idx)
    assert sorted(seen) == list(range(n)), 'every sample exactly once'
    for d, f in zip(data, before):
        assert np.array_equal(np.array(d), f), 'data untouched'
    return 'remainder' if n % b and n > b else None


check.case('large minibatches', st.tuples(st.integers(1000, 5000), st.integers(64, 2500), st.integers(1, 3), st.booleans(),
                                          st.integers(0, 999)), quick=25)(minibatches)


@check.case('minibatch numbers', st.tuples(st.integers(1, 3000), st.integers(1, 3000), st.integers(-2, 2)), quick=200)
def minibatch_numbers(x):
    k, b, off = x
    n = max(1, k * b + off)
    assert minibatch_number(n, b) == -(-n // b), ('number of minibatches', n, b)
    return 'edge' if off else None


num = st.integers(-12, 12).map(lambda v: v / 8)


@check.case('gradients', st.tuples(st.integers(1, 4), st.lists(num, min_size=24, max_size=24), st.booleans(),
                                   st.sampled_from([1e-6, 1e-5])), quick=150)
def gradients(x):
    n, v, integer, eps = x
    q = np.array(v[:n * n]).reshape(n, n)
    c = np.array(v[-n:])
    p = np.array(v[16:16 + n])
    if integer:
        p = np.rint(p * 3).astype(int)
    p0 = p.copy()
    g = numerical_diff_function(lambda t: float(t @ q @ t + c @ t), p, eps)
    want = (q + q.T) @ p + c
    assert np.allclose(g, want, atol=2e-3, rtol=1e-3), ('function', g, want)
    assert np.array_equal(p, p0)

    mu = Regressor(LinearApproximator, input_shape=(2,), output_shape=(n,))
    w = np.resize(np.array(v), mu.weights_size)
    mu.set_weights(w)
    pi_ = DiagonalGaussianPolicy(mu, .5 + np.abs(np.array(v[:n])))
    s, a = np.array(v[4:6]), np.array(v[6:6 + n])
    with np.errstate(all='ignore'):
        g = numerical_diff_policy(pi_, s, a, eps)
        d = pi_.diff(s, a)
        assert np.array_equal(pi_.get_weights(), np.concatenate([w])[:len(pi_.get_weights())]) or \
            np.allclose(pi_.get_weights()[:len(w)], w, rtol=0, atol=0), 'weights of the policy'
    assert np.allclose(g, d, atol=1e-3, rtol=1e-2), ('policy', g, d)

    one = Regressor(LinearApproximator, input_shape=(1,), output_shape=(1,))
    one.set_weights(np.array(v[:1]))
    pi_ = DeterministicPolicy(one)
    numerical_diff_policy(pi_, s[:1], a[:1], eps)
    assert np.array_equal(pi_.get_weights(), v[:1]), 'the only weight of the policy'

    dist = GaussianDiagonalDistribution(np.array(v[8:8 + n]), .5 + np.abs(np.array(v[12:12 + n])))
    rho = np.array(dist.get_parameters())
    g = numerical_diff_dist(dist, a, eps)
    assert np.array_equal(dist.get_parameters(), rho), 'parameters of the distribution'
    assert np.allclose(g, dist.diff(a), atol=1e-3, rtol=1e-2), 'distribution'
    return 'several' if n > 1 else None


@check.case('confidence', st.tuples(st.one_of(st.integers(2, 12), st.integers(13, 120)), st.one_of(st.integers(1, 5), st.integers(6, 40)), st.integers(0, 999)), quick=100)
def confidence(x):
    n, k, seed = x
    data = np.random.RandomState(seed).randn(n, k).round(2) * 3
    m, c = get_mean_and_confidence(data)
    mean = data.sum(0) / n
    sd = np.sqrt(((data - mean) ** 2).sum(0) / (n - 1))
    want = stats.t.ppf(.975, n - 1) * sd / np.sqrt(n)
    assert np.shape(m) == np.shape(c) == (k,)
    assert np.allclose(m, mean) and np.allclose(c, want), ('confidence', c, want)
    return 'runs' if k > 1 else None


shapes = st.lists(st.sampled_from([(1,), (3,), (2, 2), (1, 3), (2, 1, 2), (), (20, 7), (64,)]), min_size=1, max_size=9)


@check.case('torch', st.tuples(shapes, st.lists(st.booleans(), min_size=9, max_size=9), st.booleans(), st.integers(0, 99)), quick=200)
def torch_utils(x):
    sh, has_grad, as_numpy, seed = x
    g = torch.Generator().manual_seed(seed)
    ps = [torch.nn.Parameter(torch.randn(s, generator=g)) for s in sh]
    n = sum(p.numel() for p in ps)
    flat = torch.cat([p.detach().reshape(-1) for p in ps])
    w = TorchUtils.get_weights(ps)
    assert torch.equal(w, flat), 'weights'
    new = torch.arange(n, dtype=torch.float32) / 4
    src = new.numpy().copy() if as_numpy else new.clone()
    TorchUtils.set_weights(ps, src)
    assert [tuple(p.shape) for p in ps] == list(sh)
    assert torch.equal(TorchUtils.get_weights(ps), new), 'weights just set'
    with torch.no_grad():
        ps[0].add_(1.)
    assert np.array_equal(np.array(src), new.numpy()), 'the vector given is not the storage'

    def loss(factor):
        return sum((p * p).sum() * (i + 1) * factor for i, (p, h) in enumerate(zip(ps, has_grad)) if h)
    if any(has_grad[:len(ps)]):
        loss(1.).backward()
        want = torch.cat([(2. * (i + 1) * p.detach() if h else torch.zeros_like(p)).reshape(-1)
                          for i, (p, h) in enumerate(zip(ps, has_grad))])
        assert torch.allclose(TorchUtils.get_gradient(ps), want), 'gradient'
        TorchUtils.zero_grad(ps)
        assert torch.equal(TorchUtils.get_gradient(ps), torch.zeros(n)), 'gradient after zero_grad'
    for data in ([1, 2, 3], np.array([1.5, 2]), np.array([[True, False]]), torch.tensor([1.25], dtype=torch.float64)):
        t = TorchUtils.to_float_tensor(data)
        assert t.dtype == torch.float32 and np.array_equal(t.numpy(), np.asarray(data, dtype=np.float32))
    t = TorchUtils.to_int_tensor(np.array([3, -2]))
    assert t.dtype == torch.int32 and t.tolist() == [3, -2]

    # an optimizer keeps its state when its parameters are replaced by copies
    a = [torch.nn.Parameter(p.detach().clone()) for p in ps]
    b = [torch.nn.Parameter(p.detach().clone()) for p in ps]
    oa, ob = torch.optim.Adam(a, lr=.1), torch.optim.Adam(b, lr=.1)
    swap = len(sh) % 3              # 0: before the first step, when the optimizer has no state yet
    for step in range(4):
        if step == swap:
            b = [torch.nn.Parameter(p.detach().clone()) for p in b]
            TorchUtils.update_optimizer_parameters(ob, b)
        for par, o in ((a, oa), (b, ob)):
            o.zero_grad()
            sum(((p - step) ** 2).sum() * (i + 1) for i, p in enumerate(par)).backward()
            o.step()
        for p, q in zip(a, b):
            assert torch.equal(p, q), ('optimizer after replacing its parameters', step)
    return 'blocks' if len(sh) > 1 else None


@check.case('categorical', st.tuples(st.one_of(st.integers(2, 5), st.integers(6, 60)), st.one_of(st.integers(1, 4), st.integers(5, 80)), st.integers(0, 99)), quick=80)
def categorical(x):
    k, b, seed = x
    g = torch.Generator().manual_seed(seed)
    logits = torch.randn((b, k), generator=g) * 2
    act = torch.randint(0, k, (b, 1), generator=g)
    lp = CategoricalWrapper(logits).log_prob(act)
    want = torch.stack([logits[i, act[i, 0]] - torch.logsumexp(logits[i], 0) for i in range(b)])
    assert torch.allclose(lp.reshape(-1), want, atol=1e-5), 'log-probabilities of a batch of discrete actions'
    return 'batch' if b > 1 else None
