"""C28 - gradient optimizers: exact update rules over any sequence of steps."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.rl_utils.optimizers import AdamOptimizer, AdaptiveOptimizer, SGDOptimizer
from mushroom_rl.rl_utils.parameters import DecayParameter, LinearParameter, Parameter
from pbt.harness import Check

check = Check('C28', rule='a case is an optimizer with random constants, ascent or descent, a learning-rate schedule and a '
              'sequence of gradients; parameters after every step are compared with the reference rule; non-trivial with '
              'at least two steps')

q = st.integers(-40, 40).map(lambda v: v / 8.)


@st.composite
def runs(draw):
    d = draw(st.integers(1, 4))
    k = draw(st.integers(1, 8))
    more = draw(st.sampled_from([0, 0, 0, 20, 150]))
    scale = draw(st.sampled_from([1., 1., 1., 1e-3, 1e-5]))
    q = st.integers(-40, 40).map(lambda v: v / 8. * scale)
    rng = np.random.RandomState(draw(st.integers(0, 99)))
    extra = (rng.randint(-40, 41, size=(more, d)) / 8. * scale).tolist()      # long histories
    return dict(theta=[draw(q) for _ in range(d)], grads=[[draw(q) for _ in range(d)] for _ in range(k)] + extra,
                maximize=draw(st.booleans()), lr=draw(st.sampled_from([.001, .1, .5])),
                sched=draw(st.sampled_from(['float', 'const', 'linear', 'decay'])),
                b1=draw(st.sampled_from([.9, .5])), b2=draw(st.sampled_from([.999, .9])), eps=draw(st.sampled_from([1e-7, 1e-3])))


def rate(x):
    lr = x['lr']
    if x['sched'] == 'float':
        return lr, lambda k: lr
    if x['sched'] == 'const':
        return Parameter(lr), lambda k: lr
    if x['sched'] == 'linear':
        return LinearParameter(lr, lr / 4., 5), lambda k: max(lr + (lr / 4. - lr) * k / 5., lr / 4.)
    return DecayParameter(lr, exp=.5), lambda k: lr / k ** .5


def drive(opt, x, ref):
    theta = np.array(x['theta'])
    for k, g in enumerate(x['grads'], 1):
        g = np.array(g)
        g0, t0 = g.copy(), theta.copy()
        new = opt(theta, g)
        assert np.array_equal(g, g0), 'the gradient given to the optimizer was changed'
        assert np.array_equal(theta, t0), 'the parameters given to the optimizer were changed'
        want = ref(theta, g0 if x['maximize'] else -g0, k)
        assert new.shape == theta.shape and np.allclose(new, want, rtol=1e-6, atol=1e-9), (k, new, want)
        theta = new
    return 'steps' if len(x['grads']) > 1 else None


@check.case('sgd', runs(), quick=300)
def sgd(x):
    lr, sched = rate(x)
    return drive(SGDOptimizer(lr=lr, maximize=x['maximize']), x, lambda t, g, k: t + sched(k) * g)


@check.case('adam', runs(), quick=400)
def adam(x):
    lr, sched = rate(x)
    s = dict(m=0., v=0.)

    def ref(t, g, k):
        s['m'] = x['b1'] * s['m'] + (1 - x['b1']) * g
        s['v'] = x['b2'] * s['v'] + (1 - x['b2']) * g ** 2
        return t + sched(k) * (s['m'] / (1 - x['b1'] ** k)) / (np.sqrt(s['v'] / (1 - x['b2'] ** k)) + x['eps'])
    return drive(AdamOptimizer(lr=lr, beta1=x['b1'], beta2=x['b2'], eps=x['eps'], maximize=x['maximize']), x, ref)


@check.case('adaptive', st.tuples(runs(), st.integers(0, 2 ** 31 - 1), st.sampled_from([.01, .5, 2.])), quick=400)
def adaptive(x):
    """The step is along the (natural) gradient and its metric length is exactly eps."""
    x, seed, eps = x
    opt = AdaptiveOptimizer(eps=eps, maximize=x['maximize'])
    rng = np.random.RandomState(seed)
    theta = np.array(x['theta'])
    d = len(theta)
    n = 0
    for g in x['grads']:
        g = np.array(g)
        if np.linalg.norm(g) < 1e-6:
            continue
        n += 1
        sgn = 1. if x['maximize'] else -1.
        step = opt(theta, g) - theta
        assert np.isclose(step @ step, eps, rtol=1e-5), ('length', step @ step, eps)
        assert np.allclose(step, sgn * g * np.sqrt(eps / (g @ g)), rtol=1e-5)
        L = rng.randn(d, d)
        M = L @ L.T + np.eye(d)
        ng = np.linalg.solve(M, g)
        g0, ng0 = g.copy(), ng.copy()
        step = opt(theta, g, ng) - theta
        assert np.array_equal(g, g0) and np.array_equal(ng, ng0), 'a gradient given to the optimizer was changed'
        assert np.isclose(step @ M @ step, eps, rtol=1e-5), ('metric length', step @ M @ step, eps)
        assert np.allclose(step, sgn * ng * np.sqrt(eps / (g @ ng)), rtol=1e-5)
        theta = theta + step
    return 'd%d' % d if n > 1 else None
