"""C20 - advantage estimators equal their textbook definition."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.rl_utils.value_functions import compute_advantage, compute_advantage_montecarlo, compute_gae
from pbt import dsgen
from pbt.harness import Check

check = Check('C20', rule='a case is a set of trajectories (lengths, absorbing or truncated ends, final cut), rewards, an '
              'arbitrary value function, gamma and lambda; estimates are compared with the double-sum definition; '
              'non-trivial with at least two trajectories or a truncated one')

data = st.fixed_dictionaries(dict(rows=st.one_of(dsgen.rows(1, 2), dsgen.rows(1, 18), dsgen.rows(1, 18),
                                                 dsgen.many_rows(1, 160)),
                                  dim=st.sampled_from([2, 2, 1, 7]), gamma=st.sampled_from([0., .5, .9, .99, 1.]),
                                  lam=st.sampled_from([0., .3, .95, 1.]), w=st.lists(st.integers(-8, 8), min_size=3,
                                                                                     max_size=3)))


def build(x):
    rs = x['rows']
    n = len(rs)
    d = x['dim']
    pt = lambda i: [float((7 * i) % 11), float(i % 3)][:d] + [float(i)] * (d - 2)
    s = torch.tensor([pt(i) for i in range(n)])
    ss = torch.tensor([pt(i + 1) if not rs[i][0] else [float((5 * i) % 13), 2.][:d] + [-1.] * (d - 2) for i in range(n)])
    r = torch.tensor([float(row[2]) for row in rs])
    ab = torch.tensor([row[1] for row in rs])
    last = torch.tensor([row[0] for row in rs])
    w = [v / 4. for v in x['w']]

    def V(z):
        z = torch.atleast_2d(z)
        return (w[0] * z[:, 0] + w[1] * z[:, min(1, z.shape[1] - 1)] ** 2 + w[2])[:, None]
    return s, ss, r, ab, last, V


def col(t):
    t = t.detach().numpy()
    assert t.ndim == 2 and t.shape[1] == 1, t.shape
    return t[:, 0].astype(float)


def close(a, b, rtol=1e-3):
    b = np.asarray(b, float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=rtol * max(1e-2, np.abs(b).max()))


@check.case('gae', data, quick=600)
def gae(x):
    s, ss, r, ab, last, V = build(x)
    n, g, lam = len(r), x['gamma'], x['lam']
    args = [t.clone() for t in (s, ss, r, ab, last)]
    tgt, adv = compute_gae(V, s, ss, r, ab, last, g, lam)
    for a, b in zip(args, (s, ss, r, ab, last)):
        assert torch.equal(a, b), 'an argument was changed'
    v, vn = col(V(s)), col(V(ss))
    rr, aa, ll = r.numpy().astype(float), ab.numpy(), last.numpy()
    delta = rr + g * vn * (1 - aa) - v
    want = np.zeros(n)
    for t in range(n):
        for k in range(t, n):
            want[t] += (g * lam) ** (k - t) * delta[k]
            if ll[k]:
                break
    assert close(col(adv), want), ('advantage', col(adv), want)
    assert close(col(tgt), want + v), ('value target', col(tgt))
    eps = int(ll.sum()) + (not ll[-1])
    return 'l%g' % lam if eps > 1 or not ll[-1] else None


@check.case('td', data, quick=300)
def td(x):
    s, ss, r, ab, last, V = build(x)
    q, adv = compute_advantage(V, s, ss, r, ab, x['gamma'])
    v, vn = col(V(s)), col(V(ss))
    want = r.numpy() + x['gamma'] * vn * (1 - ab.numpy())
    assert close(col(q), want, 1e-4) and close(col(adv), want - v, 1e-4)
    # lambda = 0 is the one-step estimate
    q0, a0 = compute_gae(V, s, ss, r, ab, last, x['gamma'], 0.)
    assert close(col(a0), col(adv)) and close(col(q0), col(q))
    return 'td' if ab.any() else None


@check.case('montecarlo', data, quick=300)
def montecarlo(x):
    """One trajectory: discounted rewards to the end, plus the discounted value of the final state if not absorbing."""
    rows = [(False, False, rew) for _, _, rew in x['rows']]
    rows[-1] = (True, x['rows'][-1][1], rows[-1][2])
    s, ss, r, ab, last, V = build(dict(x, rows=rows))
    q, adv = compute_advantage_montecarlo(V, s, ss, r, ab, x['gamma'])
    n, g = len(rows), x['gamma']
    v, vn = col(V(s)), col(V(ss))
    want = [sum(g ** (k - t) * float(r[k]) for k in range(t, n)) + g ** (n - t) * vn[-1] * (1 - int(ab[-1]))
            for t in range(n)]
    assert close(col(q), want), (col(q), want)
    assert close(col(adv), np.array(want) - v)
    q1, a1 = compute_gae(V, s, ss, r, ab, last, g, 1.)
    chain = all(torch.equal(ss[i], s[i + 1]) for i in range(n - 1))
    assert chain
    assert close(col(a1), col(adv)), 'lambda = 1 must agree with Monte Carlo'
    return 'abs' if bool(ab[-1]) else 'trunc'
