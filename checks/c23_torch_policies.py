"""C23 - torch policies: log-probabilities, draws, entropies and weights agree with the policy's distribution."""
import numpy as np
import torch
import torch.nn as nn
from hypothesis import strategies as st

from mushroom_rl.algorithms.actor_critic.deep_actor_critic.sac import SACPolicy
from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import TorchApproximator
from mushroom_rl.policy import BoltzmannTorchPolicy, GaussianTorchPolicy, RecurrentGaussianTorchPolicy
from pbt.harness import Check
from pbt.stat import standard_normal

check = Check('C23', rule='a case is a torch policy (Gaussian, Boltzmann, SAC, recurrent), its dimensions, random weights and a batch '
              'of states; probabilities, entropies and draws are compared with values computed from the weights with plain '
              'numpy; non-trivial when weights were set and at least one draw or probability compared')

seeds = st.integers(0, 2 ** 31 - 1)
dims = st.sampled_from([1, 2, 3, 3, 5])
T = lambda a: torch.tensor(a, dtype=torch.float32)


class Net(nn.Module):
    def __init__(self, input_shape, output_shape, n_features=3, **kw):
        super().__init__()
        self.h = nn.Linear(input_shape[0], n_features)
        self.o = nn.Linear(n_features, output_shape[0])

    def forward(self, state, **kw):
        return self.o(torch.tanh(self.h(state.float())))


def size(n_s, n_o, h=3):
    return (n_s + 1) * h + (h + 1) * n_o


def forward(w, n_s, n_o, X, h=3):
    a = w[:n_s * h].reshape(h, n_s)
    b = w[n_s * h:(n_s + 1) * h]
    c = w[(n_s + 1) * h:(n_s + 1) * h + n_o * h].reshape(n_o, h)
    d = w[(n_s + 1) * h + n_o * h:]
    return np.tanh(X @ a.T + b) @ c.T + d


def normal_lp(x, m, s):
    return -.5 * ((x - m) / s) ** 2 - np.log(s) - .5 * np.log(2 * np.pi)


def independent(pi, other, r, loss):
    """Weights given to set_weights are copied: optimizing one policy leaves the vector and the other policy alone."""
    n = len(np.asarray(pi.get_weights()))
    w = T(r.randn(n) * .5)
    keep = w.clone()
    pi.set_weights(w)
    other.set_weights(w)
    assert np.allclose(np.asarray(other.get_weights()), keep.numpy(), atol=1e-6), 'weights round trip'
    opt = torch.optim.SGD(pi.parameters(), lr=.5)
    opt.zero_grad()
    loss(pi).backward()
    opt.step()
    assert not np.allclose(np.asarray(pi.get_weights()), keep.numpy()), 'parameters() are not the weights of the policy'
    assert torch.equal(w, keep), 'optimizing the policy changed the weights vector it was set from'
    assert np.allclose(np.asarray(other.get_weights()), keep.numpy(), atol=1e-7), 'optimizing a policy changed another one'


def means_ok(X, m, s, what):
    standard_normal((X - m) / s, what)


@check.case('gaussian', st.tuples(dims, dims, st.sampled_from([1, 2, 3, 5, 33, 70]), seeds, st.sampled_from([.7, .7, 2.5])), quick=120)
def gaussian(x):
    n_s, n_a, B, seed, amp = x
    r = np.random.RandomState(seed)
    std0 = (r.rand() + .2) * r.choice([1., 1., .05, 20.])
    mk = lambda: GaussianTorchPolicy(Net, (n_s,), (n_a,), std_0=std0)
    pi = mk()
    w0 = pi.get_weights()
    assert len(w0) == size(n_s, n_a) + n_a and np.allclose(w0[-n_a:].numpy(), np.log(std0), atol=1e-6), 'std_0'
    for _ in range(2):
        w = r.randn(len(w0)) * amp
        pi.set_weights(T(w))
        assert np.allclose(pi.get_weights().numpy(), w, atol=1e-6), 'weights'
        S = r.randn(B, n_s)
        m, s = forward(w[:-n_a], n_s, n_a, S), np.exp(w[-n_a:])
        A = m + s * r.randn(B, n_a)
        lp = normal_lp(A, m, s).sum(1)
        got = pi.log_prob_t(T(S), T(A))
        assert got.shape == (B, 1) and np.allclose(got.detach().numpy()[:, 0], lp, rtol=1e-3, atol=1e-3), ('log_prob', got, lp)
        p = pi(T(S), T(A)).detach().numpy().ravel()
        assert np.allclose(p, np.exp(lp), rtol=1e-2, atol=1e-9), 'probability'
        p1 = pi(T(S[0]), T(A[0])).detach().numpy().ravel()
        assert p1.shape == (1,) and np.allclose(p1, np.exp(lp[0]), rtol=1e-2, atol=1e-9), 'probability of a single action'
        H = (.5 * np.log(2 * np.pi * np.e) + w[-n_a:]).sum()
        for e in (pi.entropy(), pi.entropy(T(S)), pi.entropy_t(T(S)).detach(), pi.distribution(T(S)).entropy().mean().detach()):
            assert np.allclose(float(e), H, atol=1e-3), ('entropy', e, H)
        d = pi.distribution_t(T(S))
        assert np.allclose(d.mean.detach().numpy(), m, atol=1e-4)
        mu, ch = pi.get_mean_and_chol(T(S))
        assert np.allclose(mu.detach().numpy(), m, atol=3e-4) and np.allclose(ch.detach().numpy(), np.diag(s), rtol=1e-4)
        X = np.array([pi.draw_action(T(S[0]))[0].numpy() for _ in range(100)])
        assert X.shape == (100, n_a), X.shape
        means_ok(X, m[0], s, 'gaussian')
        Y = pi.draw_action_t(T(np.repeat(S[:1], 100, 0)))
        assert Y.shape == (100, n_a) and not Y.requires_grad
        means_ok(Y.numpy(), m[0], s, 'batch draws')
    independent(pi, mk(), r, lambda p: p.log_prob_t(T(S), T(A)).mean() + p.entropy_t(None))
    return 'gaussian'


@check.case('boltzmann', st.tuples(dims, st.sampled_from([2, 3, 4, 9]), st.sampled_from([1, 2, 3, 5, 40]), st.sampled_from([.5, 1., 3., 40.]), seeds),
            quick=120)
def boltzmann(x):
    n_s, n_a, B, beta, seed = x
    r = np.random.RandomState(seed)
    mk = lambda: BoltzmannTorchPolicy(Net, (n_s,), (n_a,), beta)
    pi = mk()
    w = r.randn(size(n_s, n_a))
    pi.set_weights(T(w))
    assert np.allclose(pi.get_weights().numpy(), w, atol=1e-6), 'weights'
    if seed % 2:
        beta = beta * 2
        pi.set_beta(beta)
    S = r.randn(B, n_s)
    z = beta * forward(w, n_s, n_a, S)
    P = np.exp(z - z.max(1, keepdims=True))
    P /= P.sum(1, keepdims=True)
    A = r.randint(n_a, size=(B, 1))
    got = pi.log_prob_t(T(S), torch.tensor(A))
    ref = (z - z.max(1, keepdims=True) - np.log(np.exp(z - z.max(1, keepdims=True)).sum(1, keepdims=True)))[np.arange(B), A[:, 0]]
    assert got.shape == (B, 1) and np.allclose(got.detach().numpy()[:, 0], ref, rtol=1e-3, atol=1e-3 * max(1., beta / 3)), ('log_prob', got, ref)
    assert np.allclose(pi(T(S), torch.tensor(A)).detach().numpy().ravel(), np.exp(ref), rtol=5e-3, atol=1e-5)
    assert np.allclose(pi(T(S[0]), torch.tensor(A[0])).detach().numpy().ravel(), np.exp(ref[0]), rtol=5e-3, atol=1e-5)
    H = -(P * np.log(np.maximum(P, 1e-30))).sum(1).mean()
    assert np.allclose(float(pi.entropy(T(S))), H, rtol=1e-3, atol=1e-3), ('entropy', pi.entropy(T(S)), H)
    assert np.allclose(pi.distribution(T(S)).probs.detach().numpy(), P, rtol=1e-3, atol=1e-4)
    n = 150
    X = [pi.draw_action(T(S[0]))[0] for _ in range(n)]
    assert all(a.shape == (1,) for a in X), X[0].shape
    c = np.bincount([int(a[0]) for a in X], minlength=n_a)
    assert len(c) == n_a and np.all(np.abs(c - n * P[0]) <= 6.5 * np.sqrt(n * P[0] * (1 - P[0])) + 2), ('draws', c, n * P[0])
    if beta > 3:
        pi.set_beta(1.)   # a saturated policy has no gradient
    independent(pi, mk(), r, lambda p: p.log_prob_t(T(S), torch.tensor(A)).mean())
    return 'boltzmann' if np.ptp(z) > .1 else None


@check.case('sac', st.tuples(dims, dims, st.sampled_from([1, 2, 3, 5, 34]), seeds), quick=120)
def sac(x):
    n_s, n_a, B, seed = x
    r = np.random.RandomState(seed)
    lo, hi = -r.rand(n_a) * 2 - .1, r.rand(n_a) * 2 + .1
    if seed % 3 == 0:
        lo, hi = lo * 4 + 1., hi * 4 + 1.
    reg = lambda: Regressor(TorchApproximator, (n_s,), (n_a,), network=Net)
    lmin, lmax = [(-1., .5), (-3., 1.), (-20., 2.)][seed % 3]
    mk = lambda: SACPolicy(reg(), reg(), lo.copy(), hi.copy(), lmin, lmax)
    pi = mk()
    k = size(n_s, n_a)
    w = r.randn(2 * k)
    pi.set_weights(T(w))
    assert np.allclose(np.asarray(pi.get_weights()), w, atol=1e-6), 'weights'
    S = r.randn(B, n_s)
    m = forward(w[:k], n_s, n_a, S)
    raw = forward(w[k:], n_s, n_a, S)
    s = np.exp(np.clip(raw, lmin, lmax))
    d = pi.distribution(T(S))
    assert np.allclose(d.mean.detach().numpy(), m, atol=1e-4) and np.allclose(d.stddev.detach().numpy(), s, rtol=1e-3), 'distribution'
    Z = []
    for t in range(25):
        a, lp = pi.compute_action_and_log_prob(T(S))
        assert a.shape == (B, n_a) and lp.shape == (B,), (a.shape, lp.shape)
        a = a.numpy().astype(float)
        assert np.all(a >= lo - 1e-5) and np.all(a <= hi + 1e-5), 'an action is outside its range'
        sq = (a - .5 * (hi + lo)) / (.5 * (hi - lo))
        ok = np.all(np.abs(sq) < .995, axis=1)
        u = np.arctanh(np.clip(sq, -.99999, .99999))
        ref = (normal_lp(u, m, s) - np.log(1 - sq ** 2 + 1e-6)).sum(1)
        assert np.allclose(lp.numpy()[ok], ref[ok], rtol=2e-2, atol=2e-2), ('log_prob', lp, ref)
        Z.append((u - m) / s)
    Z = np.array(Z)
    inside = np.abs(Z * s + m).max() < 3.
    if inside:
        standard_normal(Z.reshape(-1, n_a), 'squashed')
    # one state at a time
    a, ps = pi.draw_action(T(S[0]))
    assert a.shape == (n_a,) and ps is None and not a.requires_grad
    # the reparametrised sample carries the gradient of mean and standard deviation
    torch.manual_seed(seed)
    a, lp = pi.compute_action_and_log_prob_t(T(S))
    assert a.requires_grad and lp.requires_grad
    torch.manual_seed(seed)
    e = -pi.entropy(T(S))
    assert np.allclose(float(e), float(lp.mean()), atol=1e-5), 'entropy is not minus the mean log probability'
    independent(pi, mk(), r, lambda p: p.compute_action_and_log_prob_t(T(S))[1].mean())
    return 'sac'


class RNet(nn.Module):
    """Elman cell unrolled over the valid part of each sequence."""
    def __init__(self, input_shape, output_shape, n_hidden=2, **kw):
        super().__init__()
        self.n_hidden = n_hidden
        self.rnn = nn.RNN(input_shape[0], n_hidden, batch_first=True)
        self.o = nn.Linear(n_hidden, output_shape[0])

    def forward(self, state, policy_state, lengths):
        packed = nn.utils.rnn.pack_padded_sequence(state.float(), lengths, enforce_sorted=False, batch_first=True)
        out, h = self.rnn(packed, policy_state.float().view(-1, 1, self.n_hidden).swapaxes(0, 1).contiguous())
        feat, _ = nn.utils.rnn.pad_packed_sequence(out, batch_first=True)
        last = torch.take_along_dim(feat, lengths.view(-1, 1, 1) - 1, dim=1).squeeze(1)
        return self.o(last), h.swapaxes(0, 1)


@check.case('recurrent', st.tuples(dims, dims, st.sampled_from([1, 2, 3, 4, 20]), st.sampled_from([1, 2, 3, 4, 9]),
                                   st.sampled_from([.1, .5, 1., 4.]), seeds), quick=100)
def recurrent(x):
    n_s, n_a, B, L, std0, seed = x
    r = np.random.RandomState(seed)
    H = 2
    mk = lambda: RecurrentGaussianTorchPolicy(policy_state_shape=(H,), network=RNet, input_shape=(n_s,), output_shape=(n_a,),
                                              std_0=std0, n_hidden=H, log_std_min=-1., log_std_max=.75)
    pi = mk()
    assert pi.is_stateful and torch.equal(pi.reset(), torch.zeros(H))
    w = r.randn(len(pi.get_weights())) * .7
    w[-n_a:] = np.log(std0)
    pi.set_weights(T(w))
    assert np.allclose(pi.get_weights().numpy(), w, atol=1e-6), 'weights'
    net = [p.detach().numpy().astype(float) for p in pi.parameters()]
    Wi, Wh, bi, bh, Wo, bo = net[:6]
    sd = np.exp(np.clip(np.log(std0), -1., .75)) * np.ones(n_a)

    def unroll(seq, h):
        for s in seq:
            h = np.tanh(Wi @ s + bi + Wh @ h + bh)
        return Wo @ h + bo, h
    S = r.randn(B, L, n_s)
    h0 = r.randn(B, H)
    lengths = r.randint(1, L + 1, size=B)
    lengths[0] = L
    for b in range(B):
        S[b, lengths[b]:] = 0.
    ref = [unroll(S[b, :lengths[b]], h0[b]) for b in range(B)]
    m = np.array([a for a, _ in ref])
    A = m + sd * r.randn(B, n_a)
    lp = normal_lp(A, m, sd).sum(1)
    got = pi.log_prob_t(T(S), T(A), T(h0), torch.tensor(lengths))
    assert got.shape == (B, 1) and np.allclose(got.detach().numpy()[:, 0], lp, rtol=1e-3, atol=1e-3), ('log_prob', got, lp)
    d = pi.distribution(T(S), T(h0), torch.tensor(lengths))
    assert np.allclose(d.mean.detach().numpy(), m, atol=1e-4)
    ent = (.5 * np.log(2 * np.pi * np.e) + np.log(sd)).sum()
    assert np.allclose(float(pi.entropy()), ent, atol=1e-3), ('entropy', pi.entropy(), ent)
    assert np.allclose(d.entropy().detach().numpy(), ent, atol=1e-3)
    # online: the policy state carries the hidden state along the episode
    ps, h = pi.reset(), np.zeros(H)
    Z = []
    for t in range(80):
        s = r.randn(n_s)
        a, nps = pi.draw_action(T(s), ps)
        mm, h = unroll([s], h)
        assert a.shape == (n_a,), a.shape
        assert np.allclose(np.ravel(nps.numpy()), h, atol=1e-4), ('policy state', nps, h)
        Z.append((a.numpy() - mm) / sd)
        ps = nps.reshape(H)
    Z = np.array(Z)
    standard_normal(Z, 'recurrent')
    assert np.all(np.abs(Z).max(0) < 7), 'draws'
    independent(pi, mk(), r, lambda p: p.log_prob_t(T(S), T(A), T(h0), torch.tensor(lengths)).mean())
    return 'recurrent' if L > 1 else None
