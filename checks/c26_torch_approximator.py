"""C26 - torch approximators: fits are exactly the requested gradient steps; predictions, derivatives and weights are consistent."""
import numpy as np
import torch
import torch.nn as nn
import torch.nn.functional as F
from hypothesis import assume, strategies as st

from mushroom_rl.approximators import Regressor
from mushroom_rl.approximators.parametric import NumpyTorchApproximator, TorchApproximator
from pbt.harness import Check

check = Check('C26', rule='a case is a torch regressor (numpy or torch interface, generic or Q-regressor, single or ensemble), a data '
              'set and a fit configuration (batch size, epochs, weights, validation split, early stopping, several '
              'targets); the parameters after the fit are compared with gradient steps computed here on the batches that were '
              'used; non-trivial when the parameters change')

seeds = st.integers(0, 2 ** 31 - 1)
LR = .05
dims = st.sampled_from([1, 2, 3, 5])


class Net(nn.Module):
    calls = []
    record = False

    def __init__(self, input_shape, output_shape, n_features=3, **kw):
        super().__init__()
        self.h = nn.Linear(input_shape[0], n_features)
        self.o = nn.Linear(n_features, output_shape[0])

    def weights_init(self):
        with torch.no_grad():
            for p in self.parameters():
                p.fill_(.1)
            self.h.weight.copy_(torch.arange(self.h.weight.numel()).reshape(self.h.weight.shape) / 10.)

    def forward(self, state, action=None, scale=1.):
        if Net.record:
            Net.calls.append((state.detach().clone(), self.training, [p.detach().clone() for p in self.parameters()]))
        q = self.o(torch.tanh(self.h(state.float()))) * scale
        if action is None:
            return q
        return q.gather(1, action.long()).squeeze(1)


class TwoHeads(Net):
    def forward(self, state, scale=1.):
        q = super().forward(state, scale=scale)
        return q, q ** 2


def two_loss(y_hat, a, b):
    return F.mse_loss(y_hat[0], a) + 3 * F.mse_loss(y_hat[1], b)


def flat(net):
    return np.concatenate([p.detach().numpy().ravel() for p in net.parameters()]).astype(float)


def copy_of(net, n_s, n_o):
    c = type(net)((n_s,), (n_o,))
    c.load_state_dict(net.state_dict())
    return c


def sgd(net, loss, vel=None, lr=LR):
    g = torch.autograd.grad(loss, list(net.parameters()))
    with torch.no_grad():
        for i, (p, d) in enumerate(zip(net.parameters(), g)):
            if vel is not None:
                d = vel[i] = .5 * vel[i] + d if i in vel else d.clone()
            p -= lr * d


def at(ref, call):
    """Give ref the parameters the network had at the recorded call (the oracle checks each step on its own)."""
    with torch.no_grad():
        for p, v in zip(ref.parameters(), call[2]):
            p.copy_(v)


def stepped(ref, net, calls, pos):
    """The parameters at the next recorded call (or now) are those of ref."""
    now = np.concatenate([p.numpy().ravel() for p in calls[pos][2]]) if pos < len(calls) else flat(net)
    want = flat(ref)
    if not np.all(np.abs(want) < 1e4):
        assume(False)   # the requested steps diverge
    return np.allclose(now, want, rtol=1e-3, atol=1e-5 * max(1., np.abs(want).max()))


def build(numpy, n_s, n_o, seed, **kw):
    torch.manual_seed(seed % 1000)
    net = kw.pop('network', Net)
    return Regressor(NumpyTorchApproximator if numpy else TorchApproximator, input_shape=(n_s,), output_shape=(n_o,), network=net,
                     optimizer={'class': torch.optim.SGD, 'params': kw.pop('optpar', {'lr': LR})}, **dict(dict(loss=F.mse_loss), **kw))


def conv(numpy, *a):
    return a if numpy else tuple(torch.tensor(v) for v in a)


def rows(data, batch):
    """Indices of the rows of data that make up the batch (rows are distinct)."""
    d = ((data[None] - batch[:, None]) ** 2).sum(-1)
    idx = d.argmin(1)
    assert np.all(d[np.arange(len(batch)), idx] < 1e-10), 'a batch contains a row that is not in the data'
    return idx


@check.case('fit', st.fixed_dictionaries(dict(
    numpy=st.booleans(), n_s=dims, n_o=dims, N=st.one_of(st.integers(2, 12), st.sampled_from([17, 32, 33, 50])), batch=st.sampled_from([0, 1, 2, 3, 5, 12, 16, 32]),
    epochs=st.sampled_from([None, 1, 2, 3, 6]), amp=st.sampled_from([1., 1., 30.]), rounds=st.sampled_from([1, 2, 2, 4]), scale=st.sampled_from([None, None, .5]), opt=st.sampled_from(['sgd', 'sgd', 'momentum']), kind=st.sampled_from(['generic', 'q', 'two', 'weighted']), split=st.sampled_from([1., .75, .5, .3]),
    dropout=st.booleans(), reinit=st.booleans(), seed=seeds)), quick=250)
def fit(x):
    r = np.random.RandomState(x['seed'])
    n_s, n_o, N, kind = x['n_s'], x['n_o'], x['N'], x['kind']
    kw = dict(batch_size=x['batch'], dropout=x['dropout'], reinitialize=x['reinit'])
    if kind in ('q', 'weighted'):
        n_o = max(n_o, 2)
        kw['n_actions'] = n_o
    if kind == 'two':
        kw.update(network=TwoHeads, n_fit_targets=2, loss=two_loss)
    lr = LR / x['amp'] ** 2
    vel = {} if x['opt'] == 'momentum' else None
    kw['optpar'] = dict(lr=lr) if vel is None else dict(lr=lr, momentum=.5)
    fwd = {} if x['scale'] is None else dict(scale=x['scale'])
    reg = build(x['numpy'], n_s, n_o, x['seed'], **kw)
    net = reg.model.network
    S = r.randn(N, n_s)
    A = r.randint(max(n_o, 1), size=(N, 1))
    amp = x['amp']
    Y, Z, w = amp * r.randn(N, n_o), amp * r.randn(N, n_o), (r.rand(N) + .1) * amp
    y = amp * r.randn(N)
    given = [v.copy() for v in (S, A, Y, Z, w, y)]
    for rnd in range(x['rounds']):
        ref = copy_of(net, n_s, n_o)
        before = flat(net)
        Net.calls = []
        fk = {} if x['epochs'] is None else dict(n_epochs=x['epochs'])
        fk.update(fwd)
        if x['split'] < 1.:
            fk['validation_split'] = x['split']
        Net.record = True
        if kind == 'generic':
            reg.fit(*conv(x['numpy'], S, Y), **fk)
        elif kind == 'two':
            reg.fit(*conv(x['numpy'], S, Y, Z), **fk)
        else:
            if kind == 'weighted':
                fk['weights'] = conv(x['numpy'], w)[0]
            reg.fit(*conv(x['numpy'], S, A, y), **fk)
        calls = Net.calls
        Net.record = False
        n_train = int(np.ceil(N * x['split']))
        n_ep = x['epochs'] or 1
        bs = x['batch'] or n_train
        n_b = int(np.ceil(n_train / bs))
        assert len(calls) == n_ep * n_b, ('number of gradient steps', len(calls), n_ep, n_b)
        if x['dropout']:
            assert all(c[1] for c in calls) and not net.training, 'train/eval mode'
        if x['reinit']:
            ref.weights_init()
        assert stepped(ref, net, calls, 0), 'parameters at the start of the fit'
        losses = []
        for e in range(n_ep):
            seen = []
            losses = []
            for b in range(n_b):
                at(ref, calls[e * n_b + b])
                idx = rows(S, calls[e * n_b + b][0].numpy())
                assert len(idx) == (bs if b < n_b - 1 else n_train - bs * (n_b - 1)), ('size of batch', len(idx))
                seen += list(idx)
                s = torch.tensor(S[idx])
                t = lambda v: torch.tensor(v[idx], dtype=torch.float32)
                if kind == 'generic':
                    loss = ((ref(s, **fwd) - t(Y)) ** 2).mean()
                elif kind == 'two':
                    q, q2 = ref(s, **fwd)
                    loss = ((q - t(Y)) ** 2).mean() + 3 * ((q2 - t(Z)) ** 2).mean()
                else:
                    d = (ref(s, torch.tensor(A[idx]), **fwd) - t(y)) ** 2
                    loss = d.mean() if kind == 'q' else (d * t(w)).sum() / t(w).sum()
                losses.append(float(loss.detach()))
                sgd(ref, loss, vel, lr)
                assert stepped(ref, net, calls, e * n_b + b + 1), 'parameters after a gradient step'
            assert sorted(seen) == list(range(n_train)), ('an epoch is not one pass over the training data', seen)
        assert all(np.array_equal(u, v) for u, v in zip(given, (S, A, Y, Z, w, y))), 'fit changed its data'
        assert np.allclose(reg.model.loss_fit, np.mean(losses), rtol=1e-3, atol=1e-5), ('loss_fit', reg.model.loss_fit, losses)
    return '%s%s' % (kind, ':batches' if n_b > 1 else '') if not np.allclose(before, flat(net)) else None


@check.case('early', st.fixed_dictionaries(dict(
    N=st.one_of(st.integers(2, 8), st.sampled_from([20, 33])), eps=st.sampled_from([1e-4, 1e-3, .01, .1, 10.]), patience=st.sampled_from([1, 2, 3, 5, 8]),
    epochs=st.sampled_from([None, 3, 20, 50]), split=st.sampled_from([1., 1., .5, .8]), batch=st.sampled_from([0, 0, 1, 4, 16]), weighted=st.booleans(),
    rounds=st.sampled_from([1, 2]), lr=st.sampled_from([.05, .05, .4]), dropout=st.booleans(), seed=seeds)), quick=150)
def early(x):
    """Early stopping follows the documented rule on the losses of the batches that were used."""
    N, eps, patience = x['N'], x['eps'], x['patience']
    r = np.random.RandomState(x['seed'])
    reg = build(True, 2, 2, x['seed'], batch_size=x['batch'], n_actions=2, optpar=dict(lr=x['lr']),
                dropout=x['dropout'])
    net = reg.model.network
    S, A, y, w = r.randn(N, 2), r.randint(2, size=(N, 1)), r.randn(N), r.rand(N) + .1
    if not x['weighted']:
        w = np.ones(N)
    nt = int(np.ceil(N * x['split']))
    bs = x['batch'] or nt
    nb = int(np.ceil(nt / bs))
    cap = x['epochs'] or 400
    for rnd in range(x['rounds']):
        ref = copy_of(net, 2, 2)
        Net.calls = []
        kw = dict(weights=w) if x['weighted'] else {}
        if x['epochs'] is not None or x['eps'] < .01:
            kw['n_epochs'] = cap
        Net.record = True
        reg.fit(S, A, y, epsilon=eps, patience=patience, validation_split=x['split'], **kw)
        calls = Net.calls
        Net.record = False
        assert not (x['dropout'] and net.training), 'the network is left in training mode'

        def loss_of(idx):
            d = (ref(torch.tensor(S[idx]), torch.tensor(A[idx])) - torch.tensor(y[idx], dtype=torch.float32)) ** 2
            t = torch.tensor(w[idx], dtype=torch.float32)
            return (d * t).sum() / t.sum()
        best, wait, e, pos, margin = np.inf, 0, 0, 0, 1.
        while wait < patience and (e < cap or 'n_epochs' not in kw):
            losses = []
            for b in range(nb):
                if pos >= len(calls):
                    assert margin < 1e-5, ('the fit stopped too early', e, wait, patience)
                    return None
                at(ref, calls[pos])
                idx = rows(S, calls[pos][0].numpy())
                pos += 1
                loss = loss_of(idx)
                losses.append(float(loss.detach()))
                sgd(ref, loss, None, x['lr'])
                assert stepped(ref, net, calls, pos), 'parameters after a gradient step'
            if nt < N:
                assert pos < len(calls), 'the validation loss was not computed'
                at(ref, calls[pos])
                pos += 1
                cur = float(loss_of(np.arange(nt, N)).detach())
            else:
                cur = np.mean(losses)
            if np.isfinite(best):
                margin = min(margin, abs(best - cur - eps))
            if best - cur > eps:
                best, wait = cur, 0
            else:
                wait += 1
            e += 1
        if not np.all(np.isfinite(flat(ref))) or margin < 1e-5:
            return None
        assert pos == len(calls), ('number of epochs', e, pos, len(calls))
        assert np.allclose(reg.model.loss_fit, np.mean(losses), rtol=1e-3, atol=1e-5), 'loss_fit'
    return 'early' + (':validation' if nt < N else '')


@check.case('evaluate', st.tuples(st.booleans(), st.sampled_from(['generic', 'q', 'ensemble']), dims, st.sampled_from([2, 3, 5]),
                                  st.sampled_from(['mean', 'sum', 'min', 'max']), seeds, st.sampled_from([1, 2, 3, 6]), st.sampled_from([1, 2, 4, 40])), quick=200)
def evaluate(x):
    numpy, kind, n_s, n_o, pred, seed, M, B = x
    r = np.random.RandomState(seed)
    kw = dict(q=dict(n_actions=n_o), ensemble=dict(n_models=M, prediction=pred)).get(kind, {})
    reg = build(numpy, n_s, n_o, seed, **kw)
    out = (lambda v: np.asarray(v)) if numpy else (lambda v: v.detach().numpy())
    models = [reg.model] if kind != 'ensemble' else [reg[i] for i in range(len(reg))]
    size = (n_s + 1) * 3 + 4 * n_o
    Ws = []
    for m in models:
        w = r.randn(size).astype(np.float32)
        given = w.copy() if numpy else torch.tensor(w)
        m.set_weights(given)
        got = m.get_weights()
        assert m.weights_size == size and isinstance(got, np.ndarray if numpy else torch.Tensor)
        assert np.array_equal(np.asarray(got), w), 'weights round trip'
        got[:] = 0.
        assert np.array_equal(np.asarray(m.get_weights()), w), 'changing the returned weights changed the model'
        Ws.append(w.astype(float))

    def f(w, X):
        a, b = w[:3 * n_s].reshape(3, n_s), w[3 * n_s:3 * n_s + 3]
        c, d = w[3 * n_s + 3:3 * n_s + 3 + 3 * n_o].reshape(n_o, 3), w[-n_o:]
        return np.tanh(X @ a.T + b) @ c.T + d
    X = r.randn(B, n_s).astype(np.float32)
    P = np.array([f(w, X) for w in Ws])
    T = (lambda v: v) if numpy else torch.tensor
    if kind == 'ensemble':
        R = getattr(P, pred)(0)
        for p in ('mean', 'sum', 'min', 'max'):
            assert np.allclose(out(reg.predict(T(X), prediction=p)), getattr(P, p)(0), atol=1e-4), p
        assert np.allclose(out(reg.predict(T(X), idx=M - 1)), P[M - 1], atol=1e-4), 'member'
    else:
        R = P[0]
    got = out(reg.predict(T(X)))
    assert got.shape == R.shape and np.allclose(got, R, atol=1e-4), ('batch', got, R)
    one = out(reg.predict(T(X[-1])))
    assert one.shape == (n_o,) and np.allclose(one, R[-1], atol=1e-4), ('single', one, R[-1])
    if kind == 'generic':
        assert np.allclose(out(reg.predict(T(X), scale=2.)), 2 * R, atol=1e-4), 'predict parameters'
    if kind == 'q':
        A = r.randint(n_o, size=(B, 1))
        assert np.allclose(np.ravel(out(reg.predict(T(X), T(A)))), R[np.arange(B), A[:, 0]], atol=1e-4), 'values of actions'
    if kind == 'generic':
        D = np.asarray(reg.diff(T(X[0])))
        w = Ws[0]
        J = np.zeros((size, n_o))
        for i in range(size):
            h = np.zeros(size)
            h[i] = 1e-5
            J[i] = (f(w + h, X[:1]) - f(w - h, X[:1]))[0] / 2e-5
        assert D.shape == J.shape and np.allclose(D, J, rtol=1e-3, atol=1e-3), ('diff', D, J)
        # models set from the same vector stay independent
        other = build(numpy, n_s, n_o, seed)
        shared = w.astype(np.float32) if numpy else torch.tensor(w.astype(np.float32))
        reg.set_weights(shared)
        other.set_weights(shared)
        reg.fit(*conv(numpy, X, r.randn(B, n_o)))
        assert np.array_equal(np.asarray(shared), w.astype(np.float32)), 'fitting changed the vector given to set_weights'
        assert np.array_equal(np.asarray(other.get_weights()), w.astype(np.float32)), 'fitting changed another model'
    if kind == 'ensemble':
        before = [np.asarray(m.get_weights()).copy() for m in models]
        reg.fit(*conv(numpy, X, r.randn(B, n_o)), idx=M - 1)
        for i, m in enumerate(models):
            assert np.array_equal(before[i], np.asarray(m.get_weights())) == (i != M - 1), 'fit of one member'
    return kind


@check.case('linear network', st.tuples(dims, dims, st.booleans(), st.sampled_from([None, .1, 3.]), seeds, st.integers(1, 9)), quick=80)
def linear_network(x):
    """The linear network computes x W^T (+ b); its initial weights are Xavier-uniform with the requested gain."""
    from mushroom_rl.approximators.parametric.networks import LinearNetwork
    n_s, n_o, bias, gain, seed, B = x
    kw = dict(use_bias=True) if bias else {}
    if gain is not None:
        kw['gain'] = gain
    torch.manual_seed(seed % 10000)
    reg = Regressor(TorchApproximator, input_shape=(n_s,), output_shape=(n_o,), network=LinearNetwork, **kw)
    w = reg.get_weights().numpy()
    assert reg.weights_size == n_s * n_o + (n_o if bias else 0) == len(w)
    W = w[:n_s * n_o].reshape(n_o, n_s)
    bound = (gain or 1.) * np.sqrt(6. / (n_s + n_o))
    assert np.all(np.abs(W) <= bound * (1 + 1e-6)), ('initial weights exceed the Xavier bound', W, bound)
    if n_s * n_o >= 15:
        assert np.abs(W).max() > .4 * bound, ('initial weights too small', W, bound)   # probability < 1e-5 otherwise
    r = np.random.RandomState(seed)
    X = r.randn(B, n_s).astype(np.float32)
    b = w[n_s * n_o:] if bias else 0.
    got = reg.predict(torch.tensor(X)).detach().numpy()
    assert got.shape == (B, n_o) and np.allclose(got, X @ W.T + b, atol=1e-4), 'prediction'
    assert np.allclose(reg.predict(torch.tensor(X[0])).detach().numpy(), (X @ W.T + b)[0], atol=1e-4), 'single prediction'
    return 'linear'
