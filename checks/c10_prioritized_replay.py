"""C10 - prioritized replay: proportional sampling of stored transitions, exact importance weights, exact updates."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.rl_utils.parameters import LinearParameter, Parameter
from mushroom_rl.rl_utils.replay_memory import PrioritizedReplayMemory, SumTree
from pbt import dsgen, memgen
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C10', rule='a case is a capacity, alpha/beta/epsilon and a history of adds (with priorities and n-step '
              'returns), samplings and priority updates, mirrored by a ring of (transition, priority); non-trivial when '
              'priorities differ and at least one update or wrap-around happened')

prio = st.integers(1, 64).map(lambda v: v / 16.)
op = st.one_of(
    st.tuples(st.just('add'), dsgen.rows(1, 10), st.lists(prio, min_size=10, max_size=10), st.sampled_from([1, 1, 1, 2, 3])),
    st.tuples(st.just('get'), st.integers(2, 24)),
    st.tuples(st.just('update'), st.lists(st.integers(-80, 80).map(lambda v: v / 16.), min_size=6, max_size=6),
              st.integers(1, 6)),
    st.tuples(st.just('update_all'), st.lists(st.integers(-80, 80).map(lambda v: v / 16.), min_size=16, max_size=16)),
)
hist = st.fixed_dictionaries(dict(
    cap=st.integers(2, 16), initial=st.integers(0, 6), stateful=st.booleans(), alpha=st.sampled_from([.4, .6, 1.]),
    beta=st.one_of(st.sampled_from([0., .4, 1.]), st.tuples(st.just('linear'), st.integers(1, 12))),
    eps=st.sampled_from([.01, .1]), ops=st.lists(op, min_size=1, max_size=9)))


class Model(object):
    def __init__(self, x):
        self.ring = memgen.Ring(x['cap'])
        self.p = {}
        self.calls = 0
        self.x = x

    def beta(self):
        b = self.x['beta']
        self.calls += 1
        if isinstance(b, tuple):
            return min(.4 + (1. - .4) / b[1] * self.calls, 1.)
        return b


def draw(mem, m, n, stateful):
    """One get(n): checks rows and importance weights; returns (tags, idxs)."""
    out = mem.get(n)
    assert len(out) == (10 if stateful else 8), len(out)
    batch, idxs, w = out[:-2], to_np(out[-2]), to_np(out[-1])
    by = {t['tag']: (s, t) for s, t in enumerate(m.ring.slots)}
    tags = [float(v) for v in np.round(to_np(batch[0])[:, 0], 3)]
    assert len(tags) == n == len(idxs) == len(w)
    total = sum(m.p.values())
    raw = []
    beta = m.beta()
    for i, tag in enumerate(tags):
        assert tag in by, ('sampled a transition that is not in the memory', tag)
        slot, t = by[tag]
        if i < 12:
            memgen.same_row(batch, i, t, stateful, 'get')
        raw.append((len(m.ring.slots) * m.p[slot] / total) ** -beta)
    raw = np.array(raw) / max(raw)
    assert np.allclose(w.ravel(), raw, rtol=1e-5, atol=1e-7), ('importance weights', w, raw)
    return tags, idxs


@check.case('history', hist, quick=500)
def history(x):
    stateful = x['stateful']
    minfo, ainfo = memgen.infos('numpy', 'numpy', stateful, **memgen.dims(x))
    beta = LinearParameter(.4, threshold_value=1., n=x['beta'][1]) if isinstance(x['beta'], tuple) else x['beta']
    mem = PrioritizedReplayMemory(minfo, ainfo, x['initial'], x['cap'], x['alpha'], beta, x['eps'])
    m = Model(x)
    serial = [0]
    touched = False

    def slot_of(tag):
        return [s for s, t in enumerate(m.ring.slots) if t['tag'] == tag][0]

    for o in x['ops']:
        if o[0] == 'add':
            ds, model = memgen.dataset('numpy', stateful, o[1], serial, **memgen.dims(x))
            before = [dict(r) for r in model]
            p = np.array([o[2][k % len(o[2])] for k in range(len(model))])
            if o[3] == 1:
                mem.add(ds, p)
            else:
                mem.add(ds, p, n_steps_return=o[3], gamma=.9)
            dsgen.compare(ds, before, stateful, 'the dataset given to add was changed')
            for t in memgen.nstep(model, o[3], .9):
                m.p[m.ring.add(t)] = p[t['start']]
            touched |= serial[0] > x['cap']
        elif not m.ring.slots:
            continue
        elif o[0] == 'get':
            draw(mem, m, o[1], stateful)
        elif o[0] == 'update':
            tags, idxs = draw(mem, m, o[2], stateful)
            err = np.array(o[1][:o[2]])
            mem.update(err, idxs)
            for tag, e in zip(tags, err):
                m.p[slot_of(tag)] = (abs(e) + x['eps']) ** x['alpha']
            touched = True
        elif o[0] == 'update_all':
            seen = {}
            for _ in range(3):
                tags, idxs = draw(mem, m, 60, stateful)
                for t, i in zip(tags, idxs):
                    assert seen.setdefault(t, i) == i, 'the index of a stored transition changed'
            assert len(set(seen.values())) == len(seen), 'two transitions share an index'
            ids = sorted(seen)
            err = np.array([o[1][k % 16] for k in range(len(ids))])
            mem.update(err, np.array([seen[t] for t in ids]))
            for t, e in zip(ids, err):
                m.p[slot_of(t)] = (abs(e) + x['eps']) ** x['alpha']
            touched = True
        assert bool(mem.initialized) == (len(m.ring.slots) > x['initial'])
        want = max(m.p.values()) if mem.initialized else 1.
        assert np.isclose(mem.max_priority, want), ('max_priority', mem.max_priority, want)
    if not m.ring.slots:
        return None
    # sampling frequencies are proportional to the priorities
    counts = np.zeros(len(m.ring.slots))
    K, n = 6, 500
    where = {t['tag']: s for s, t in enumerate(m.ring.slots)}
    for _ in range(K):
        tags, _ = draw(mem, m, n, stateful)
        for t in tags:
            counts[where[t]] += 1
    total = sum(m.p.values())
    for s in range(len(counts)):
        q = m.p[s] / total
        sd = (K * n * q * (1 - q)) ** .5
        assert abs(counts[s] - K * n * q) <= 6 * sd + 3, ('sampling not proportional to priority', s, counts[s], K * n * q,
                                                          m.p)
    return 'n=%d' % len(counts) if touched and len(set(m.p.values())) > 1 else None


wide = st.tuples(st.integers(1, 64), st.integers(-6, 8)).map(lambda v: v[0] / 16. * 2. ** v[1])
signed = st.tuples(st.integers(-80, 80), st.integers(-6, 8)).map(lambda v: v[0] / 16. * 2. ** v[1])
big_op = st.one_of(
    st.tuples(st.just('add'), dsgen.many_rows(1, 90), st.lists(wide, min_size=11, max_size=11), st.sampled_from([1, 1, 2, 5, 9])),
    st.tuples(st.just('add'), dsgen.rows(1, 6), st.lists(wide, min_size=6, max_size=6), st.just(1)),
    st.tuples(st.just('get'), st.integers(1, 200)),
    st.tuples(st.just('update'), st.lists(signed, min_size=40, max_size=40), st.integers(1, 40)),
    st.tuples(st.just('update_all'), st.lists(signed, min_size=16, max_size=16)))
check.case('history, long and wide', st.fixed_dictionaries(dict(
    cap=st.integers(5, 90), initial=st.integers(0, 60), stateful=st.booleans(), alpha=st.sampled_from([.1, .4, .6, 1.]),
    beta=st.one_of(st.sampled_from([0., .4, .7, 1.]), st.tuples(st.just('linear'), st.integers(1, 60))),
    eps=st.sampled_from([1e-3, .01, .1, 1.]), sdim=st.integers(1, 9), adim=st.integers(1, 5), pdim=st.integers(1, 5),
    ops=st.lists(big_op, min_size=2, max_size=12))), quick=50)(history)


@check.case('tree', st.fixed_dictionaries(dict(cap=st.integers(2, 20), ps=st.lists(prio, min_size=1, max_size=40),
                                               ups=st.lists(st.tuples(st.integers(0, 19), prio), max_size=12))), quick=300)
def tree(x):
    """SumTree: total and maximum priority follow every add and update; a query returns a stored leaf and its priority."""
    minfo, ainfo = memgen.infos('numpy', 'numpy', False)
    t = SumTree(minfo, ainfo, x['cap'])
    ring, p, serial = memgen.Ring(x['cap']), {}, [0]
    k = 0
    while k < len(x['ps']):
        part = x['ps'][k:k + 3]
        ds, model = memgen.dataset('numpy', False, [(False, False, 1.)] * len(part), serial)
        t.add(ds, np.array(part), 1, 1.)
        for r, q in zip(model, part):
            p[ring.add(r)] = q
        k += 3
    assert t.size == len(ring.slots)
    assert np.isclose(t.total_p, sum(p.values())) and np.isclose(t.max_p, max(p.values()))
    # learn the index of each slot from queries
    seen = {}
    for q in np.linspace(1e-6, t.total_p - 1e-6, 200):
        idx, pr, sample = t.get(q)
        tag = float(np.round(sample[0][0], 3))
        slot = [s for s, r in enumerate(ring.slots) if r['tag'] == tag]
        assert slot, ('query returned a sample that is not stored', tag)
        assert np.isclose(pr, p[slot[0]]), ('priority', pr, p[slot[0]])
        assert seen.setdefault(slot[0], idx) == idx
    for s, q in x['ups']:
        s = s % len(ring.slots)
        if s in seen:
            t.update([seen[s]], [q])
            p[s] = q
    assert np.isclose(t.total_p, sum(p.values())) and np.isclose(t.max_p, max(p.values()))
    for q in np.linspace(1e-6, t.total_p - 1e-6, 60):
        idx, pr, data_idx = t.get_ind(q)
        assert 0 <= data_idx < t.size and np.isclose(pr, p[data_idx])
    return 'wrap' if len(x['ps']) > x['cap'] else ('upd' if x['ups'] else None)
