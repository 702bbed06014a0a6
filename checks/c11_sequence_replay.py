"""C11 - sequence replay: every sampled sequence is a contiguous, single-trajectory history of a stored transition."""
import numpy as np
from hypothesis import strategies as st

from mushroom_rl.rl_utils.replay_memory import SequenceReplayMemory
from pbt import dsgen, memgen
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C11', rule='a case is a capacity, truncation length, backend, stateless/stateful agent and a history of adds; '
              'every sampled sequence is compared with the window of the stored transitions it must be; non-trivial when '
              'the data contains an episode end inside a window or the memory wrapped around')

hist = st.fixed_dictionaries(dict(
    cap=st.integers(1, 16), trunc=st.integers(1, 6), backends=st.sampled_from([('numpy', 'numpy'), ('torch', 'torch')]),
    stateful=st.booleans(), adds=st.lists(dsgen.rows(1, 12), min_size=1, max_size=4)))


@check.case('history', hist, quick=350)
def history(x):
    envb, agb = x['backends']
    stateful, T = x['stateful'], x['trunc']
    minfo, ainfo = memgen.infos(envb, agb, stateful, **memgen.dims(x))
    mem = SequenceReplayMemory(minfo, ainfo, 0, x['cap'], T)
    ring, serial = memgen.Ring(x['cap']), [0]
    stream = []
    for rows in x['adds']:
        ds, model = memgen.dataset(envb, stateful, rows, serial, **memgen.dims(x))
        mem.add(ds)
        for r in model:
            r['slot'] = ring.add(r)
            stream.append(r)
    order = {r['tag']: k for k, r in enumerate(stream)}      # chronological order of everything ever added
    stored = {r['tag'] for r in ring.slots}
    n = x.get('n', 120)
    out = mem.get(n)
    if stateful:
        s, a, r, ss, ab, last, ps, nps, pa, lengths = out
    else:
        s, a, r, ss, ab, last, pa, lengths = out
    s, a, r, ss, ab, last, pa = [to_np(v) for v in (s, a, r, ss, ab, last, pa)]
    assert len(lengths) == n and s.shape[:2] == (n, T)
    label = None
    for i in range(n):
        L = int(lengths[i])
        assert 1 <= L <= T, ('length', L)
        end = float(np.round(s[i, L - 1, 0], 3))
        assert end in stored, ('a sequence ends in a transition that is not stored', end)
        k = order[end]
        want = stream[max(k - L + 1, 0):k + 1]
        assert len(want) == L
        for j, t in enumerate(want):
            assert t['tag'] in stored, ('a sequence contains a transition that was overwritten', t['tag'])
            assert np.allclose(s[i, j], t['state']), ('sequence is not contiguous in time', i, j, s[i, j], t['state'])
            assert np.allclose(ss[i, j], t['next_state']) and np.allclose(a[i, j], t['action'])
            if stateful:
                assert np.allclose(to_np(ps)[i, j], t['policy_state']) and np.allclose(to_np(nps)[i, j],
                                                                                       t['policy_next_state'])
            if j < L - 1:
                assert not t['last'], 'a sequence spans two trajectories'
            if j > 0:
                assert np.allclose(pa[i, j], want[j - 1]['action']), ('previous action', pa[i, j])
        # previous action of the first element: the action before it in its trajectory, or zero
        k0 = k - L + 1
        prev = stream[k0 - 1] if k0 > 0 else None
        if prev is None or prev['last']:
            assert np.all(pa[i, 0] == 0.), ('previous action at the start of a trajectory', pa[i, 0])
        elif prev['tag'] in stored and want[0]['slot'] != 0:
            assert np.allclose(pa[i, 0], prev['action']), ('previous action', pa[i, 0], prev['action'])
        else:
            assert np.all(pa[i, 0] == 0.) or np.allclose(pa[i, 0], prev['action']), ('previous action', pa[i, 0])
        # the window is as long as the truncation length, the trajectory and the storage allow
        if L < T:
            assert prev is None or prev['last'] or prev['tag'] not in stored or want[0]['slot'] == 0, \
                ('sequence cut short', L, T)
        assert np.allclose(r[i], want[-1]['reward']) and bool(np.ravel(ab[i])[0]) == want[-1]['absorbing']
        assert bool(np.ravel(last[i])[0]) == want[-1]['last']
        assert np.all(s[i, L:] == 0) and np.all(a[i, L:] == 0) and np.all(ss[i, L:] == 0) and np.all(pa[i, L:] == 0)
    if x.get('cover'):
        # any stored transition can be the one sampled: the chance that 40 N uniform draws miss one of N <= 16 is < 1e-15
        ends = mem.get(40 * len(stored))
        lengths, states = ends[-1], to_np(ends[0])
        seen = {float(np.round(states[i, int(lengths[i]) - 1, 0], 3)) for i in range(len(lengths))}
        assert seen == stored, ('stored transitions never sampled', sorted(stored - seen))
    if len(stream) > x['cap']:
        label = 'wrap'
    elif any(t['last'] for t in stream[:-1]):
        label = 'episodes'
    return label


check.case('history, long and wide', st.fixed_dictionaries(dict(
    cap=st.one_of(st.integers(1, 12), st.integers(13, 130)), trunc=st.integers(1, 30),
    backends=st.sampled_from([('numpy', 'numpy'), ('torch', 'torch')]), stateful=st.booleans(), sdim=st.integers(1, 9),
    adim=st.integers(1, 7), pdim=st.integers(1, 6), n=st.integers(1, 260),
    adds=st.lists(st.one_of(dsgen.many_rows(1, 120), dsgen.rows(1, 8)), min_size=1, max_size=6))), quick=80)(history)

check.case('coverage', st.fixed_dictionaries(dict(
    cap=st.integers(1, 16), trunc=st.integers(1, 6), backends=st.sampled_from([('numpy', 'numpy'), ('torch', 'torch')]),
    stateful=st.booleans(), adds=st.lists(dsgen.rows(1, 12), min_size=1, max_size=4), n=st.just(4), cover=st.just(True))),
    quick=120)(history)
