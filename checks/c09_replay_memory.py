"""C09 - the uniform replay memory holds exactly the most recent transitions and samples them uniformly."""
import numpy as np
import torch
from hypothesis import strategies as st

from mushroom_rl.rl_utils.replay_memory import ReplayMemory
from pbt import dsgen, memgen
from pbt.dsgen import to_np
from pbt.harness import Check

check = Check('C09', rule='a case is a capacity, an initial size, a backend, a stateless/stateful agent and a history of '
              'add (n-step returns 1-4), get and reset, mirrored by a ring of reference n-step transitions; non-trivial '
              'when the memory wraps around or an n-step add crosses an episode end')

op = st.one_of(
    st.tuples(st.just('add'), dsgen.rows(0, 14), st.sampled_from([1, 1, 1, 2, 3, 4]), st.sampled_from([1., .9, .5])),
    st.tuples(st.just('add'), dsgen.rows(1, 14), st.just(1), st.just(1.)),
    st.tuples(st.just('get'), st.integers(1, 40)),
    st.tuples(st.just('reset')),
)
hist = st.fixed_dictionaries(dict(
    cap=st.integers(1, 14), initial=st.integers(0, 8), backends=st.sampled_from([('numpy', 'numpy'), ('numpy', 'torch'),
                                                                             ('torch', 'torch')]),
    stateful=st.booleans(), discrete=st.booleans(), ops=st.lists(op, min_size=1, max_size=8)))


def sample_check(mem, ring, stateful, n, what, full=False):
    batch = mem.get(n)
    assert len(batch) == (8 if stateful else 6), len(batch)
    by = {t['tag']: t for t in ring.slots}
    counts = {}
    for c in batch:
        assert len(c) == n, ('batch size', len(c), n)
    tags = np.round(to_np(batch[0])[:, 0], 3)
    seen = set()
    for i, tag in enumerate(tags):
        tag = float(tag)
        assert tag in by, (what, 'sampled a transition that is not in the memory', tag, sorted(by))
        counts[tag] = counts.get(tag, 0) + 1
        if tag not in seen or i < 20:
            memgen.same_row(batch, i, by[tag], stateful, what)
            seen.add(tag)
    if full:
        assert set(counts) == set(by), (what, 'transitions never sampled', sorted(set(by) - set(counts)))
        p = 1. / len(by)
        sd = (n * p * (1 - p)) ** .5
        for t, c in counts.items():
            assert abs(c - n * p) <= 6.5 * sd + 1e-9, (what, 'sampling is not uniform', t, c, n * p)


@check.case('history', hist, quick=700)
def history(x):
    envb, agb = x['backends']
    stateful = x['stateful']
    minfo, ainfo = memgen.infos(envb, agb, stateful, x['discrete'], **memgen.dims(x))
    mem = ReplayMemory(minfo, ainfo, x['initial'], x['cap'])
    ring = memgen.Ring(x['cap'])
    serial = [0]
    label = None
    for o in x['ops']:
        if o[0] == 'add':
            ds, model = memgen.dataset(envb, stateful, o[1], serial, x['discrete'], **memgen.dims(x))
            before = [dict(r) for r in model]
            if o[2] == 1:
                mem.add(ds)
            else:
                mem.add(ds, n_steps_return=o[2], gamma=o[3])
            dsgen.compare(ds, before, stateful, 'the dataset given to add was changed')
            new = memgen.nstep(model, o[2], o[3])
            for t in new:
                ring.add(t)
            if serial[0] > x['cap']:
                label = 'wrap'
            if o[2] > 1 and any(r['last'] for r in model[:-1]):
                label = 'nstep-episode-end'
        elif o[0] == 'get':
            if ring.slots:
                sample_check(mem, ring, stateful, o[1], 'get')
        else:
            mem.reset()
            ring = memgen.Ring(x['cap'])
        assert mem.size == len(ring.slots), ('size', mem.size, len(ring.slots))
        assert bool(mem.initialized) == (len(ring.slots) > x['initial']), ('initialized', mem.size, x['initial'])
    if ring.slots:
        sample_check(mem, ring, stateful, max(1500, 100 * len(ring.slots)), 'contents', full=True)
    return label


big_op = st.one_of(
    st.tuples(st.just('add'), dsgen.many_rows(0, 160), st.sampled_from([1, 1, 2, 5, 9, 16]), st.sampled_from([1., .99, .9, .5])),
    st.tuples(st.just('add'), dsgen.many_rows(1, 160), st.just(1), st.just(1.)),
    st.tuples(st.just('add'), dsgen.rows(1, 6), st.sampled_from([1, 2, 3]), st.just(.9)),
    st.tuples(st.just('get'), st.integers(1, 300)), st.tuples(st.just('reset')))
check.case('history, long and wide', st.fixed_dictionaries(dict(
    cap=st.integers(10, 150), initial=st.integers(0, 90), backends=st.sampled_from([('numpy', 'numpy'), ('numpy', 'torch'),
                                                                               ('torch', 'torch')]),
    stateful=st.booleans(), discrete=st.booleans(), sdim=st.integers(1, 12), adim=st.integers(1, 8), pdim=st.integers(1, 6),
    ops=st.lists(big_op, min_size=1, max_size=10))), quick=60)(history)
