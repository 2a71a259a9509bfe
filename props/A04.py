import numpy as np
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('1-4 time points, value shapes (), (1,), (2,), (3,), (2,2), '
          '(1,2), (1,1,2), 1-3 paths; every integer index of either sign, '
          'slices, lists, masks and multi-indexes listed in the scenarios; '
          'values and times are unbounded reals')


def P(env, n, vs, k):
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (k,))
    return process(t, x=x), t, x


def is_proc(env, r, t, x, label):
    env.true(isinstance(r, process), label + ': type')
    env.eq(r.t, t, label + ': timeline')
    env.eq(r.x, x, label + ': values')


@scenario({'sh': [(1, (), 1), (3, (2,), 2), (2, (1,), 3), (4, (), 2)]})
def time_index(env, sh):
    n, vs, k = sh
    p, t, x = P(env, n, vs, k)
    for i in range(-n, n):
        is_proc(env, p['t', i], t[i % n:i % n + 1], x[i % n:i % n + 1],
                'time %d' % i)
        for kind in (np.int64, np.int32, np.intp):
            is_proc(env, p['t', kind(i)], t[i % n:i % n + 1],
                    x[i % n:i % n + 1], 'time %s %d' % (kind.__name__, i))
    for key in (slice(None), slice(1, None), slice(None, -1),
                slice(None, None, 2), slice(0, 1), [0], [n - 1, 0],
                np.array([0, n - 1])):
        if len(t[key]):
            is_proc(env, p['t', key], t[key], x[key], 'time %r' % (key,))
    mask = np.array([j % 2 == 0 for j in range(n)])
    is_proc(env, p['t', mask], t[mask], x[mask], 'time mask')
    is_proc(env, p['t', (0,)], t[:1], x[:1], 'time tuple')
    env.raises(IndexError, lambda: p['t', [n]], 'out of range')


@scenario({'sh': [(2, (), 1), (2, (2,), 3), (1, (2, 2), 2)]})
def path_index(env, sh):
    n, vs, k = sh
    p, t, x = P(env, n, vs, k)
    for i in range(-k, k):
        is_proc(env, p['p', i], t, x[..., i % k:i % k + 1], 'path %d' % i)
        for kind in (np.int64, np.int32, np.intp):
            is_proc(env, p['p', kind(i)], t, x[..., i % k:i % k + 1],
                    'path %s %d' % (kind.__name__, i))
    for key in (slice(None), slice(1, None), slice(None, -1),
                slice(None, None, -1), [0], [k - 1, 0]):
        is_proc(env, p['p', key], t, x[..., key], 'path %r' % (key,))
    mask = np.array([j % 2 == 0 for j in range(k)])
    is_proc(env, p['p', mask], t, x[..., mask], 'path mask')


@scenario({'sh': [(2, (2,), 2), (1, (3,), 1), (2, (2, 2), 2)]})
def value_index(env, sh):
    n, vs, k = sh
    p, t, x = P(env, n, vs, k)
    m = vs[0]
    for i in range(-m, m):
        is_proc(env, p['v', i], t, x[:, i % m], 'component %d' % i)
    for key in (slice(None), slice(1, None), slice(None, -1), [0],
                [m - 1, 0]):
        is_proc(env, p['v', key], t, x[:, key], 'component %r' % (key,))
    mask = np.array([j % 2 == 0 for j in range(m)])
    is_proc(env, p['v', mask], t, x[:, mask], 'component mask')
    is_proc(env, p['v', ...], t, x, 'ellipsis')
    if len(vs) == 2:
        for i in range(-2, 2):
            for j in range(-2, 2):
                is_proc(env, p['v', i, j], t, x[:, i % 2, j % 2], 'i, j')
                is_proc(env, p['v', (i, j)], t, x[:, i % 2, j % 2], '(i, j)')
            is_proc(env, p['v', ..., i], t, x[:, :, i % 2], '..., i')
            is_proc(env, p['v', :, i], t, x[:, :, i % 2], ':, i')
        is_proc(env, p['v', [0, 1], [1, 0]], t, x[:, [0, 1], [1, 0]],
                'smart')
    is_proc(env, p['v', np.newaxis], t, x[:, np.newaxis], 'newaxis')


@scenario
def scalar_values(env):
    p, t, x = P(env, 2, (), 2)
    is_proc(env, p['v', ...], t, x, 'ellipsis')
    is_proc(env, p['v', np.newaxis], t, x[:, np.newaxis], 'newaxis')


@scenario({'n': [1, 3]})
def plain_index(env, n):
    """standard indexing returns arrays"""
    p, t, x = P(env, n, (2,), 2)
    for key in (0, -1, slice(None), (0, 1), (slice(None), 0), (..., 0),
                (slice(0, 1), 1, [0, 1]), [0], (), np.newaxis):
        r = p[key]
        env.true(not isinstance(r, process), 'array')
        env.eq(r, x[key], 'plain %r' % (key,))
    for key in (('z', 0), ('tt', 0), 'x'):
        env.raises(IndexError, lambda: p[key], 'unknown mode')


@scenario
def chained(env):
    p, t, x = P(env, 4, (2,), 3)
    q = p['t', 1:]['p', -1]['v', 1]['t', -1]
    is_proc(env, q, t[3:], x[3:, 1, 2:], 'chain')
    q = p['t', ::2]['t', 1]
    is_proc(env, q, t[2:3], x[2:3], 'chain')
    env.eq(p.t, t, 'timeline untouched')
    d = p['t', 1:]
    env.eq(d.dt, np.diff(t[1:]), 'dt of the selection')
    env.eq(p.dt, np.diff(t), 'dt of the original')
    env.eq(p['t', :2].dt, np.diff(t[:2]), 'dt of a selection after dt')


@scenario({'vs': [(), (2,), (1,), (1, 2), (2, 2), (1, 1, 2), (1, 1)],
           'as_process': [False, True]})
def shapeas(env, vs, as_process):
    n, k = 2, 2
    p, t, x = P(env, n, vs, k)
    for ws in ((), (2,), (1,), (3,), (1, 2), (2, 2), (4, 1, 2), (1, 1, 1,
                                                                 2)):
        target = process(x=np.zeros((1,) + ws + (1,))) if as_process else ws
        h, m = len(ws), len(vs)
        if h >= m:
            new = (1,) * (h - m) + vs
        elif set(vs[:m - h]) == {1}:
            new = vs[m - h:]
        else:
            env.raises(ValueError, lambda: p.shapeas(target), 'not allowed')
            continue
        r = p.shapeas(target)
        is_proc(env, r, t, x.reshape((n,) + new + (k,)), 'shapeas')
    env.eq(p.x, x, 'original')


@scenario({'vs': [(), (2,)], 'order': ['C', 'F', 'A', 'K']})
def array_copy(env, vs, order):
    """copy() of the array copies the values and shares the timeline"""
    p, t, x = P(env, 3, vs, 2)
    t0, x0 = t.copy(), x.copy()
    q = p.copy(order)
    is_proc(env, q, t0, x0, 'copy')
    z = env.real('z')
    q.x[1, ..., 0] = z
    q.t[2] = z
    env.eq(p.x, x0, 'values are copied')
    env.eq(p.t, q.t, 'timeline is shared')


@scenario({'how': ['pcopy', 'xcopy', 'tcopy']})
def copies(env, how):
    p, t, x = P(env, 3, (2,), 2)
    t0, x0 = t.copy(), x.copy()
    q = getattr(p, how)()
    is_proc(env, q, t0, x0, 'copy')
    z = env.real('z')
    xc, tc = how in ('pcopy', 'xcopy'), how in ('pcopy', 'tcopy')
    for i in range(3):
        # write to the copy
        q.x[i, 1, 0] = z
        q.t[i] = z
    if xc:
        env.eq(p.x, x0, 'values are copied')
    else:
        env.eq(p.x, q.x, 'values are shared')
    if tc:
        env.eq(p.t, t0, 'timeline is copied')
    else:
        env.eq(p.t, q.t, 'timeline is shared')
    p.x[2, 0, 1] = z + 1
    p.t[2] = z + 1
    env.eq(q.x[2, 0, 1], x0[2, 0, 1] if xc else z + 1, 'write to original')
    env.eq(q.t[2], z if tc else z + 1, 'write to original')
    r = getattr(p, how)(order='F')
    env.eq(r.x, p.x, 'copy arguments')
