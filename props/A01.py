from copy import deepcopy
import numpy as np
import sdepy
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('timelines of 1-4 points (any real times, any order), value shapes '
          '(), (2,), (1,), (2,2), (3,1), 1-3 paths; times and values are '
          'unbounded reals')
SH = [(1, (), 1), (1, (2,), 2), (2, (), 3), (3, (2,), 2), (2, (1,), 1)]
SHT = SH + [(4, (2, 2), 2), (3, (3, 1), 2), (4, (), 1), (2, (2, 2), 3)]


@scenario({'sh': SH, 'kind': ['x', 'v', 'c'], 'scalar_t': [False]},
          thorough={'sh': SHT})
def build(env, sh, kind, scalar_t):
    n, vs, paths = sh
    t = env.arr('t', n)
    if kind == 'x':
        val = env.arr('x', (n,) + vs + (paths,))
    elif kind == 'v':
        val, paths = env.arr('x', (n,) + vs), 1
    else:
        val, paths = env.arr('x', vs), 1
    for variant in ((t, {}), (list(t), {}), (t, dict(dtype=env.dtype))):
        tt, kw = variant
        p = process(tt, **{kind: val}, **kw)
        env.true(type(p) is process, 'type')
        env.shape(p, (n,) + vs + (paths,), 'shape')
        env.shape(p.x, (n,) + vs + (paths,), 'shape of x')
        env.true(type(p.x) is np.ndarray, 'x is an array')
        env.eq(p.t, t, 'timeline')
        env.true(p.paths == paths, 'paths')
        env.true(tuple(p.vshape) == vs, 'vshape')
        for i in range(n):
            for k in range(paths):
                want = val[i, ..., k] if kind == 'x' else \
                    val[i] if kind == 'v' else val
                env.eq(p.x[i, ..., k], want, 'value')
        env.eq(p.dt, np.array([t[i + 1] - t[i] for i in range(n - 1)],
                              dtype=t.dtype), 'dt')
        one = (1,) * (len(vs) + 1)
        env.shape(p.dtx, (n - 1,) + one, 'dtx shape')
        env.shape(p.tx, (n,) + one, 'tx shape')
        env.eq(p.tx.reshape(-1), t, 'tx')
        env.eq(p.dtx.reshape(-1), p.dt, 'dtx')


@scenario({'vs': [(), (2,)]})
def scalar_timeline(env, vs):
    s = env.real('t')
    x = env.arr('x', (1,) + vs + (2,))
    p = process(s, x=x)
    env.shape(p.t, (1,), 't')
    env.eq(p.t[0], s, 't')
    env.eq(p.x, x, 'x')
    c = env.arr('c', vs)
    q = process(s, c=c)
    env.eq(q.x, c[np.newaxis, ..., np.newaxis], 'c')
    q = process(c=c)
    env.eq(q.t, np.zeros(1), 'default t')
    z = env.real('z')
    q = process(env.arr('u', 3), c=z)
    env.shape(q, (3, 1), 'scalar constant')
    env.eq(q.x, z, 'scalar constant')


@scenario
def shares_given_arrays(env):
    """a reference is stored where possible; the given arrays are not
    written to"""
    t, x = env.times('t', 3), env.arr('x', (3, 2, 2))
    t0, x0 = t.copy(), x.copy()
    p = process(t, x=x)
    z = env.real('z')
    q = p + z
    del q
    env.eq(x, x0, 'x untouched')
    env.eq(t, t0, 't untouched')
    x[1, 0, 1] = z
    env.eq(p.x[1, 0, 1], z, 'reference to values')
    t[1] = z
    env.eq(p.t[1], z, 'reference to timeline')


@scenario({'n': [1, 2], 'dtype': [float, int, complex, object]})
def data_type(env, n, dtype):
    """values are converted to the data type given"""
    t = env.times('t', n)
    for given in (np.arange(2 * n).reshape(n, 2), np.ones((n, 2)),
                  [[2, 3]] * n):
        want = np.array(given)
        for kw, w in ((dict(x=given), want), (dict(v=given), want[..., None]),
                      (dict(c=given[0]), np.array(
                          [given[0]] * n)[..., None]),
                      (dict(c=3), np.array([[3]] * n))):
            kw = {k: deepcopy(v) for k, v in kw.items()}
            p = process(t, **kw)
            env.eq(p.x, w, 'values')
            env.eq(p.t, t, 'timeline')
            p = process(t, dtype=dtype, **kw)
            env.eq(p.x, w, 'values')
            env.eq(p.t, t, 'timeline')
            if dtype is int:
                p.x[n - 1, ..., 0] = 2.5
                env.eq(p.x[n - 1, ..., 0], 2 + 0 * w[n - 1, ..., 0],
                       'holds integers')
            else:
                z = env.real('y')
                p.x[n - 1, ..., 0] = z
                env.eq(p.x[n - 1, ..., 0], z + 0 * w[n - 1, ..., 0],
                       'holds numbers')
    z = env.arr('z', (n, 2))
    env.eq(process(t, x=z, dtype=object).x, z, 'objects')


@scenario({'which': range(8)})
def rejects(env, which):
    t = env.times('t', 3)
    x = env.arr('x', (3, 2, 2))
    bad = [
        lambda: process(t),
        lambda: process(t, x=x, v=x),
        lambda: process(t, x=x, c=x),
        lambda: process(t, v=x, c=x[0]),
        lambda: process(t, x=x, v=x, c=x),
        lambda: process(t[:0], x=x[:0]),
        lambda: process(t.reshape(3, 1), x=x),
        lambda: process(t[:0], c=x[0]),
    ][which]
    env.raises(ValueError, bad, 'invalid arguments')


@scenario({'n': [1, 2, 3], 'm': [1, 2, 3], 'kind': ['x', 'v']})
def rejects_mismatch(env, n, m, kind):
    t = env.arr('t', n)
    x = env.arr('x', (m, 2, 2))
    if n == m:
        p = process(t, **{kind: x})
        env.true(p.shape[0] == n, 'time axis')
    else:
        env.raises(ValueError, lambda: process(t, **{kind: x}),
                   'first dimension mismatch')
