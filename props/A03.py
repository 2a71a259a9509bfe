import numpy as np
from sdepy.infrastructure import process, piecewise
from symx.runner import scenario

BOUNDS = ('1-4 nodes, scalar / (2,) / (1,2) arrays of evaluation times, all '
          'unbounded reals; value shapes (), (2,); 1-2 paths; integer and boolean values')
ASSUMPTIONS = ['scipy.interpolate.interp1d is replaced by its documented '
               'contract (linear, nearest, previous, next; fill values)']


def linear(env, t, x, s):
    """piecewise linear function through (t, x), constant outside"""
    n = len(t)
    if n == 1 or s <= t[0]:
        return x[0]
    for i in range(1, n):
        if s <= t[i]:
            w = (s - t[i - 1]) / (t[i] - t[i - 1])
            return x[i - 1] * (1 - w) + x[i] * w
    return x[n - 1]


def apply(env, f, s, vs):
    s = np.asarray(s)
    out = env.obj(s.shape + vs)
    for i in np.ndindex(s.shape):
        out[i] = f(s[i])
    return out


SSH = [(), (2,), (1, 2)]


@scenario({'n': [1, 2, 3], 'vs': [(), (2,)], 'ss': SSH},
          thorough={'n': [1, 2, 3, 4], 'ss': SSH + [(3,)]})
def interpolate(env, n, vs, ss):
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (2,))
    s = env.arr('s', ss)
    if ss == ():
        s = s[()]
    p = process(t, x=x)
    want = apply(env, lambda z: linear(env, t, x, z), s, vs + (2,))
    got = p(s)
    env.true(isinstance(got, np.ndarray), 'type')
    env.eq(got, want, 'p(s)')
    env.eq(p.interp()(s), want, 'p.interp()(s)')
    env.eq(p(s, kind='linear'), want, 'p(s, kind)')
    env.eq(p.x, x, 'values unchanged')


@scenario({'n': [1, 2, 3], 'vs': [(), (2,)]}, thorough={'n': [1, 2, 3, 4]})
def at_nodes(env, n, vs):
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (1,))
    p = process(t, x=x)
    env.eq(p(t), x, 'values at nodes')
    for i in range(n):
        env.eq(p(t[i]), x[i], 'value at node')


@scenario({'n': [1, 2, 3], 'ss': [((), ()), ((2,), ()), ((), (2,)),
                                  ((1, 2), (1, 1))]})
def increments(env, n, ss):
    t = env.times('t', n)
    x = env.arr('x', (n, 2, 1))
    p = process(t, x=x)
    s, ds = env.arr('s', ss[0]), env.arr('ds', ss[1])
    got = p(s, ds)
    e = np.broadcast_arrays(s + ds, s)[0]
    s = np.broadcast_to(s, np.shape(e))
    want = apply(env, lambda z: linear(env, t, x, z), e, (2, 1)) - \
        apply(env, lambda z: linear(env, t, x, z), s, (2, 1))
    env.eq(got, want, 'p(s, ds)')


@scenario({'n': [1, 2, 3], 'm': [0, 1, 2, 3]})
def rebase(env, n, m):
    t = env.times('t', n)
    x = env.arr('x', (n, 2, 2))
    p = process(t, x=x)
    if m == 0:
        u = env.real('u')
        q = p.rebase(u)
        u = env.array([u])
    else:
        u = env.times('u', m)
        q = p.rebase(u)
    env.true(isinstance(q, process), 'process')
    env.eq(q.t, u, 'new timeline')
    env.eq(q.x, apply(env, lambda z: linear(env, t, x, z), u, (2, 2)),
           'rebased values')
    env.eq(p.t, t, 'old timeline unchanged')


@scenario({'kind': ['previous', 'next', 'nearest'], 'n': [2, 3]})
def kinds(env, kind, n):
    t = env.times('t', n)
    x = env.arr('x', (n, 1))
    s = env.real('s')
    p = process(t, x=x)
    q = process(t, x=x)
    q.interp_kind = kind
    g1, g2 = p(s, kind=kind), q(s)
    g3 = p.rebase(env.array([s]), kind=kind).x[0]
    if s <= t[0]:
        want = [x[0]]
    elif s >= t[n - 1]:
        want = [x[n - 1]]
    else:
        i = [k for k in range(n - 1) if t[k] <= s and s < t[k + 1]][0]
        if kind == 'previous' or s == t[i]:
            want = [x[i]]
        elif kind == 'next':
            want = [x[i + 1]]
        else:
            m = (t[i] + t[i + 1]) / 2
            want = [x[i]] if s < m else [x[i + 1]] if s > m else []
    for w in want:
        for g in (g1, g2, g3):
            env.eq(g, w, kind)
    # the default of other processes is not affected
    env.eq(p(s), linear(env, t, x, s), 'default kind')


@scenario({'own': ['linear', 'previous', 'next', 'nearest', 'piecewise'],
           'n': [2, 3]})
def own_kind(env, own, n):
    """the interpolation kind of a process is used by interp, rebase and
    evaluation unless another is requested"""
    t = env.times('t', n)
    x = env.arr('x', (n, 2))
    u = env.times('s', 2)
    if own == 'piecewise':
        p = piecewise(t, x=x)
    else:
        p = process(t, x=x)
        p.interp_kind = own
    r = p.rebase(u)
    env.true(isinstance(r, process), 'type')
    env.eq(r.t, u, 'timeline')
    env.eq(r.x, p(u), 'rebase')
    env.eq(p.interp()(u), r.x, 'interp')
    want = apply(env, lambda z: linear(env, t, x, z), u, (2,))
    env.eq(p.rebase(u, kind='linear').x, want, 'kind given')
    env.eq(p(u, kind='linear'), want, 'kind given')
    if own == 'linear':
        env.eq(r.x, want, 'linear')
    for z, w in zip(u, r.x):
        if z > t[0] and z < t[n - 1]:
            for i in range(n - 1):
                if t[i] < z and z < t[i + 1]:
                    m = (t[i] + t[i + 1]) / 2
                    if own == 'previous':
                        env.eq(w, x[i], own)
                    elif own == 'next':
                        env.eq(w, x[i + 1], own)
                    elif own == 'nearest' or own == 'piecewise':
                        if z != m:
                            env.eq(w, x[i] if z < m else x[i + 1], own)
        else:
            env.eq(w, x[0] if z <= t[0] else x[n - 1], 'outside')


@scenario({'mode': ['mid', 'forward', 'backward'], 'n': [1, 2, 3],
           'kind': ['x', 'v']}, thorough={'n': [1, 2, 3, 4]})
def piecewise_modes(env, mode, n, kind):
    if n == 1 and mode != 'mid':
        env.count()
        return
    t = env.times('t', n)
    if kind == 'x':
        x = env.arr('x', (n, 2, 2))
        p = piecewise(t, x=x, mode=mode)
    else:
        v = env.arr('x', (n, 2))
        p = piecewise(t, v=v, mode=mode)
        x = v[..., np.newaxis]
    s = env.real('s')
    got = p(s)
    if s < t[0]:
        w = [x[0]]
    elif s > t[n - 1]:
        w = [x[n - 1]]
    else:
        w = []
        for i in range(n - 1):
            if t[i] < s and s < t[i + 1]:
                if mode == 'forward':
                    w = [x[i]]
                elif mode == 'backward':
                    w = [x[i + 1]]
                else:
                    m = (t[i] + t[i + 1]) / 2
                    w = [x[i]] if s < m else [x[i + 1]] if s > m else []
        if mode == 'mid':
            for i in range(n):
                if s == t[i]:
                    w = [x[i]]
    for z in w:
        env.eq(got, z, 'piecewise ' + mode)
    # array evaluation agrees with scalar evaluation
    env.eq(p(env.array([s, t[0]]))[0], got, 'array evaluation')


@scenario
def piecewise_rejects(env):
    t, x = env.times('t', 2), env.arr('x', (2, 1))
    env.raises(ValueError, lambda: piecewise(t, x=x, mode='middle'), 'mode')
    env.raises(ValueError, lambda: piecewise(t), 'no values')
    env.raises(ValueError, lambda: piecewise(t, x=x, v=x), 'two values')


@scenario({'ss': [(), (2,), (2, 1)]})
def constant_process(env, ss):
    c = env.arr('c', (2,))
    s = env.arr('s', ss)
    t = env.real('t')
    for p in (process(c=c), process(t, c=c), process(
            env.times('u', 2), c=c), process(t, x=c[np.newaxis, :,
                                                   np.newaxis])):
        got = p(s)
        env.shape(got, ss + (2, 1), 'shape')
        env.eq(got, np.broadcast_to(c[:, np.newaxis], ss + (2, 1)),
               'constant')
        env.eq(p(s, env.real('ds')), 0, 'no increments')


@scenario({'n': [2, 3], 'kind': ['int64', 'uint8', 'bool'],
           'how': [None, 'previous', 'nearest']})
def integer_values(env, n, kind, how):
    """values of an integer data type: between them, the interpolation is
    not rounded"""
    t = env.times('t', n)
    x = np.zeros((n, 1), kind)
    for i in range(n):
        x[i] = env.bool('b%d' % i)
        if kind != 'bool':
            x[i] += 3
    s, d = env.real('s'), env.real('d')
    p = process(t, x=x)
    y = x.astype(int)
    if how is None:
        want = linear(env, t, y, s)
        env.eq(p(s, d), linear(env, t, y, s + d) - want, 'increment')
        env.eq(p.rebase(env.array([s])).x, np.array([want]), 'rebase')
    else:
        env.assume(t[0] <= s)
        env.assume(s < t[1])
        if how == 'nearest':
            env.assume(s < (t[0] + t[1]) / 2)
        want = y[0]
    env.eq(p(s, kind=how), want, 'interpolation')
    env.eq(p.interp(kind=how)(env.array([s])), np.array([want]), 'interp')
