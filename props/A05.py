import numpy as np
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('1-3 time points, value shapes (), (2,), (3,), (2,2), 1-3 paths; '
          'every ordering and every tie of the values; ddof 0, 1 and 2')
ASSUMPTIONS = ['floating point values are taken as real numbers; integer and '
               'boolean processes have small values']


def stat(env, name, v, ddof=0):
    """statistic of a list of numbers, written out"""
    v = list(v)
    n = len(v)
    s = v[0]
    if name in ('min', 'max'):
        for z in v[1:]:
            s = env.minimum(s, z) if name == 'min' else env.maximum(s, z)
        return s
    for z in v[1:]:
        s = s + z
    if name == 'sum':
        return s
    m = s / n
    if name == 'mean':
        return m
    q = 0
    for z in v:
        q = q + (z - m) * (z - m)
    q = q / (n - ddof)
    return q if name == 'var' else env.sqrt(q)


SH = [(2, (), 2), (1, (2,), 3), (2, (2,), 2), (1, (), 1)]
SHT = SH + [(3, (2,), 2), (2, (2, 2), 2), (2, (3,), 3)]
SPREAD = [(3, (), 1), (1, (3,), 1), (1, (), 3), (1, (2, 2), 1),
          (1, (1, 2), 2), (2, (2, 1), 1)]


def ddofs(name, size):
    return [d for d in (0, 1, 2) if d < size] if name in (
        'var', 'std') else [0]


def mk(env, sh):
    n, vs, k = sh
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (k,))
    return process(t, x=x), t, x


@scenario({'sh': SH, 'name': ['min', 'max', 'sum', 'mean', 'var', 'std']},
          thorough={'sh': SHT})
def across_paths(env, sh, name):
    n, vs, k = sh
    p, t, x = mk(env, sh)
    f = getattr(p, 'p' + name)
    for ddof in ddofs(name, k):
        r = f(ddof=ddof) if ddof else f()
        env.true(isinstance(r, process), 'process')
        env.shape(r, (n,) + vs + (1,), 'shape')
        env.eq(r.t, t, 'timeline')
        for i in np.ndindex((n,) + vs):
            env.eq(r.x[i + (0,)], stat(env, name, x[i], ddof), name)
    env.eq(p.x, x, 'values unchanged')


@scenario({'sh': SH, 'name': ['min', 'max', 'sum', 'mean', 'var', 'std']},
          thorough={'sh': SHT})
def across_values(env, sh, name):
    n, vs, k = sh
    p, t, x = mk(env, sh)
    f = getattr(p, 'v' + name)
    size = int(np.prod(vs))
    for ddof in ddofs(name, size):
        r = f(ddof=ddof) if ddof else f()
        env.true(isinstance(r, process), 'process')
        env.shape(r, (n, k), 'shape')
        env.eq(r.t, t, 'timeline')
        for i in range(n):
            for j in range(k):
                env.eq(r.x[i, j], stat(
                    env, name, x[i, ..., j].reshape(-1), ddof), name)


@scenario({'sh': SH, 'name': ['min', 'max', 'sum', 'mean', 'var', 'std']},
          thorough={'sh': SHT})
def across_time(env, sh, name):
    n, vs, k = sh
    p, t, x = mk(env, sh)
    f = getattr(p, 't' + name)
    for ddof in ddofs(name, n):
        r = f(ddof=ddof) if ddof else f()
        env.true(isinstance(r, process), 'process')
        env.shape(r, (1,) + vs + (k,), 'shape')
        env.eq(r.t, t[:1], 'timeline')
        for i in np.ndindex(vs + (k,)):
            env.eq(r.x[(0,) + i], stat(
                env, name, [x[(j,) + i] for j in range(n)], ddof), name)


@scenario({'sh': SPREAD, 'name': ['sum', 'mean', 'var', 'std'],
           'axis': 'pvt'})
def several_axes(env, sh, name, axis):
    """values with two axes, and corrections for lost degrees of freedom"""
    dict(p=across_paths, v=across_values, t=across_time)[axis](env, sh, name)


@scenario({'sh': SH}, thorough={'sh': SHT})
def cumulative(env, sh):
    n, vs, k = sh
    p, t, x = mk(env, sh)
    r = p.tcumsum()
    env.true(isinstance(r, process), 'process')
    env.eq(r.t, t, 'timeline')
    env.shape(r, (n,) + vs + (k,), 'shape')
    s = 0
    for i in range(n):
        s = s + x[i]
        env.eq(r.x[i], s, 'cumulative sum')


@scenario({'name': ['var', 'std'], 'axis': 'pvt', 'ddof': [0, 1]})
def out_argument_spread(env, name, axis, ddof):
    p, t, x = mk(env, (2, (2,), 2))
    shape = dict(p=(2, 2, 1), v=(2, 2), t=(1, 2, 2))[axis]
    out = env.obj(shape)
    f = getattr(p, axis + name)
    want = f(ddof=ddof)
    r = f(ddof=ddof, out=out)
    env.eq(out, want.x, 'out')
    env.eq(r.x, want.x, 'out result')
    env.eq(r.t, want.t, 'out timeline')


@scenario({'name': ['sum', 'mean', 'min', 'max'], 'axis': 'pvt'})
def out_argument(env, name, axis):
    p, t, x = mk(env, (2, (2,), 2))
    shape = dict(p=(2, 2, 1), v=(2, 2), t=(1, 2, 2))[axis]
    out = env.obj(shape)
    want = getattr(p, axis + name)()
    r = getattr(p, axis + name)(out=out)
    env.eq(out, want.x, 'out')
    env.eq(r.x, want.x, 'out result')
    env.eq(r.t, want.t, 'out timeline')


@scenario({'kind': ['int64', 'int32', 'uint8', 'bool'],
           'name': ['min', 'max', 'sum', 'mean', 'var', 'std'],
           'axis': 'pvt'})
def integer_values(env, kind, name, axis):
    """counts and indicators: statistics are not rounded to their type"""
    sh = dict(p=(1, (), 3), v=(1, (3,), 1), t=(3, (), 1))[axis]
    t = env.times('t', sh[0])
    x = np.zeros((3,), kind)
    for i in range(3):
        x[i] = env.bool('b%d' % i)
        if kind != 'bool':
            x[i] = x[i] * 3 + i
    p = process(t, x=x.reshape(sh[:1] + sh[1] + sh[2:]))
    y = [int(z) for z in x]
    f = getattr(p, axis + name)
    for ddof in ddofs(name, 3)[:2]:
        r = f(ddof=ddof) if ddof else f()
        env.true(r.size == 1, 'size')
        v = r.x.reshape(-1)[0]
        if name == 'std':
            env.true(v >= 0, 'standard deviation')
            env.eq(v * v, stat(env, 'var', y, ddof), 'standard deviation')
        else:
            env.eq(v, stat(env, name, y, ddof) if name not in ('min', 'max')
                   else getattr(np, name)(y), name)
    if axis == 't' and name == 'sum':
        env.eq(p.tcumsum().x.reshape(-1), np.cumsum(y), 'cumulative sum')
