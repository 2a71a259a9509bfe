import numpy as np
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('all strictly increasing timelines of 1-4 points, value shapes (), '
          '(2,), 1-2 paths, exponents 0, 1/2, 1, 2, -1, 3/2; '
          'real, integer or boolean valued processes')
ASSUMPTIONS = ['floating point values are taken as real numbers; integer and '
               'boolean processes have small values']
N = [2, 3]
NT = [2, 3, 4]


def mk(env, n, vs=(2,), k=2):
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (k,))
    return process(t, x=x), t, x


@scenario({'n': N, 'e': [0, 1, 2, 0.5, 0.25, -1, 1.5], 'fwd': [True, False],
           'vs': [(), (2,)]}, thorough={'n': NT})
def differences(env, n, e, fwd, vs):
    p, t, x = mk(env, n, vs)
    r = p.tdiff(e, fwd)
    env.true(isinstance(r, process), 'process')
    env.shape(r, (n - 1,) + vs + (2,), 'shape')
    env.eq(r.t, t[:-1] if fwd else t[1:], 'timeline')
    for i in range(n - 1):
        h = t[i + 1] - t[i]
        w = {0: 1, 1: h, 2: h * h, 0.5: env.sqrt(h), -1: 1 / h,
             0.25: env.sqrt(env.sqrt(h)), 1.5: h * env.sqrt(h)}[e]
        env.eq(r.x[i], (x[i + 1] - x[i]) / w, 'difference')
    env.eq(p.tdiff(dt_exp=e, fwd=fwd).x, r.x, 'keywords')
    env.eq(p.x, x, 'values unchanged')
    env.eq(p.t, t, 'timeline unchanged')


@scenario({'flag': [1, 0, None, 'true', 'false', 'empty'], 'e': [0, 1]})
def flags(env, flag, e):
    """any value that evaluates to true or false"""
    p, t, x = mk(env, 3, (), 1)
    f = dict(true=np.bool_(True), false=np.bool_(False), empty=()).get(
        flag, flag)
    r = p.tdiff(e, f)
    env.eq(r.t, t[:-1] if f else t[1:], 'timeline')
    env.eq(r.x, p.tdiff(e).x, 'values')



@scenario({'n': N, 'vs': [(), (2,)]}, thorough={'n': NT})
def defaults(env, n, vs):
    p, t, x = mk(env, n, vs)
    r = p.tdiff()
    env.eq(r.t, t[:-1], 'forward by default')
    env.eq(r.x, x[1:] - x[:-1], 'no weight by default')
    d = p.tder()
    env.eq(d.t, t[:-1], 'derivative timeline')
    for i in range(n - 1):
        env.eq(d.x[i] * (t[i + 1] - t[i]), x[i + 1] - x[i], 'derivative')


@scenario({'n': [1] + N, 'vs': [(), (2,)]}, thorough={'n': [1] + NT})
def integral(env, n, vs):
    p, t, x = mk(env, n, vs)
    r = p.tint()
    env.true(isinstance(r, process), 'process')
    env.eq(r.t, t, 'timeline')
    env.eq(r.x[0], 0, 'starts at zero')
    s = 0
    for i in range(n - 1):
        s = s + x[i] * (t[i + 1] - t[i])
        env.eq(r.x[i + 1], s, 'left sums')
    env.eq(p.x, x, 'values unchanged')


@scenario({'n': N, 'vs': [(), (2,)]}, thorough={'n': NT})
def inverses(env, n, vs):
    p, t, x = mk(env, n, vs)
    a = p.tder().tint()
    env.eq(a.t, t[:-1], 'timeline')
    env.eq(a.x, (x - x[0])[:-1], 'integral of the derivative')
    b = p.tint().tder()
    env.eq(b.t, t[:-1], 'timeline')
    env.eq(b.x, x[:-1], 'derivative of the integral')


@scenario
def constant(env):
    t, c = env.times('t', 3), env.arr('c', (2,))
    p = process(t, c=c)
    env.eq(p.tder().x, 0, 'derivative of a constant')
    env.eq(p.tint().x[:, :, 0], (t - t[0])[:, np.newaxis] * c,
           'integral of a constant')


@scenario({'n': N, 'e': [0, 1, 2, -1], 'fwd': [True, False],
           'kind': ['int64', 'int32', 'uint8']})
def integer_values(env, n, e, fwd, kind):
    """processes with an integer data type (increasing values, so that the
    unsigned ones have increments)"""
    t = env.times('t', n)
    x = np.zeros((n, 2), kind)
    for i in range(1, n):
        x[i] = x[i - 1] + [1 + env.bool('b%d' % i), 2 * env.bool('c%d' % i)]
    p = process(t, x=x)
    d = p.tdiff(e, fwd)
    env.eq(d.t, t[:-1] if fwd else t[1:], 'timeline')
    f = p.tint()
    env.eq(f.t, t, 'timeline')
    s = [0, 0]
    env.eq(f.x[0], 0, 'starts at zero')
    for i in range(n - 1):
        h = t[i + 1] - t[i]
        for k in range(2):
            w = int(x[i + 1, k]) - int(x[i, k])
            env.eq(d.x[i, k] * {0: 1, 1: h, 2: h * h, -1: 1 / h}[e], w,
                   'difference')
            s[k] = s[k] + int(x[i, k]) * h
            env.eq(f.x[i + 1, k], s[k], 'left sums')
    env.true(p.x.dtype == np.dtype(kind), 'values unchanged')
    a = p.tder().tint()
    env.eq(a.x, (x - x[0])[:-1], 'integral of the derivative')


@scenario({'n': N})
def occupation(env, n):
    """the integral of a boolean process is the time spent where true"""
    t = env.times('t', n)
    x = np.zeros((n, 2), bool)
    for i in np.ndindex(x.shape):
        x[i] = env.bool('b%d%d' % i)
    p = process(t, x=x)
    f = p.tint()
    env.eq(f.t, t, 'timeline')
    s = [0, 0]
    for i in range(n):
        env.eq(f.x[i], np.array(s), 'time spent where true')
        if i < n - 1:
            s = [s[k] + (t[i + 1] - t[i] if x[i, k] else 0) for k in range(2)]
    env.true((p.x == x).all() and p.x.dtype == bool, 'values unchanged')
