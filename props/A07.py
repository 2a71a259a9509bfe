import numpy as np
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('1-2 nodes, evaluation times (own, scalar, (2,)), arguments (), '
          '(2,), (2,2), value shapes (), (2,), 1-3 paths; every ordering and '
          'tie of values and arguments')
ASSUMPTIONS = ['exp(i*a) is read as cos(a) + i*sin(a)',
               'scipy interp1d replaced by its contract']


def lin(t, x, s):
    n = len(t)
    if n == 1 or s <= t[0]:
        return x[0]
    for i in range(1, n):
        if s <= t[i]:
            w = (s - t[i - 1]) / (t[i] - t[i - 1])
            return x[i - 1] * (1 - w) + x[i] * w
    return x[n - 1]


def at(env, t, x, ts, kind):
    """values at the requested times, and the shape of the time axes"""
    if kind == 'own':
        return x, (len(t),)
    s = np.asarray(ts)
    out = env.obj(s.shape + x.shape[1:])
    for i in np.ndindex(s.shape):
        out[i] = lin(t, x, s[i])
    return out, s.shape


CASES = [('own', 2), ('own', 1), ('scalar', 1), ('scalar', 2), ('array', 2)]


def setup(env, case, vs, k):
    kind, n = case
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (k,))
    ts = None if kind == 'own' else env.real('s') if kind == 'scalar' \
        else env.arr('s', 2)
    y, tsh = at(env, t, x, ts, kind)
    return process(t, x=x), ts, y, tsh


def call(f, ts, u, name):
    if ts is None:
        return [f(u), f(**{name: u})]
    return [f(ts, u), f(t=ts, **{name: u})]


@scenario({'case': CASES, 'us': [(), (2,), (1, 2)], 'vs': [(), (2,)]},
          thorough={'us': [(), (2,), (2, 2)]})
def chf(env, case, us, vs):
    k = 2
    p, ts, y, tsh = setup(env, case, vs, k)
    u = env.arr('u', us)
    if us == ():
        u = u[()]
    for r in map(np.asarray, call(p.chf, ts, u, 'u')):
        env.shape(r, tsh + us + vs, 'shape')
        ua = np.asarray(u)
        for i in np.ndindex(tsh):
            for j in np.ndindex(us):
                for v in np.ndindex(vs):
                    want = 0
                    for q in range(k):
                        a = ua[j] * y[i + v + (q,)]
                        want = want + cis(env, a)
                    env.eq(r[i + j + v], want / k, 'chf')


def cis(env, a):
    if env.sym:
        from symx.core import SymC
        from symx.facade import tosym
        return SymC.of(tosym(a) * 1j).exp()
    return np.exp(1j * a)


@scenario({'case': CASES, 'us': [(), (2,)], 'vs': [()], 'k': [1, 2]},
          thorough={'k': [1, 2, 3], 'vs': [(), (2,)]})
def cdf(env, case, us, vs, k):
    p, ts, y, tsh = setup(env, case, vs, k)
    u = env.arr('u', us)
    if us == ():
        u = u[()]
    for r in map(np.asarray, call(p.cdf, ts, u, 'x')):
        env.shape(r, tsh + us + vs, 'shape')
        ua = np.asarray(u)
        for i in np.ndindex(tsh):
            for j in np.ndindex(us):
                for v in np.ndindex(vs):
                    c = 0
                    for q in range(k):
                        if y[i + v + (q,)] <= ua[j]:
                            c += 1
                    env.eq(r[i + j + v], c / k if not env.sym else
                           frac(c, k), 'cdf')


def frac(a, b):
    from symx.core import const
    from fractions import Fraction
    return const(Fraction(a, b))


@scenario
def cdf_axes(env):
    """time, argument and component axes are in this order"""
    t = env.times('t', 2)
    x = env.arr('x', (2, 2, 1))
    u = env.arr('u', (2,))
    p = process(t, x=x)
    r = p.cdf(u)
    env.shape(r, (2, 2, 2), 'shape')
    for i in range(2):
        for j in range(2):
            for v in range(2):
                env.eq(r[i, j, v], 1 if x[i, v, 0] <= u[j] else 0, 'cdf')


@scenario
def missing_argument(env):
    t, x = env.times('t', 2), env.arr('x', (2, 1))
    p = process(t, x=x)
    env.raises(TypeError, lambda: p.chf(), 'chf without argument')
    env.raises(TypeError, lambda: p.cdf(), 'cdf without argument')
