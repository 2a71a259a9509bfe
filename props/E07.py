import numpy as np
import sdepy
from symx.runner import scenario
from .exact import step, zero, at

BOUNDS = ('all times and parameters: mean reversion rates k positive, any '
          'correlation between -1 and 1; parameters as scalars, two '
          'component vectors, or arrays with a factors axis of size 1 or 2 '
          'and up to 2 entries along the others')
ASSUMPTIONS = ['the drift and diffusion of each factor are read off one '
               'Euler step of the real integration; moment equations are '
               'checked for each factor, and for their covariance, using '
               'linearity (also checked)',
               'scipy.stats.norm is replaced by the normal density and '
               'distribution functions']

NAMES = ('x0', 'theta', 'k', 'sigma')
KW = dict(k=dict(pos=True))
F = {m: getattr(sdepy, 'hw2f_' + m) for m in ('mean', 'var', 'std', 'pdf',
                                              'cdf')}


def first(x):
    return np.asarray(x).reshape(-1)[0]


def params(env):
    P = {n: tuple(env.real('%s%d' % (n, i), **KW.get(n, {}))
                  for i in range(2)) for n in NAMES}
    return P, env.real('rho', lo=-1, hi=1)


def only(env, P, i, names):
    """the other factor's parameters of the given names set to zero"""
    z = zero(env)
    return {n: tuple(v[j] if j == i or n not in names else z
                     for j in range(2)) for n, v in P.items()}


def run(env, P, z):
    """value after one step of unit duration"""
    par = {}
    for n in NAMES:
        a = env.obj((2, 1))
        a[0, 0], a[1, 0] = P[n]
        par[n] = a
    x0 = par.pop('x0')
    return step(env, 'hw', dict(x0=x0), par, z, factors=2)[0]


@scenario({'i': [0, 1]})
def mean_of_factor(env, i):
    P, rho = params(env)
    t = env.real('t', pos=True)
    Q = only(env, P, i, ('x0', 'theta'))
    f = lambda u: first(F['mean'](u, rho=rho, **Q))
    drift = lambda x: run(env, dict(Q, x0=tuple(
        x if j == i else zero(env) for j in range(2))), [0, 0]) - x
    env.eq(f(zero(env)), P['x0'][i], 'initial mean')
    env.eq(env.d(f, [t]), drift(f(t)), 'mean equation')


@scenario
def mean_is_linear(env):
    P, rho = params(env)
    t = env.real('t', pos=True)
    m = [first(F['mean'](t, rho=rho, **only(env, P, i, ('x0', 'theta'))))
         for i in range(2)]
    env.eq(first(F['mean'](t, rho=rho, **P)), m[0] + m[1], 'mean')


def coef(env, P, i):
    """drift of factor i proportional to its value, diffusion"""
    one, O = env.const(1)[()], zero(env)
    Q = dict(P, theta=(O, O))
    x = tuple(one if j == i else O for j in range(2))
    a = run(env, dict(Q, x0=x), [0, 0]) - 1
    s = run(env, Q, [int(j == i) for j in range(2)]) - run(env, Q, [0, 0])
    return a, s


@scenario({'i': [0, 1]})
def variance_of_factor(env, i):
    P, rho = params(env)
    t = env.real('t', pos=True)
    Q = only(env, P, i, ('sigma',))
    f = lambda u: first(F['var'](u, rho=rho, **Q))
    a, s = coef(env, P, i)
    env.eq(f(zero(env)), 0, 'initial variance')
    env.eq(env.d(f, [t]), 2 * a * f(t) + s * s, 'variance equation')


@scenario
def covariance(env):
    P, rho = params(env)
    t = env.real('t', pos=True)

    def c(u):
        v = [first(F['var'](u, rho=rho, **only(env, P, i, ('sigma',))))
             for i in range(2)]
        return (first(F['var'](u, rho=rho, **P)) - v[0] - v[1]) / 2
    (a, s), (b, r) = coef(env, P, 0), coef(env, P, 1)
    env.eq(c(zero(env)), 0, 'initial covariance')
    env.eq(env.d(c, [t]), (a + b) * c(t) + rho * s * r,
           'covariance equation')



@scenario
def law(env):
    P, rho = params(env)
    t, x = env.real('t', pos=True), env.real('x')
    v = first(F['var'](t, rho=rho, **P))
    env.assume(v > 0)
    m, s = (first(F[k](t, rho=rho, **P)) for k in ('mean', 'std'))
    env.eq(s * s, v, 'squared standard deviation')
    env.le(0, s, 'standard deviation is not negative')
    z = (x - m) / env.sqrt(v)
    p = lambda y: first(F['pdf'](t, y, rho=rho, **P))
    c = lambda y: first(F['cdf'](t, y, rho=rho, **P))
    env.eq(p(x), env.npdf(z) / env.sqrt(v), 'density')
    env.eq(c(x), env.ncdf(z), 'distribution')
    env.eq(env.d(c, [x]), p(x), 'density is the derivative')


@scenario({'m': list(F), 'i': [0, 1]})
def null_factor(env, m, i):
    """the other factor identically zero"""
    P, rho = params(env)
    if m in ('std', 'pdf', 'cdf'):
        env.assume(P['sigma'][i] > 0)
    t, x = env.real('t', pos=True), env.real('x')
    Q = only(env, P, i, ('x0', 'theta', 'sigma'))
    R = {n: v[i] for n, v in P.items()}
    a = (t, x) if m in ('pdf', 'cdf') else (t,)
    env.eq(first(F[m](*a, rho=rho, **Q)),
           first(getattr(sdepy, 'hw1f_' + m)(*a, **R)), m)


@scenario({'m': list(F)})
def equal_scalars(env, m):
    """scalars are shared by both factors"""
    S = {n: env.real(n, **KW.get(n, {})) for n in NAMES}
    rho = env.real('rho', lo=-1, hi=1)
    t, x = env.real('t', pos=True), env.real('x')
    if m in ('std', 'pdf', 'cdf'):
        for q in (S, {n: (v, v) for n, v in S.items()}):
            env.assume(first(F['var'](t, rho=rho, **q)) > 0)
    a = (t, x) if m in ('pdf', 'cdf') else (t,)
    r = F[m](*a, rho=rho, **S)
    env.shape(r, (), 'shape')
    w = first(F[m](*a, rho=rho, **{n: (v, v) for n, v in S.items()}))
    env.eq(first(r), w, m)
    w = first(F[m](*a, rho=rho, **{n: (v,) for n, v in S.items()}))
    env.eq(first(r), w, m)
    # a scalar among vectors
    for n in NAMES:
        Q = {k: v if k == n else (v, v) for k, v in S.items()}
        env.eq(first(F[m](*a, rho=rho, **Q)), w, m + ' with a scalar ' + n)


# shapes of parameters (with a factors axis), of rho, t, x
SHAPES = [
    ((2,), (), (2,), ()), ((2,), (), (2, 1), (2,)), ((2,), (2,), (), ()),
    ((2, 1), (), (), ()), ((2, 1), (), (2,), ()), ((1, 1), (), (2,), ()),
    ((2, 2, 1), (), (), ()), ((2, 2, 1), (), (2,), (2,)),
    ((2, 1, 1), (2, 1), (), ()), ((2, 2), (), (), ()), ((1,), (), (), (2,)),
]


def factor(shape, a, j):
    """component j of a parameter array with factors axis"""
    if len(shape) == 1:
        return a[j if shape[0] == 2 else 0]
    return a[..., j if shape[-2] == 2 else 0, :]


CASES = [(m, c, s) for m in F for c in SHAPES for s in ('', 'theta', 'k')
         if m not in ('pdf', 'cdf') or s == 'k' or (
             s != 'theta' and (len(c[0]) < 3 or not c[2]))]


@scenario({'case': CASES})
def arrays(env, case):
    """elementwise along the axes other than the factors axis (densities
    and distributions: at single, or at some, times)"""
    m, (sp, sr, st, sx), scalar = case
    two, root = m in ('pdf', 'cdf'), m in ('std', 'pdf', 'cdf')
    t, x = env.arr('t', st, pos=True), env.arr('x', sx if two else ())
    if two and st:
        t = env.const(np.arange(1, 3)).reshape(st)
    rho = env.arr('rho', sr, lo=-1, hi=1)
    P = {n: env.arr(n, () if n == scalar else sp, **KW.get(n, {}))
         for n in NAMES}
    fs = sp[:-1] if len(sp) == 1 else sp[:-2] + sp[-1:]
    shape = np.broadcast_shapes(fs, sr, st, *([sx] if two else []))
    B = {n: [np.broadcast_to(
        v if n == scalar else factor(sp, v, j), shape)
        for j in range(2)] for n, v in P.items()}
    T, R = np.broadcast_to(t, shape), np.broadcast_to(rho, shape)
    X = np.broadcast_to(x, shape) if two else None
    want = env.obj(shape)
    for i in np.ndindex(*shape):
        Q = {n: tuple(v[j][i] for j in range(2)) for n, v in B.items()}
        a = (T[i], X[i]) if two else (T[i],)
        if root:
            env.assume(first(F['var'](T[i], rho=R[i], **Q)) > 0)
        want[i] = first(F[m](*a, rho=R[i], **Q))
    r = F[m](*((t, x) if two else (t,)), rho=rho, **P)
    env.shape(r, shape, 'shape')
    env.eq(np.asarray(r), want, m)


@scenario({'m': list(F), 'n': NAMES, 'shape': [(3,), (3, 1), (2, 3, 1)]})
def too_many_factors(env, m, n, shape):
    t, x = env.real('t', pos=True), env.real('x')
    a = (t, x) if m in ('pdf', 'cdf') else (t,)
    P = {n: env.arr(n, shape, **KW.get(n, {}))}
    env.raises(ValueError, lambda: F[m](
        *a, **{k: v for k, v in dict(dict(
            x0=0., theta=0., k=1., sigma=1.), **P).items()}), m)


@scenario({'m': list(F)})
def default_values(env, m):
    t, x = env.real('t', pos=True), env.real('x')
    a = (t, x) if m in ('pdf', 'cdf') else (t,)
    P = {n: tuple([env.const(int(n in ('k', 'sigma')))[()]] * 2)
         for n in NAMES}
    env.eq(first(F[m](*a)), first(F[m](*a, rho=zero(env), **P)), m)
