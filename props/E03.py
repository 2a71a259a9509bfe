import numpy as np
import sdepy
from symx.runner import scenario
from .exact import affine, at

BOUNDS = ('all times > 0, values and admissible parameters (scalars) with '
          'sigma > 0; arrays of up to 2 entries per axis, broadcasting')
ASSUMPTIONS = ['scipy.stats.norm and lognorm are replaced by their defining '
               'formulas on the normal density and distribution function',
               'the drift and diffusion are read off one Euler step of the '
               'real integration at an arbitrary state']

ANY, POS = {}, dict(pos=True)
CASES = {
    'wiener': ('wiener', dict(mu=ANY, sigma=POS), ANY),
    'lognorm': ('lognorm', dict(mu=ANY, sigma=POS), POS),
    'oruh': ('ou', dict(theta=ANY, k=POS, sigma=POS), ANY),
    'hw1f': ('hw1f', dict(theta=ANY, k=POS, sigma=POS), ANY),
}
FUNS = {n: {m: getattr(sdepy, n + '_' + m)
            for m in ('mean', 'var', 'std', 'pdf', 'cdf')} for n in CASES}


def params(env, name):
    P = {k: env.real(k, **kw) for k, kw in CASES[name][1].items()}
    P['x0'] = env.real('x0', **CASES[name][2])
    return P, {k: at(f, P) for k, f in FUNS[name].items()}


def standard(env, name, f, P, t, x):
    """standardized value, its derivative in x"""
    if name == 'lognorm':
        s = P['sigma'] * env.sqrt(t)
        m = env.log(f['mean'](t)) - s * s / 2
        # mean and variance of the logarithm, as of the exact moments
        env.eq(f['var'](t), f['mean'](t) ** 2 * (env.exp(s * s) - 1),
               'variance of the lognormal')
        return (env.log(x) - m) / s, 1 / (s * x)
    m, s = f['mean'](t), f['std'](t)
    return (x - m) / s, 1 / s


@scenario({'name': list(CASES)})
def distribution(env, name):
    P, f = params(env, name)
    t = env.real('t', pos=True)
    x = env.real('x', pos=name == 'lognorm')
    z, dz = standard(env, name, f, P, t, x)
    p, c = f['pdf'](t, x), f['cdf'](t, x)
    env.eq(c, env.ncdf(z), 'distribution')
    env.eq(p, env.npdf(z) * dz, 'density')
    env.eq(env.d(lambda y: f['cdf'](t, y), [x]), p,
           'the density is the derivative of the distribution')


@scenario({'name': list(CASES)})
def forward_equation(env, name):
    P, f = params(env, name)
    t = env.real('t', pos=True)
    x = env.real('x', pos=name == 'lognorm')
    par = {k: v for k, v in P.items() if k != 'x0'}
    y = env.real('y', pos=True)
    a0, a1, c0, c1, c2 = affine(env, CASES[name][0], par, y)
    q = lambda u, v: np.asarray(f['pdf'](u, v))[()]
    lhs = env.d(q, [t, x], 0)
    px, pxx = env.d(q, [t, x], 1), env.d(q, [t, x], 1, 1)
    p = q(t, x)
    drift = a1 * p + (a0 + a1 * x) * px
    diff = (2 * c2 * p + 2 * (c1 + 2 * c2 * x) * px +
            (c0 + c1 * x + c2 * x * x) * pxx) / 2
    env.eq(lhs, diff - drift, 'forward equation')


@scenario({'m': ['pdf', 'cdf'], 'at0': [True, False]})
def lognormal_support(env, m, at0):
    P, f = params(env, 'lognorm')
    t = env.real('t', pos=True)
    x = env.const(0)[()] if at0 else -env.real('x', pos=True)
    env.eq(f[m](t, x), 0, m + ' vanishes for non positive values')


SHAPES = [((2,), (), ()), ((), (2,), ()), ((), (), (2,)),
          ((2, 1), (2,), ()), ((2,), (2,), (2,)), ((2, 1), (1, 2), (1, 1)),
          ((), (2,), (2, 1))]


@scenario({'name': list(CASES), 'case': SHAPES, 'm': ['pdf', 'cdf']})
def arrays(env, name, case, m):
    st, sx, sp = case
    t = env.arr('t', st, pos=True)
    x = env.arr('x', sx, pos=name == 'lognorm')
    P = {}
    for j, (k, kw) in enumerate(sorted(CASES[name][1].items())):
        P[k] = env.arr(k, sp if j != 1 else (), **kw)
    P['x0'] = env.arr('x0', sp, **CASES[name][2])
    shape = np.broadcast_shapes(st, sx, sp)
    B = {k: np.broadcast_to(v, shape) for k, v in P.items()}
    T, X = np.broadcast_to(t, shape), np.broadcast_to(x, shape)
    r = np.asarray(FUNS[name][m](t, x, **P))
    env.shape(r, shape, 'shape of ' + m)
    for i in np.ndindex(*shape):
        env.eq(r[i], FUNS[name][m](T[i], X[i],
                                   **{k: v[i] for k, v in B.items()}), m)


@scenario({'name': list(CASES), 'm': ['pdf', 'cdf']})
def default_values(env, name, m):
    t = env.real('t', pos=True)
    x = env.real('x', pos=name == 'lognorm')
    base = dict(mu=0, sigma=1, theta=0, k=1, x0=int(name == 'lognorm'))
    P = {k: env.const(base[k])[()] for k in list(CASES[name][1]) + ['x0']}
    env.eq(FUNS[name][m](t, x), FUNS[name][m](t, x, **P), m)
