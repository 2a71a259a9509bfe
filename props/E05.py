import numpy as np
import sdepy
from symx.runner import scenario
from .exact import affine, zero, at

BOUNDS = ('all times and admissible parameters (scalars): x0 > 0, lam >= 0, '
          'for the Kou process 0 < a < 1, b > 0, 0 <= pa <= 1; arrays of up '
          'to 2 entries per axis, broadcasting')
ASSUMPTIONS = ['the drift is read off one Euler step of the real '
               'integration, the exponential mean of jumps is that of the '
               'random variable used by the compound Poisson source the '
               'process sets up (see B07 for its law)']

ANY, POS, NON, UNIT = {}, dict(pos=True), dict(nonneg=True), dict(lo=0, hi=1)
CASES = {
    'mjd': ('merton', dict(mu=ANY, sigma=ANY),
            dict(lam=NON, a=ANY, b=POS), sdepy.merton_jumpdiff_process),
    'kou': ('kou', dict(mu=ANY, sigma=ANY),
            dict(lam=NON, a=POS, b=POS, pa=UNIT), sdepy.kou_jumpdiff_process),
}
MEAN = {n: getattr(sdepy, n + '_mean') for n in CASES}
CHF = {n: getattr(sdepy, n + '_log_chf') for n in CASES}


def params(env, name, shape=None, one=()):
    proc, par, jump, cls = CASES[name]

    def mk(k, kw):
        return env.real(k, **kw) if shape is None else env.arr(
            k, () if k in one else shape, **kw)
    P = {k: mk(k, kw) for k, kw in par.items()}
    J = {k: mk(k, kw) for k, kw in jump.items()}
    if name == 'kou':
        for z in np.asarray(J['a']).reshape(-1):
            env.assume(z < 1)
    return P, J, mk('x0', POS)


@scenario({'name': list(CASES)})
def growth(env, name):
    P, J, x0 = params(env, name)
    proc, cls = CASES[name][0], CASES[name][3]
    t = env.real('t', pos=True)
    y = env.real('y', pos=True)
    a0, a1, c0, c1, c2 = affine(env, proc, P, y)
    env.eq(a0, 0, 'drift proportional to the value')
    src = cls().source_dj(**J)
    em = np.asarray(src.y.exp_mean()).reshape(-1)[0]
    f = at(MEAN[name], dict(P, x0=x0, **J))
    m = f(t)
    env.eq(f(zero(env)), x0, 'initial mean')
    env.eq(env.d(f, [t]), (a1 + J['lam'] * (em - 1)) * m, 'mean equation')


@scenario({'name': list(CASES)})
def characteristic_function(env, name):
    P, J, x0 = params(env, name)
    t = env.real('t', pos=True)
    m = MEAN[name](t, x0=x0, **P, **J)
    c = np.asarray(CHF[name](t, -1j, x0=x0, **P, **J))[()]
    env.eq(c.real, m, 'expectation')
    env.eq(c.imag, 0, 'real')


@scenario({'name': list(CASES)})
def no_jumps(env, name):
    P, J, x0 = params(env, name)
    J['lam'] = zero(env)
    t = env.real('t', pos=True)
    env.eq(MEAN[name](t, x0=x0, **P, **J), sdepy.lognorm_mean(t, x0=x0, **P),
           'lognormal mean')


SHAPES = [((2,), ()), ((), (2,)), ((2, 1), (1, 2)), ((2,), (2,))]


@scenario({'name': list(CASES), 'case': SHAPES,
           'one': [(), ('mu', 'a'), ('lam', 'x0', 'b')]})
def arrays(env, name, case, one):
    st, sp = case
    t = env.arr('t', st, pos=True)
    P, J, x0 = params(env, name, sp, one)
    Q = dict(P, x0=x0, **J)
    shape = np.broadcast_shapes(st, *[np.shape(v) for v in Q.values()])
    B = {k: np.broadcast_to(v, shape) for k, v in Q.items()}
    T = np.broadcast_to(t, shape)
    r = np.asarray(MEAN[name](t, **Q))
    env.shape(r, shape, 'shape')
    for i in np.ndindex(*shape):
        env.eq(r[i], MEAN[name](T[i], **{k: v[i] for k, v in B.items()}),
               'mean')


@scenario({'name': list(CASES)})
def default_values(env, name):
    t = env.real('t', pos=True)
    base = dict(mu=0, sigma=1, lam=1, a=0 if name == 'mjd' else .5,
                b=1 if name == 'mjd' else .5, pa=.5, x0=1)
    P = {k: env.const(base[k])[()] for k in
         list(CASES[name][1]) + list(CASES[name][2]) + ['x0']}
    env.eq(MEAN[name](t), MEAN[name](t, **P), 'mean')
