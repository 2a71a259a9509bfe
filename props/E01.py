import numpy as np
import sdepy
from symx.runner import scenario
from .exact import affine, zero, at

BOUNDS = ('all real times and admissible parameters (scalars); arrays of up '
          'to 2 entries per axis, broadcasting; moments up to the second')
ASSUMPTIONS = ['mean reversion rates other than zero; the drift and '
               'diffusion are read off one Euler step of the real '
               'integration at an arbitrary state',
               'uniqueness of solutions of linear differential equations']

ANY, POS = {}, dict(pos=True)
# process, prefix, parameters, initial value, parameters that must not vanish
CASES = {
    'wiener': ('wiener', dict(mu=ANY, sigma=ANY), ANY),
    'lognorm': ('lognorm', dict(mu=ANY, sigma=ANY), POS),
    'oruh': ('ou', dict(theta=ANY, k=ANY, sigma=ANY), ANY),
    'hw1f': ('hw1f', dict(theta=ANY, k=ANY, sigma=ANY), ANY),
    'cir': ('cir', dict(theta=POS, k=POS, xi=ANY), POS),
}
FUNS = {n: {m: getattr(sdepy, n + '_' + m) for m in ('mean', 'var', 'std')}
        for n in CASES}


def params(env, name, sfx=''):
    proc, par, init = CASES[name]
    P = {k: env.real(k + sfx, **kw) for k, kw in par.items()}
    if 'k' in P:
        env.assume(P['k'] != 0)
    return P, env.real('x0' + sfx, **init)


@scenario({'name': list(CASES)})
def moments(env, name):
    P, x0 = params(env, name)
    t = env.real('t', pos=True)
    x = env.real('x', pos=True)
    a0, a1, c0, c1, c2 = affine(env, CASES[name][0], P, x)
    F = {m: at(f, P, x0=x0) for m, f in FUNS[name].items()}
    m, v = F['mean'](t), F['var'](t)
    env.eq(F['mean'](zero(env)), x0, 'initial mean')
    env.eq(F['var'](zero(env)), 0, 'initial variance')
    env.eq(F['std'](t) ** 2, v, 'squared standard deviation')
    env.le(0, F['std'](t), 'standard deviation is not negative')
    env.eq(env.d(F['mean'], [t]), a0 + a1 * m, 'mean equation')
    env.eq(env.d(F['var'], [t]),
           2 * a1 * v + c0 + c1 * m + c2 * (v + m * m), 'variance equation')


SHAPES = [('t', (2,), ()), ('p', (), (2,)), ('tp', (2, 1), (1, 2)),
          ('tp', (2,), (2,)), ('tp', (1,), (2, 1)), ('0', (), ())]


@scenario({'name': list(CASES), 'case': SHAPES})
def arrays(env, name, case):
    """elementwise on times and parameters, with broadcasting"""
    _, st, sp = case
    par = CASES[name][1]
    t = env.arr('t', st, pos=True)
    P = {}
    for j, (k, kw) in enumerate(sorted(par.items())):
        # not all parameters need be arrays
        P[k] = env.arr(k, sp if j != 1 else (), **kw)
        if k == 'k':
            for z in np.asarray(P[k]).reshape(-1):
                env.assume(z != 0)
    P['x0'] = env.arr('x0', sp, **CASES[name][2])
    shape = np.broadcast_shapes(st, sp)
    B = {k: np.broadcast_to(v, shape) for k, v in P.items()}
    T = np.broadcast_to(t, shape)
    for m, f in FUNS[name].items():
        r = np.asarray(f(t, **P))
        env.shape(r, shape, 'shape of ' + m)
        for i in np.ndindex(*shape):
            env.eq(r[i], f(T[i], **{k: v[i] for k, v in B.items()}), m)


@scenario({'name': list(CASES)})
def lists(env, name):
    """lists are accepted, and arguments are not altered"""
    P, x0 = params(env, name)
    t = env.arr('t', (2,), pos=True)
    y = t.copy()
    for m, f in FUNS[name].items():
        r = np.asarray(f(t.tolist(), x0=[x0, x0], **P))
        q = np.asarray(f(t, x0=x0, **P))
        env.eq(r, q, m)
        env.eq(t, y, 'times untouched')


@scenario({'name': list(CASES)})
def default_values(env, name):
    """documented defaults of the parameters, as of the processes"""
    t = env.real('t', pos=True)
    base = dict(mu=0, sigma=1, theta=1 if name == 'cir' else 0, k=1, xi=1,
                x0=0 if name in ('wiener', 'oruh', 'hw1f') else 1)
    P = {k: env.const(base[k])[()] for k in list(CASES[name][1]) + ['x0']}
    for m, f in FUNS[name].items():
        env.eq(f(t), f(t, **P), m)
