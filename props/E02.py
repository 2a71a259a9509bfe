import numpy as np
import sdepy
from symx.runner import scenario
from .exact import heston as params, heston_dynamics as dynamics, \
    HESTON as PAR, zero, at

BOUNDS = ('all real times and parameters (scalars) with x0, y0, theta, k '
          'positive, sigma and xi other than zero; arrays of up to 2 '
          'entries per axis, broadcasting')
ASSUMPTIONS = ['the drift, diffusion and correlation are read off one Euler '
               'step of the real integration at an arbitrary state; the '
               'variance equation is checked in the form obtained by '
               'eliminating the (linear) moments that are not exposed',
               'uniqueness of solutions of linear differential equations']

ANY, POS = {}, dict(pos=True)
F = dict(mean=sdepy.heston_log_mean, var=sdepy.heston_log_var,
         std=sdepy.heston_log_std)


@scenario({'half': ['mean', 'variance']})
def moments(env, half):
    P, rho, init = params(env)
    env.assume(P['sigma'] != 0)
    env.assume(P['xi'] != 0)
    t = env.real('t', pos=True)
    (l0, l1), (s0, s1), (y0, y1), (w0, w1), (c0, c1) = dynamics(
        env, P, init['x0'])
    f = {m: at(g, P, rho=rho, **init) for m, g in F.items()}
    O = zero(env)

    def ey(u):      # mean of y, implied by the drift of log(x)
        return (env.d(f['mean'], [u]) - l0) / l1
    if half == 'mean':
        env.eq(f['mean'](O), env.log(init['x0']), 'initial mean')
        env.eq(env.d(f['mean'], [t], 0, 0), l1 * (y0 + y1 * ey(t)),
               'mean equation')
        # ey(0) == y0: the solution of ey' = y0 + y1*ey from init y0
        env.eq(l1 * (init['y0'] + y0 / y1) * env.exp(y1 * t),
               env.d(f['mean'], [t]) - l0 + l1 * y0 / y1, 'initial drift')
        return
    # V' = 2 l1 C + s0 + s1 Ey ;  C' = y1 C + l1 W + rho (c0 + c1 Ey)
    # W' = 2 y1 W + w0 + w1 Ey ; with V, C, W zero at time zero
    k1, k0 = y1, y0

    def E(u):
        return (init['y0'] + k0 / k1) * env.exp(k1 * u) - k0 / k1

    def dE(u, n=1):
        return (init['y0'] + k0 / k1) * k1 ** n * env.exp(k1 * u)

    def unseen(u):
        """covariance and variance of y implied by the variance, and the
        derivative of the latter"""
        v1, v2, v3 = (env.d(f['var'], [u], *([0] * n)) for n in (1, 2, 3))
        C0 = (v1 - s0 - s1 * E(u)) / (2 * l1)
        C1 = (v2 - s1 * dE(u)) / (2 * l1)
        C2 = (v3 - s1 * dE(u, 2)) / (2 * l1)
        W0 = (C1 - y1 * C0 - rho * (c0 + c1 * E(u))) / l1
        W1 = (C2 - y1 * C1 - rho * c1 * dE(u)) / l1
        return C0, W0, W1
    C0, W0, W1 = unseen(t)
    env.eq(W1, 2 * y1 * W0 + w0 + w1 * E(t), 'variance equation')
    env.eq(f['var'](O), 0, 'initial variance')
    C0, W0, W1 = unseen(O)
    env.eq(C0, 0, 'initial covariance')
    env.eq(W0, 0, 'initial variance of y')


SHAPES = [((2,), ()), ((), (2,)), ((2, 1), (1, 2)), ((2,), (2,))]


@scenario({'case': SHAPES, 'm': list(F)})
def arrays(env, case, m):
    st, sp = case
    t = env.arr('t', st, pos=True)
    P = {}
    ks = dict(PAR, x0=POS, y0=POS, rho=dict(lo=-1, hi=1))
    for j, (k, kw) in enumerate(sorted(ks.items())):
        P[k] = env.arr(k, sp if j % 3 != 1 or m != 'mean' else (), **kw)
    shape = np.broadcast_shapes(st, sp)
    B = {k: np.broadcast_to(v, shape) for k, v in P.items()}
    T = np.broadcast_to(t, shape)
    if m == 'std':
        for z in np.asarray(F['var'](t, **P)).reshape(-1):
            env.assume(z >= 0)
    r = np.asarray(F[m](t, **P))
    env.shape(r, shape, 'shape of ' + m)
    for i in np.ndindex(*shape):
        env.eq(r[i], F[m](T[i], **{k: v[i] for k, v in B.items()}), m)


@scenario
def standard_deviation(env):
    P, rho, init = params(env)
    t = env.real('t', pos=True)
    v = F['var'](t, rho=rho, **P, **init)
    env.assume(v >= 0)
    s = F['std'](t, rho=rho, **P, **init)
    env.eq(s ** 2, v, 'squared standard deviation')
    env.le(0, s, 'standard deviation is not negative')


@scenario({'m': list(F)})
def default_values(env, m):
    t = env.real('t', pos=True)
    P = {k: env.const(v)[()] for k, v in dict(
        mu=0, sigma=1, theta=1, k=1, xi=1, x0=1, y0=1, rho=0).items()}
    env.eq(F[m](t), F[m](t, **P), m)
