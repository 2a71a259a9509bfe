"""Drift and diffusion of the simulated processes, read off one step of the
real integration, for comparison with the exact formulas."""
import numpy as np
from .presets import SPEC, LOG


class Noise:
    """a source delivering given increments"""

    def __init__(self, vals, vshape=()):
        self.vals = vals
        self.vshape = vshape if isinstance(vshape, tuple) else (vshape,)
        self.paths = 1

    def __call__(self, t, dt):
        a = np.empty(self.vshape + (1,), dtype=object)
        a[..., 0] = self.vals if self.vshape else self.vals[0]
        if all(isinstance(z, (int, float)) for z in a.reshape(-1)):
            return a.astype(float)
        return a


def step(env, name, init, par, z, h=1, **kw):
    """state reached in one step of duration h with noise increments z"""
    cls = SPEC[name][0]
    vs = () if len(z) == 1 else (len(z),)
    if name in ('merton', 'kou', 'jumpdiff'):
        kw['dj'] = Noise([0])
    p = cls(paths=1, dtype=env.dtype, dw=Noise([env.const(v)[()] for v in z],
                                               vs), **init, **par, **kw)
    t = env.obj(2)
    t[0], t[1] = env.const(0)[()], env.const(h)[()]
    r = p(t)
    r = r if isinstance(r, tuple) else (r,)
    return [q.x[1].reshape(-1)[0] for q in r]


def coefficients(env, name, x, par, init='x0'):
    """drift and diffusion at state x (of the logarithm, for the logarithmic
    processes), in the units of time and noise"""
    tr = env.log if name in LOG else (lambda y: y)
    y0 = tr(step(env, name, {init: x}, par, [0])[0])
    y1 = tr(step(env, name, {init: x}, par, [1])[0])
    return y0 - tr(x), y1 - y0


def affine(env, name, par, x):
    """(a0, a1, c0, c1, c2): the drift is a0 + a1*x, the squared diffusion
    c0 + c1*x + c2*x**2, as verified at the arbitrary state x"""
    A, C = [], []
    for s in [env.const(k)[()] for k in (1, 2, 3)] + [x]:
        a, b = coefficients(env, name, s, par)
        if name in LOG:
            a, b = s * (a + b * b / 2), s * b
        A.append(a)
        C.append(b * b)
    a1 = A[1] - A[0]
    a0 = A[0] - a1
    c2 = (C[2] - 2 * C[1] + C[0]) / 2
    c1 = C[1] - C[0] - 3 * c2
    c0 = C[0] - c1 - c2
    env.eq(A[3], a0 + a1 * x, 'the drift is affine')
    env.eq(C[3], c0 + c1 * x + c2 * x * x, 'the variance is quadratic')
    return a0, a1, c0, c1, c2


def zero(env):
    return env.const(0)[()]


def at(f, par, **kw):
    """function of its positional arguments, and of parameters by name"""
    def g(*args):
        q = dict(par)
        q.update(kw)
        return f(*args, **q)
    return g


# ------------------------------------------------------------------- heston

ANY, POS = {}, dict(pos=True)
HESTON = dict(mu=ANY, sigma=ANY, theta=POS, k=POS, xi=ANY)


def heston(env):
    """parameters, correlation, initial values"""
    P = {k: env.real(k, **kw) for k, kw in HESTON.items()}
    r = env.real('rho', lo=-1, hi=1)
    return P, r, dict(x0=env.real('x0', pos=True), y0=env.real('y0',
                                                               pos=True))


def heston_dynamics(env, P, X):
    """coefficients (of y or 1) of the drift of log(x), of its variance, of
    the drift of y, of its variance, and of the covariance for independent
    unit noise on each: all affine in y"""
    def run(y, z):
        x1, y1 = step(env, 'full_heston', dict(x0=X, y0=y), P, z)
        return env.log(x1) - env.log(X), y1 - y

    def coef(y):
        l0, y0 = run(y, [0, 0])
        la, ya = run(y, [1, 0])
        lb, yb = run(y, [0, 1])
        env.eq(ya, y0, 'first noise drives x only')
        env.eq(lb, l0, 'second noise drives y only')
        s, w = la - l0, yb - y0
        return l0, s * s, y0, w * w, s * w

    c = [coef(env.const(k)[()]) for k in (1, 4)]
    y = env.real('y', pos=True)
    e = coef(y)
    out = []
    for a, b, g in zip(c[0], c[1], e):
        m = (b - a) / 3
        out.append((a - m, m))
        env.eq(g, a - m + m * y, 'coefficients are affine in y')
    return out
