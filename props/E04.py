import numpy as np
import sdepy
from symx.runner import scenario
from .exact import coefficients, zero, at, heston, heston_dynamics

BOUNDS = ('all times, admissible parameters and real arguments (scalars); '
          'Heston: imaginary arguments -is with 0 < s < 1 and k > rho*sigma*'
          'xi*s (real moment generating function), x0, y0, theta, k positive, '
          'sigma and xi other than zero; arrays of up to 2 entries per axis')
ASSUMPTIONS = ['the Heston identities extend to real arguments by analytic '
               'continuation',
               'drift and diffusion are read off one Euler step of the real '
               'integration; normal and double exponential jump laws as of '
               'B07']

ANY, POS, NON, UNIT = {}, dict(pos=True), dict(nonneg=True), dict(lo=0, hi=1)
# simulated process, parameters, jump parameters
CASES = {
    'wiener_chf': ('wiener', dict(mu=ANY, sigma=ANY), {}, ANY),
    'lognorm_log_chf': ('lognorm', dict(mu=ANY, sigma=ANY), {}, POS),
    'mjd_log_chf': ('merton', dict(mu=ANY, sigma=ANY),
                    dict(lam=NON, a=ANY, b=POS), POS),
    'kou_log_chf': ('kou', dict(mu=ANY, sigma=ANY),
                    dict(lam=NON, a=POS, b=POS, pa=UNIT), POS),
}


def parts(f):
    """real and imaginary parts, as an array of two"""
    def g(*args, **kw):
        c = np.asarray(f(*args, **kw))[()]
        out = np.empty(2, dtype=float if isinstance(
            c, (complex, np.complexfloating, float)) else object)
        out[0], out[1] = c.real, c.imag
        return out
    return g


def params(env, name):
    proc, par, jump, init = CASES[name]
    P = {k: env.real(k, **kw) for k, kw in par.items()}
    J = {k: env.real(k, **kw) for k, kw in jump.items()}
    x0 = env.real('x0', **init)
    return P, J, x0, parts(at(getattr(sdepy, name), dict(P, x0=x0, **J)))


def cis(env, a):
    """real and imaginary part of exp(ia)"""
    if env.sym:
        from symx import core
        return core.cos_(a), core.sin_(a)
    return np.cos(a), np.sin(a)


def jumps(env, name, J, u):
    """characteristic function of a jump"""
    if name == 'mjd_log_chf':
        c, s = cis(env, J['a'] * u)
        e = env.exp(-J['b'] * J['b'] * u * u / 2)
        return e * c, e * s
    if name == 'kou_log_chf':
        a, b, p = J['a'] * u, J['b'] * u, J['pa']
        da, db = 1 + a * a, 1 + b * b
        return (p / da + (1 - p) / db, p * a / da - (1 - p) * b / db)
    return 1, 0


@scenario({'name': list(CASES)})
def at_zero(env, name):
    """normalized; the initial condition at time zero"""
    P, J, x0, f = params(env, name)
    t, u = env.real('t', pos=True), env.real('u')
    c = f(t, zero(env))
    env.eq(c[0], 1, 'normalized')
    env.eq(c[1], 0, 'normalized')
    c = f(zero(env), u)
    w = cis(env, u * (x0 if name[0] == 'w' else env.log(x0)))
    env.eq(c[0], w[0], 'initial value')
    env.eq(c[1], w[1], 'initial value')


@scenario({'name': list(CASES)})
def generator(env, name):
    P, J, x0, f = params(env, name)
    t, u = env.real('t', pos=True), env.real('u')
    y = env.real('y', pos=True)
    a, b = coefficients(env, CASES[name][0], y, P)
    re, im = -u * u * b * b / 2, u * a
    if J:
        jr, ji = jumps(env, name, J, u)
        re, im = re + J['lam'] * (jr - 1), im + J['lam'] * ji
    d = env.d(f, [t, u])
    c = f(t, u)
    env.eq(d[0], re * c[0] - im * c[1], 'evolution')
    env.eq(d[1], re * c[1] + im * c[0], 'evolution')


@scenario
def wiener_moments(env):
    P, J, x0, f = params(env, 'wiener_chf')
    t = env.real('t', pos=True)
    m = sdepy.wiener_mean(t, x0=x0, **P)
    v = sdepy.wiener_var(t, x0=x0, **P)
    d1 = env.d(f, [t, zero(env)], 1)
    d2 = env.d(f, [t, zero(env)], 1, 1)
    env.eq(d1[0], 0, 'mean')
    env.eq(d1[1], m, 'mean')
    env.eq(d2[0], -(v + m * m), 'variance')
    env.eq(d2[1], 0, 'variance')


@scenario({'name': list(CASES)})
def symmetric(env, name):
    """the conjugate at opposite arguments: densities are real"""
    P, J, x0, f = params(env, name)
    t, u = env.real('t', pos=True), env.real('u', pos=True)
    c, d = f(t, u), f(t, -u)
    env.eq(c[0], d[0], 'real part')
    env.eq(c[1], -d[1], 'imaginary part')


# ------------------------------------------------------------------- heston

def hparams(env):
    P, rho, init = heston(env)
    env.assume(P['sigma'] != 0)
    env.assume(P['xi'] != 0)
    return P, rho, init


def mgf(env, P, rho, x0):
    """real moment generating function of (t, s, y0)"""
    def f(t, s, y0, x=x0):
        c = np.asarray(sdepy.heston_log_chf(
            t, -1j * s, x0=x, y0=y0, rho=rho, **P))[()]
        return c.real, c.imag
    return f


def arg(env, P, rho):
    s = env.real('s', lo=0, hi=1)
    env.assume(s > 0)
    env.assume(s < 1)
    env.assume(P['k'] > rho * P['sigma'] * P['xi'] * s)
    return s


@scenario({'what': ['real', 'initial', 'normalized', 'log x0']})
def heston_values(env, what):
    P, rho, init = hparams(env)
    x0, y0 = init['x0'], init['y0']
    f = mgf(env, P, rho, x0)
    t = env.real('t', pos=True)
    if what == 'normalized':
        r, i = f(t, zero(env), y0)
        env.eq(r, 1, 'normalized')
        env.eq(i, 0, 'normalized')
        return
    s = arg(env, P, rho)
    if what == 'initial':
        r, i = f(zero(env), s, y0)
        env.eq(r, env.exp(s * env.log(x0)), 'initial value')
    elif what == 'log x0':
        r, i = f(t, s, y0)
        q, j = f(t, s, y0, env.const(1)[()])
        env.eq(r, q * env.exp(s * env.log(x0)), 'initial value as a factor')
    else:
        r, i = f(t, s, y0)
    env.eq(i, 0, 'imaginary part')


@scenario
def heston_generator(env):
    P, rho, init = hparams(env)
    (l0, l1), (s0, s1), (k0, k1), (w0, w1), (c0, c1) = heston_dynamics(
        env, P, init['x0'])
    s = arg(env, P, rho)
    t, y = env.real('t', pos=True), init['y0']
    f = mgf(env, P, rho, init['x0'])
    g = lambda t, y: f(t, s, y)[0]
    m = g(t, y)
    mt, my, myy = (env.d(g, [t, y], *k) for k in ((0,), (1,), (1, 1)))
    env.eq(mt, s * (l0 + l1 * y) * m + s * s * (s0 + s1 * y) * m / 2 +
           (k0 + k1 * y) * my + (w0 + w1 * y) * myy / 2 +
           rho * (c0 + c1 * y) * s * my, 'evolution')


@scenario({'order': [1, 2]})
def heston_moments(env, order):
    P, rho, init = hparams(env)
    t, y = env.real('t', pos=True), init['y0']
    kw = dict(P, rho=rho, **init)
    m = sdepy.heston_log_mean(t, **kw)
    if env.sym:
        # derivatives along the real moment generating function
        f = mgf(env, P, rho, init['x0'])
        s = arg(env, P, rho)
        from symx import nf
        d = nf.diff(f(t, s, y)[0], s)
        d2 = nf.diff(d, s)
        O = {s.id: zero(env)}
        d, d2 = nf.subst(d, O), nf.subst(d2, O)
    else:
        g = parts(lambda t, u: sdepy.heston_log_chf(t, u, **kw))
        env.real('s', lo=0, hi=1)
        d = env.d(g, [t, 0.], 1)[1]
        d2 = -env.d(g, [t, 0.], 1, 1)[0]
    if order == 1:
        env.eq(d, m, 'mean')
    else:
        env.eq(d2, sdepy.heston_log_var(t, **kw) + m * m, 'variance')


SHAPES = [((2,), (), ()), ((), (2,), ()), ((), (), (2,)),
          ((2, 1), (2,), ()), ((2,), (2,), (2,)), ((2, 1), (1, 2), (1, 1))]


@scenario({'name': list(CASES), 'case': SHAPES})
def arrays(env, name, case):
    st, su, sp = case
    proc, par, jump, init = CASES[name]
    t, u = env.arr('t', st, pos=True), env.arr('u', su)
    Q = {}
    for j, (k, kw) in enumerate(sorted(dict(par, x0=init, **jump).items())):
        Q[k] = env.arr(k, sp if j != 1 else (), **kw)
    shape = np.broadcast_shapes(st, su, sp)
    B = {k: np.broadcast_to(v, shape) for k, v in Q.items()}
    T, U = np.broadcast_to(t, shape), np.broadcast_to(u, shape)
    f = getattr(sdepy, name)
    r = np.asarray(f(t, u, **Q))
    env.shape(r, shape, 'shape')
    for i in np.ndindex(*shape):
        w = f(T[i], U[i], **{k: v[i] for k, v in B.items()})
        env.eq(r[i].real, np.asarray(w)[()].real, 'real part')
        env.eq(r[i].imag, np.asarray(w)[()].imag, 'imaginary part')


@scenario({'which': ['t', 'all', 's']})
def heston_arrays(env, which):
    """elementwise"""
    n = 2
    A = {k: env.real(k, **kw) for k, kw in dict(
        mu={}, theta=POS, k=POS, x0=POS, y0=POS).items()}
    sigma, xi, rho = (env.const(v)[()] for v in (.5, .25, -.5))
    t = env.arr('t', (n,), pos=True) if which != 's' else env.real(
        't', pos=True)
    s = env.arr('s', (n,) if which != 't' else (), lo=0, hi=1)
    for z in s.reshape(-1):
        env.assume(z > 0)
        env.assume(z < 1)
    if which == 'all':
        for k in ('mu', 'x0', 'y0'):
            A[k] = np.array([A[k], A[k] + env.real('d' + k, pos=True)])
    kw = dict(A, sigma=sigma, xi=xi, rho=rho)
    r = np.asarray(sdepy.heston_log_chf(t, -1j * s, **kw))
    env.shape(r, (n,), 'shape')
    for i in range(n):
        q = {k: np.broadcast_to(v, (n,))[i] for k, v in kw.items()}
        w = np.asarray(sdepy.heston_log_chf(
            np.broadcast_to(t, (n,))[i], -1j * np.broadcast_to(s, (n,))[i],
            **q))[()]
        env.eq(r[i].real, w.real, 'real part')
        env.eq(r[i].imag, w.imag, 'imaginary part')


@scenario({'name': list(CASES) + ['heston_log_chf']})
def default_values(env, name):
    t = env.real('t', pos=True)
    f = parts(getattr(sdepy, name))
    kou = name[:3] == 'kou'
    base = dict(mu=0, sigma=1, lam=1, a=.5 if kou else 0, b=.5 if kou else 1,
                pa=.5, x0=int(name != 'wiener_chf'), y0=1, theta=1, k=1,
                xi=1, rho=0)
    if name in CASES:
        names = list(CASES[name][1]) + list(CASES[name][2]) + ['x0']
        u = env.real('u')
    else:
        names = ['mu', 'sigma', 'theta', 'k', 'xi', 'x0', 'y0', 'rho']
        s = env.real('s', lo=0, hi=1)
        env.assume(s > 0)
        env.assume(s < 1)
        u = -1j * s
    P = {k: env.const(base[k])[()] for k in names}
    a, b = f(t, u), f(t, u, **P)
    env.eq(a, b, 'default values')
