import numpy as np
import sdepy
from symx.runner import scenario
from .exact import affine, zero, at, heston

BOUNDS = ('all admissible parameters (scalars), all times and values, with '
          'one of them an array of up to 4 entries; integrands at all '
          'nonzero real arguments (Merton, Kou) or all imaginary arguments '
          '-is, 0 < s < 1, k > rho*sigma*xi*s (Heston); CIR: t, x, k, x0 '
          'positive, xi not zero, 2*k*theta/xi**2 >= 1, parameters as '
          'scalars or arrays of 2 entries')
ASSUMPTIONS = ['scipy.integrate.quad is replaced by the linear functional '
               'reading the integrand at a symbolic point (and at its '
               'opposite): results agree for all points when the integrals '
               'requested are those of the same function; the accuracy of '
               'the numerical quadrature is not modelled',
               'the integrand is an analytic function of its argument '
               '(Heston), or the real part of one',
               'modified Bessel functions satisfy their recurrences']

ANY, POS, NON, UNIT = {}, dict(pos=True), dict(nonneg=True), dict(lo=0, hi=1)
CASES = {
    'mjd': dict(mu=ANY, sigma=ANY, lam=NON, a=ANY, b=POS),
    'kou': dict(mu=ANY, sigma=ANY, lam=NON, a=POS, b=POS, pa=UNIT),
    'heston': None,
}
PDF = {n: getattr(sdepy, n + '_log_pdf') for n in CASES}
CHF = {n: getattr(sdepy, n + '_log_chf') for n in CASES}
SHAPES = [((), ()), ((2,), ()), ((), (2,)), ((1, 2), ()), ((), (2, 2)),
          ((1,), ()), ((), (1,)), ((1, 1), ()), ((), (1, 1))]


def params(env, name):
    if name == 'heston':
        P, rho, init = heston(env)
        env.assume(P['sigma'] != 0)
        env.assume(P['xi'] != 0)
        s = env.real('s', lo=0, hi=1)
        env.assume(s > 0)
        env.assume(s < 1)
        env.assume(P['k'] > rho * P['sigma'] * P['xi'] * s)
        return dict(P, rho=rho, **init), s
    P = {k: env.real(k, **kw) for k, kw in CASES[name].items()}
    return dict(P, x0=env.real('x0', pos=True)), env.real('u', pos=True)


def inside(a, b, u):
    return (a == -np.inf or a < u) and (b == np.inf or u < b)


def functional(name, u):
    """integral of a function over an interval read at u and -u"""
    def quad(f, a, b, args=(), **k):
        if name == 'heston':
            w = ((a == -np.inf) + (b == np.inf)) / 2
            return np.asarray(w * f(-1j * u, *args))[()], 0.
        r = 0.
        for v in (u, -u):
            if inside(a, b, v):
                r = r + f(v, *args)
        return np.asarray(r)[()], 0.
    return quad


@scenario({'name': list(CASES), 'shape': SHAPES})
def inversion(env, name, shape):
    st, sx = shape
    P, u = params(env, name)
    t, x = env.arr('t', st, pos=True), env.arr('logx', sx)
    with env.quadrature(functional(name, u)):
        r = PDF[name](t, x, **P)
    shape = np.broadcast_shapes(st, sx)
    env.shape(r, shape, 'shape')
    T, X = np.broadcast_to(t, shape), np.broadcast_to(x, shape)
    want = env.obj(shape)
    for i in np.ndindex(*shape):
        if name == 'heston':
            c = np.asarray(CHF[name](T[i], -1j * u, **P))[()]
            want[i] = env.exp(-u * X[i]) * c.real / (2 * env.pi)
            continue
        v = 0
        for w in (u, -u):
            c = np.asarray(CHF[name](T[i], w, **P))[()]
            e = cis(env, -w * X[i])
            v = v + (e[0] * c.real - e[1] * c.imag) / (2 * env.pi)
        want[i] = v
    env.eq(np.asarray(r), want, 'density')


def cis(env, a):
    """real and imaginary part of exp(ia)"""
    if env.sym:
        from symx import core
        return core.cos_(a), core.sin_(a)
    return np.cos(a), np.sin(a)


@scenario({'name': list(CASES)})
def default_values(env, name):
    P = dict(mu=0, sigma=1, x0=1)
    P.update(dict(lam=1, a=0, b=1) if name == 'mjd' else dict(
        lam=1, a=1 / 2, b=1 / 2, pa=1 / 2) if name == 'kou' else dict(
            y0=1, theta=1, k=1, xi=1, rho=0))
    u = env.real('u', pos=True)
    if name == 'heston':
        env.assume(u < 1)
    t, x = env.real('t', pos=True), env.real('logx')
    with env.quadrature(functional(name, u)):
        r = PDF[name](t, x)
        w = PDF[name](t, x, **{k: env.const(v)[()] for k, v in P.items()})
    env.eq(np.asarray(r)[()], np.asarray(w)[()], 'density')


# ---------------------------------------------------------------------- cir

CIR = dict(theta=POS, k=POS, xi=ANY)


def cir(env, shape=None, one=()):
    def mk(k, kw):
        return env.real(k, **kw) if shape is None else env.arr(
            k, () if k in one else shape, **kw)
    P = {k: mk(k, kw) for k, kw in CIR.items()}
    x0 = mk('x0', POS)
    return P, x0


def admissible(env, P):
    env.assume(P['xi'] != 0)
    env.assume(2 * P['k'] * P['theta'] >= P['xi'] * P['xi'])


@scenario
def cir_forward(env):
    P, x0 = cir(env)
    admissible(env, P)
    a0, a1, c0, c1, c2 = affine(env, 'cir', P, env.real('y', pos=True))
    t, x = env.real('t', pos=True), env.real('x', pos=True)
    f = at(sdepy.cir_pdf, dict(P, x0=x0))
    p, px, pxx, pt = (f(t, x) if not k else env.d(f, [t, x], *k) for k in (
        (), (1,), (1, 1), (0,)))
    p = np.asarray(p)[()]
    # -(a p)' + (c p)''/2
    env.eq(pt, -a1 * p - (a0 + a1 * x) * px + c2 * p +
           (c1 + 2 * c2 * x) * px + (c0 + c1 * x + c2 * x * x) * pxx / 2,
           'forward equation')


def bessel(env, q, x):
    if env.sym:
        from symx import facade
        return facade.e_iv(q, x)
    from scipy.special import iv
    return iv(q, x)


def mixture(env, t, x, x0, theta, k, xi):
    """mixture over a Poisson distributed index, of mean u, of gamma
    densities of order q + 1 + index and unit scale for the variable v:
    summed, it is a Bessel function"""
    e = env.exp(-k * t)
    c = 2 * k / (1 - e) / (xi * xi)
    u, v, q = c * x0 * e, c * x, 2 * k * theta / (xi * xi) - 1
    return c * env.exp(-u - v) * env.exp(
        q / 2 * (env.log(x) - env.log(x0) + k * t)) * bessel(
            env, q, 2 * c * env.sqrt(x * x0 * e))


@scenario
def cir_normalized(env):
    P, x0 = cir(env)
    admissible(env, P)
    t, x = env.real('t', pos=True), env.real('x', pos=True)
    env.eq(np.asarray(sdepy.cir_pdf(t, x, x0=x0, **P))[()],
           mixture(env, t, x, x0, **P), 'density')


ARR = [((2,), (), ()), ((), (2,), ()), ((), (2, 1), (2,)), ((2,), (2,), (2,)),
       ((), (), (2,)), ((2, 1), (), (2,))]


@scenario({'shape': ARR, 'one': ['', 'theta', 'k', 'xi', 'x0']})
def cir_arrays(env, shape, one):
    st, sx, sp = shape
    P, x0 = cir(env, sp, (one,))
    t, x = env.arr('t', st, pos=True), env.arr('x', sx, pos=True)
    P['x0'] = x0
    full = np.broadcast_shapes(*shape)
    B = {k: np.broadcast_to(v, full) for k, v in P.items()}
    T, X = np.broadcast_to(t, full), np.broadcast_to(x, full)
    want = env.obj(full)
    for i in np.ndindex(*full):
        Q = {k: v[i] for k, v in B.items()}
        admissible(env, Q)
        want[i] = np.asarray(sdepy.cir_pdf(T[i], X[i], **Q))[()]
    r = sdepy.cir_pdf(t, x, **P)
    env.shape(r, full, 'shape')
    env.eq(np.asarray(r), want, 'density')


@scenario
def cir_default_values(env):
    t, x = env.real('t', pos=True), env.real('x', pos=True)
    w = {k: env.const(1)[()] for k in ('x0', 'theta', 'k', 'xi')}
    env.eq(np.asarray(sdepy.cir_pdf(t, x))[()],
           np.asarray(sdepy.cir_pdf(t, x, **w))[()], 'density')
