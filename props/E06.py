import numpy as np
import sdepy
from symx.runner import scenario
from .exact import affine, zero, at

BOUNDS = ('all strikes, spots > 0, maturities and volatilities >= 0, rates '
          'and yields (scalars); arrays of up to 2 entries per axis, '
          'broadcasting')
ASSUMPTIONS = ['scipy.stats.norm is replaced by the normal distribution '
               'function']

POS, ANY = dict(pos=True), {}
PAR = dict(x0=POS, r=ANY, q=ANY, sigma=POS)
FUNS = dict(call=sdepy.bscall, put=sdepy.bsput,
            call_delta=sdepy.bscall_delta, put_delta=sdepy.bsput_delta)


def params(env):
    P = {k: env.real(k, **kw) for k, kw in PAR.items()}
    return env.real('k', pos=True), env.real('t', pos=True), P


def bs(f, P, **kw):
    g = at(FUNS[f], P, **kw)
    return lambda *a: np.asarray(g(*a)).reshape(-1)[0]


def d12(k, t, **kw):
    return [np.asarray(d).reshape(-1)[0] for d in sdepy.bsd1d2(k, t, **kw)]


@scenario
def standardized_moneyness(env):
    k, t, P = params(env)
    d1, d2 = d12(k, t, **P)
    s = P['sigma'] * env.sqrt(t)
    env.eq(d1 - d2, s, 'd1 - d2')
    f = P['x0'] * env.exp((P['r'] - P['q']) * t)
    env.eq((d1 + d2) * s / 2, env.log(f / k), 'forward moneyness')


@scenario
def parity(env):
    k, t, P = params(env)
    c, p = bs('call', P)(k, t), bs('put', P)(k, t)
    env.eq(c - p, P['x0'] * env.exp(-P['q'] * t) - k * env.exp(-P['r'] * t),
           'call minus put')
    c, p = bs('call_delta', P)(k, t), bs('put_delta', P)(k, t)
    env.eq(c - p, env.exp(-P['q'] * t), 'call delta minus put delta')


@scenario({'f': ['call', 'put']})
def deltas(env, f):
    k, t, P = params(env)
    d = env.d(lambda x: bs(f, P, x0=x)(k, t), [P['x0']])
    env.eq(d, bs(f + '_delta', P)(k, t), 'delta')


@scenario({'f': ['call', 'put']})
def pricing_equation(env, f):
    """in the time to maturity"""
    k, t, P = params(env)
    x = P['x0']
    g = lambda t, x: bs(f, P, x0=x)(k, t)
    v = g(t, x)
    vt, vx, vxx = (env.d(g, [t, x], *i) for i in ((0,), (1,), (1, 1)))
    # variance of the simulated lognormal process, at the spot
    c2 = affine(env, 'lognorm', dict(mu=P['r'] - P['q'], sigma=P['sigma']),
                env.real('y', pos=True))[4]
    env.eq(vt, c2 * x * x * vxx / 2 + (P['r'] - P['q']) * x * vx -
           P['r'] * v, 'pricing equation')


@scenario({'case': ['t', 'sigma', 'both'], 'side': ['in', 'out', 'at']})
def payoff(env, case, side):
    """at zero maturity or volatility"""
    k, t, P = params(env)
    if case != 't':
        P['sigma'] = zero(env)
    if case != 'sigma':
        t = zero(env)
    # spot of arbitrary log moneyness m
    m = {'in': env.real('m', pos=True), 'at': zero(env)}.get(side)
    m = -env.real('m', pos=True) if m is None else m
    P['x0'] = k * env.exp((P['q'] - P['r']) * t + m)
    f = P['x0'] * env.exp(-P['q'] * t)
    d = k * env.exp(-P['r'] * t)
    c, p = bs('call', P)(k, t), bs('put', P)(k, t)
    cd, pd = bs('call_delta', P)(k, t), bs('put_delta', P)(k, t)
    itm = side == 'in'
    env.eq(c, f - d if itm else 0, 'call')
    env.eq(p, 0 if itm else d - f, 'put')
    if side != 'at':
        e = env.exp(-P['q'] * t)
        env.eq(cd, e if itm else 0, 'call delta')
        env.eq(pd, 0 if itm else -e, 'put delta')


@scenario({'what': ['call', 'put']})
def bounds(env, what):
    """deltas within the discount factor of the yield"""
    k, t, P = params(env)
    e = env.exp(-P['q'] * t)
    d = bs(what + '_delta', P)(k, t)
    if what == 'put':
        d = -d
    env.le(0, d, 'sign of delta')
    env.le(d, e, 'bound of delta')


SHAPES = [((2,), (), ()), ((), (2,), ()), ((), (), (2,)),
          ((2, 1), (2,), ()), ((2,), (2,), (2,)), ((2, 1), (1, 2), (1, 1)),
          ((), (2,), (2,))]


@scenario({'f': list(FUNS) + ['d1d2'], 'case': SHAPES,
           'one': [(), ('r', 'q'), ('x0', 'sigma')]})
def arrays(env, f, case, one):
    sk, st, sp = case
    k, t = env.arr('k', sk, pos=True), env.arr('t', st, pos=True)
    P = {n: env.arr(n, () if n in one else sp, **kw)
         for n, kw in PAR.items()}
    shape = np.broadcast_shapes(sk, st, *[v.shape for v in P.values()])
    B = {n: np.broadcast_to(v, shape) for n, v in P.items()}
    K, T = np.broadcast_to(k, shape), np.broadcast_to(t, shape)
    fun = FUNS.get(f, sdepy.bsd1d2)
    R = fun(k, t, **P)
    R = R if isinstance(R, tuple) else (R,)
    for i in np.ndindex(*shape):
        W = fun(K[i], T[i], **{n: v[i] for n, v in B.items()})
        W = W if isinstance(W, tuple) else (W,)
        for r, w in zip(R, W):
            env.shape(r, shape, 'shape')
            env.eq(np.asarray(r)[i], np.asarray(w)[()], 'elementwise')


@scenario({'f': list(FUNS)})
def mixed_maturities(env, f):
    """null and positive maturities in one call"""
    k, t, P = params(env)
    tt = env.obj(2)
    tt[0], tt[1] = zero(env), t
    r = np.asarray(FUNS[f](k, tt, **P))
    env.eq(r[0], bs(f, P)(k, zero(env)), 'null maturity')
    env.eq(r[1], bs(f, P)(k, t), 'positive maturity')


@scenario({'f': list(FUNS)})
def default_values(env, f):
    k, t, _ = params(env)
    P = {n: env.const(int(n in ('x0', 'sigma')))[()] for n in PAR}
    env.eq(FUNS[f](k, t), bs(f, P)(k, t), f)


@scenario({'f': list(FUNS), 'lists': ['k', 't', 'kt', 'x0', 'r', 'q',
                                      'sigma', 'kx0', 'all']})
def list_inputs(env, f, lists):
    """array-like inputs may be lists or nested lists"""
    k, t, P = params(env)
    k2, t2 = env.real('k2', pos=True), env.real('t2', pos=True)
    Q = dict(P, k=k, t=t)
    for n, z in Q.items():
        if lists == 'all' or n in (('k', 't') if lists == 'kt' else
                                   ('k', 'x0') if lists == 'kx0' else
                                   (lists,)):
            Q[n] = [z, k2 if n == 'k' else t2 if n == 't' else z]
    a = FUNS[f](**Q)
    b = FUNS[f](**{n: np.asarray(z) for n, z in Q.items()})
    env.true(np.shape(a) == (2,), 'shape')
    env.eq(a, b, 'as with arrays')
    c = FUNS[f](k, t, **P)
    env.eq(a[0], np.asarray(c).reshape(-1)[0], 'first entry')
