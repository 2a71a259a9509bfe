import numpy as np
from sdepy.infrastructure import (norm_rv, uniform_rv, exp_rv, double_exp_rv,
                                  rvmap)
from symx.runner import scenario

BOUNDS = ('all admissible real parameters (scale > 0; for the double '
          'exponential law, 0 <= pa <= 1, pa > 0 when the upward mean is not '
          'below one), scalars or arrays of 2; sample shapes (), (2,), (2,2); '
          'all base draws')
ASSUMPTIONS = ['the generator delivers independent standard normal, uniform '
               'and exponential draws', 'scipy.stats norm, uniform, expon are '
               'the location-scale families they claim to be']


def val(x):
    """result of a method as an array"""
    return np.asarray(x)


def params(env, sh, **kinds):
    out = []
    for k, kw in kinds.items():
        x = env.arr(k, sh, **kw)
        out.append(x[()] if sh == () else x)
    return out


SIZES = [((), 2), ((), (2, 1)), ((2,), (2,)), ((2,), (2, 2)), ((), ())]


@scenario({'sz': SIZES, 'vary': [False, True]})
def normal(env, sz, vary):
    sh, size = sz
    a, b = params(env, sh, a={}, b=dict(pos=True))
    rv = norm_rv(a=lambda t: t * a, b=lambda t: b)(2.) if vary else \
        norm_rv(a=a, b=b)
    m = 2 * a if vary else a
    L = env.lin(lambda r: rv.rvs(size=size, random_state=r), 'N')
    shape = (size,) if isinstance(size, int) else size
    env.eq(L.mean, np.broadcast_to(m, shape), 'mean of the samples')
    B = np.broadcast_to(b, shape)
    law(env, L, B, None)
    env.eq(val(rv.mean()), m, 'mean')
    env.eq(val(rv.var()), b * b, 'variance')
    env.eq(val(rv.std()), b, 'standard deviation')
    env.eq(val(rv.exp_mean()), env.exp(m + b * b / 2), 'exponential mean')


def law(env, L, scale, sign):
    """one own draw per sample, with the given coefficient"""
    seen = set()
    for i in np.ndindex(*L.shape):
        r = L.row(i)
        env.true(len(r) == 1 and not seen & set(r), 'independent samples')
        seen |= set(r)
        for c in r.values():
            if sign is None:
                env.eq(c * c, scale[i] * scale[i], 'scale')
            else:
                env.eq(c, scale[i], 'scale')


@scenario({'sz': SIZES, 'vary': [False, True]})
def uniform(env, sz, vary):
    sh, size = sz
    a, w = params(env, sh, a={}, w=dict(pos=True))
    rv = uniform_rv(a=lambda t: t * a, b=lambda t: t * a + w)(2.) if vary \
        else uniform_rv(a=a, b=a + w)
    m = 2 * a if vary else a
    L = env.lin(lambda r: rv.rvs(size=size, random_state=r), 'U')
    shape = (size,) if isinstance(size, int) else size
    env.eq(L.mean, np.broadcast_to(m, shape), 'lower end')
    law(env, L, np.broadcast_to(w, shape), 1)
    env.eq(val(rv.mean()), m + w / 2, 'mean')
    env.eq(val(rv.var()), w * w / 12, 'variance')
    env.eq(val(rv.std() ** 2), w * w / 12, 'standard deviation')
    env.eq(val(rv.exp_mean()), (env.exp(m + w) - env.exp(m)) / w,
           'exponential mean')


def expmean(env, x, a, pre, post, label):
    """pre/(1 - a) + post, infinite if a >= 1"""
    x, a = val(x), np.asarray(a)
    env.shape(x, a.shape, label)
    for i in np.ndindex(*a.shape):
        if bool(a[i] < 1):
            p, q = np.broadcast_to(pre, a.shape)[i], np.broadcast_to(
                post, a.shape)[i]
            env.eq(x[i], p / (1 - a[i]) + q, label)
        else:
            env.eq(x[i], np.inf, label + ' diverges')


@scenario({'sz': SIZES, 'vary': [False, True]})
def exponential(env, sz, vary):
    sh, size = sz
    a, = params(env, sh, a={})
    for x in np.asarray(a).reshape(-1):
        env.assume(x != 0)
    rv = exp_rv(a=lambda t: 2 * a)(2.) if vary else exp_rv(a=a)
    m = 2 * a if vary else a
    L = env.lin(lambda r: rv.rvs(size=size, random_state=r), 'X')
    shape = (size,) if isinstance(size, int) else size
    env.eq(L.mean, np.zeros(shape), 'origin')
    law(env, L, np.broadcast_to(m, shape), 1)
    env.eq(val(rv.mean()), m, 'mean')
    env.eq(val(rv.var()), m * m, 'variance')
    env.eq(val(rv.std()), env.abs(m), 'standard deviation')
    expmean(env, rv.exp_mean(), m, 1, 0, 'exponential mean')


@scenario({'sz': SIZES[:3], 'vary': [False, True]})
def double_exponential(env, sz, vary):
    sh, size = sz
    a, b, pa = params(env, sh, a=dict(pos=True), b=dict(pos=True),
                      pa=dict(lo=0, hi=1))
    rv = double_exp_rv(a=lambda t: 2 * a, b=lambda t: b,
                       pa=lambda t: pa)(2.) if vary else \
        double_exp_rv(a=a, b=b, pa=pa)
    m = 2 * a if vary else a
    L = env.lin(lambda r: rv.rvs(size=size, random_state=r), 'X')
    shape = (size,) if isinstance(size, int) else size
    env.eq(L.mean, np.zeros(shape), 'origin')
    A, B, PA = (np.broadcast_to(x, shape) for x in (m, b, pa))
    u = [z for k, x, _ in L.log if k == 'U' for z in x.reshape(-1)]
    env.true(len(u) == int(np.prod(shape, dtype=int)), 'one branch each')
    seen = set()
    for k, i in enumerate(np.ndindex(*shape)):
        r = L.row(i)
        env.true(len(r) == 1 and not seen & set(r), 'independent samples')
        seen |= set(r)
        for c in r.values():
            up = bool(c > 0)
            env.eq(c, A[i] if up else -B[i], 'scale of the branch')
            # upward on a set of probability pa (ends may go either way)
            if up:
                env.true(bool(u[k] <= PA[i]) or bool(u[k] >= 1 - PA[i]),
                         'upward with the stated probability')
            else:
                env.true(bool(u[k] >= PA[i]) or bool(u[k] <= 1 - PA[i]),
                         'downward with the stated probability')
    pb = 1 - pa
    mean = pa * m - pb * b
    env.eq(val(rv.mean()), mean, 'mean')
    var = pa * 2 * m * m + pb * 2 * b * b - mean * mean
    env.eq(val(rv.var()), var, 'variance')
    env.eq(val(rv.std() ** 2), var, 'standard deviation')
    for x, p in zip(np.asarray(m).reshape(-1), np.asarray(pa).reshape(-1)):
        if bool(x >= 1):
            env.assume(p > 0)
    expmean(env, rv.exp_mean(), m, pa, pb / (1 + b), 'exponential mean')


@scenario({'which': range(8)})
def domain(env, which):
    z = env.real('z', nonneg=True)
    p = env.real('p', pos=True)
    f = [lambda: exp_rv(a=0), lambda: exp_rv(a=env.array([p, 0.])),
         lambda: double_exp_rv(a=-z), lambda: double_exp_rv(b=-z),
         lambda: double_exp_rv(pa=1 + p), lambda: double_exp_rv(pa=-p),
         lambda: double_exp_rv(a=env.array([p, -z])),
         lambda: exp_rv(a=lambda t: 0.)(1.)][which]
    env.raises(ValueError, f, 'outside the domain')


class Draws:
    def __init__(self, par=0):
        self.par = par

    def rvs(self, size, random_state=None):
        return random_state.user('Y', size, self.par)


def vec(f):
    def g(*args):
        args = np.broadcast_arrays(*args)
        out = np.empty(args[0].shape, dtype=args[-1].dtype)
        for i in np.ndindex(*out.shape):
            out[i] = f(*[a[i] for a in args])
        return out
    return g


@scenario({'size': [2, (2, 2)], 'f_t': [False, True], 'y_t': [False, True],
           'name': ['t', 's']})
def mapped(env, size, f_t, y_t, name):
    g = vec(env.func('g'))
    h = env.func('h')
    t = env.real('t')
    if not f_t:
        f = lambda y: g(y)
    elif name == 't':
        f = lambda t, y: g(t, y)
    else:
        f = lambda s, y: g(s, y)
    y = (lambda t: Draws(h(t))) if y_t else Draws(3.)
    rv = rvmap(f, y)
    if f_t or y_t:
        rv = rv(t)
    r = env.rng()
    x = rv.rvs(size, random_state=r)
    env.true(len(r.log) == 1, 'one sample')
    _, a, par = r.log[0]
    env.eq(np.asarray(par), h(t) if y_t else 3, 'law at the time requested')
    env.eq(x, g(t, a) if f_t else g(a), 'mapped sample')


@scenario
def mapped_preset(env):
    a, b = env.real('a'), env.real('b', pos=True)
    t = env.real('t')
    rv = rvmap(lambda t, y: t * y + 1, norm_rv(a=a, b=lambda s: b * s * s))
    L = env.lin(lambda r: rv(t).rvs(size=2, random_state=r), 'N')
    env.eq(L.mean, t * a + 1, 'mean')
    for i in range(2):
        for c in L.row((i,)).values():
            env.eq(c, t * b * t * t, 'scale')
