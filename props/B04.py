import numpy as np
import sdepy
from sdepy.infrastructure import (
    odd_wiener_source, even_poisson_source, even_cpoisson_source,
    wiener_source, poisson_source, cpoisson_source, norm_rv, double_exp_rv)
from symx.runner import scenario
from .doubles import Jumps

BOUNDS = ('t, dt any reals (scalars or arrays of 2); 2 or 4 paths; value '
          'shapes (), (1,), (2,), (2,2); correlations and intensities '
          'symbolic, constant or time dependent; 0-1 jumps per entry')
ASSUMPTIONS = ['the plain sources draw through the generator they are given']

KINDS = dict(w=(odd_wiener_source, wiener_source, -1),
             n=(even_poisson_source, poisson_source, 1),
             j=(even_cpoisson_source, cpoisson_source, 1))


def args(env, kind, vs, form):
    f = env.func('f', 'pos')
    lam = (lambda s: f(s)) if form == 'time' else env.real('lam', pos=True)
    if kind == 'w':
        if form == 'plain' or not vs or vs[-1] % 2:
            return {}
        r = env.real('r', -1, 1)
        if form == 'time':
            g = env.func('g')
            return dict(rho=lambda s: g(s))
        one = env.const(1)[()]
        return dict(corr=env.array([[one, r], [r, one]]))
    if kind == 'n':
        return dict(lam=lam)
    return dict(lam=lam, y=Jumps())


@scenario({'kind': 'wnj', 'vs': [(), (2,)], 'paths': [2, 4],
           'form': ['plain', 'const', 'time'],
           'ts': [((), ()), ((2,), ()), ((), (2,))]},
          thorough={'vs': [(), (1,), (2,), (2, 2)]})
def halves(env, kind, vs, paths, form, ts):
    cls, base, sign = KINDS[kind]
    env.pois_max = 1
    size = int(np.prod(vs, dtype=int)) * paths // 2 * (
        2 if ts != ((), ()) else 1)
    if kind == 'j' and size > 2:
        if not env.thorough or size > 4:
            return env.true(True, 'outside bounds')
    if kind == 'n' and size > 4:
        return env.true(True, 'outside bounds')
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    if ts == ((), ()):
        t, dt = t[()], dt[()]
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    a = args(env, kind, vs, form)
    if kind != 'j':
        a['dtype'] = env.dtype
    s = cls(paths=paths, vshape=vs, rng=env.rng('z'), **a)
    p = base(paths=paths // 2, vshape=vs, rng=env.rng('z'), **a)
    for _ in range(2 if kind == 'w' else 1):
        x, y = s(t, dt), p(t, dt)
        env.shape(x, tsh + vs + (paths,), 'shape')
        env.eq(x[..., :paths // 2], y, 'first half is a plain source')
        env.eq(x[..., paths // 2:], sign * y, 'second half')
    env.true(s.paths == paths, 'paths')
    env.true(tuple(s.vshape) == vs, 'vshape')


@scenario({'kind': 'wnj'})
def default_types(env, kind):
    """without a data type"""
    cls, base, sign = KINDS[kind]
    t, dt = env.real('t'), env.real('dt')
    a = {} if kind == 'w' else dict(lam=1.5)
    s = cls(paths=2, rng=env.rng('z'), **a)
    p = base(paths=1, rng=env.rng('z'), **a)
    x, y = s(t, dt), p(t, dt)
    env.eq(x[:1], y, 'first half')
    env.eq(x[1:], sign * y, 'second half')
    env.true(s.dtype == p.dtype, 'dtype')
    if kind == 'n':
        c = cpoisson_source(paths=2, rng=env.rng('c'), dn=s, y=Jumps())
        env.shape(c(t, dt), (2,), 'usable as count source')


@scenario({'kind': 'wnj', 'paths': [1, 3, 5]})
def odd_rejected(env, kind, paths):
    env.raises(ValueError, lambda: KINDS[kind][0](paths=paths), 'odd paths')


@scenario({'kind': 'wnj', 'vs': [(), (2,), 3]})
def attributes(env, kind, vs):
    q = env.rng()
    cls = KINDS[kind][0]
    s = cls(paths=4, vshape=vs, rng=q)
    env.true(s.paths == 4, 'paths')
    env.true(tuple(s.vshape) == ((vs,) if isinstance(vs, int) else vs),
             'vshape')
    env.true(s.rng is q, 'generator')
    env.true(cls().paths == 2, 'default paths')
    env.true(cls().rng is sdepy.infrastructure.default_rng,
             'default generator')


@scenario({'y': ['norm', 'kou']})
def preset_jumps(env, y):
    env.pois_max = 2
    b = env.real('b', pos=True)
    rv = norm_rv(b=b) if y == 'norm' else double_exp_rv(a=b, b=b)
    t, dt = env.real('t'), env.real('dt')
    s = even_cpoisson_source(paths=2, rng=env.rng('z'), lam=1., y=rv)
    p = cpoisson_source(paths=1, rng=env.rng('z'), lam=1., y=rv)
    x, v = s(t, dt), p(t, dt)
    env.eq(x[:1], v, 'first half')
    env.eq(x[1:], v, 'second half')
