import numpy as np
import sdepy
from sdepy.infrastructure import (cpoisson_source, poisson_source, process,
                                  norm_rv)
from symx.runner import scenario
from .doubles import Jumps

BOUNDS = ('t, dt any reals of either sign or zero, as scalars or arrays of '
          'up to 2; value shapes (), (2,), (1,2); 1-2 paths; 0-2 jumps per '
          'entry and step (0-3 for a single entry); any real jump sizes')
ASSUMPTIONS = ['the generator delivers independent Poisson counts and the '
               'jump distribution independent jump sizes']

TS = [((), ()), ((2,), ()), ((), (2,))]


def flat(y_value):
    return [np.asarray(y).reshape(-1) for y in y_value]


def run(env, tsh, vs, paths, t, dt, lam, lamval, y, ypar, **args):
    """one call of the source; all counts concrete on each path"""
    keep = []

    def build(r):
        s = cpoisson_source(paths=paths, vshape=vs, rng=r, lam=lam, y=y,
                            **args)
        dz = s(t, dt)
        del keep[:]
        keep.append((s, dz))
        return np.concatenate([np.asarray(dz).reshape(-1)]
                              + flat(s.y_value))
    L = env.lin(build, 'Y')
    s, dz = keep[0]
    env.shape(dz, tsh + vs + (paths,), 'shape')
    env.eq(L.mean, 0, 'no jumps, no movement')
    draws = [z for k, a, _ in L.log if k == 'P' for z in a.reshape(-1)]
    lams = [z for k, a, p in L.log if k == 'P' for z in p.reshape(-1)]
    idx = list(np.ndindex(*(tsh + vs + (paths,))))
    env.true(len(draws) == len(idx), 'one count per entry')
    tb, db = np.broadcast_to(t, tsh), np.broadcast_to(dt, tsh)
    dn = np.asarray(s.dn_value)
    env.shape(dn, tsh + vs + (paths,), 'reported counts')
    used = set()
    for q, i in enumerate(idx):
        h = db[i[:len(tsh)]]
        sign = 1 if bool(h > 0) else -1 if bool(h < 0) else 0
        m = tb[i[:len(tsh)]] + h / 2
        env.eq(lams[q], abs(h) * lamval(m), 'mean count')
        n = int(draws[q])
        env.eq(dn[i], sign * n, 'reported count')
        row = L.coef[q]
        env.true(len(row) == (n if sign else 0), 'as many sizes as jumps')
        env.true(not used & set(row), 'jump sizes are not shared')
        used |= set(row)
        for k, c in row.items():
            env.eq(c, sign, 'signed sum')
            if ypar is not None:
                env.eq(L.params[k], ypar(m), 'distribution at the midpoint')
    # reported jump sizes
    rep = [L.coef[k] for k in range(len(idx), len(L.coef))]
    env.true(all(len(r) == 1 for r in rep), 'reported sizes')
    for r in rep:
        for c in r.values():
            env.eq(c, 1, 'reported sizes')
    ids = [min(r) for r in rep]
    env.true(set(ids) == used and len(ids) == len(used),
             'reported sizes are those used')


@scenario({'ts': TS, 'sh': [((), 1), ((), 2), ((2,), 1)],
           'per': [False, True]},
          thorough={'sh': [((), 1), ((), 2), ((2,), 1), ((1, 2), 1)]})
def increments(env, ts, sh, per):
    vs, paths = sh
    env.pois_max = 2 if len(ts[0]) + len(ts[1]) == 0 else 1
    if env.thorough:
        env.pois_max = 2
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    if ts == ((), ()):
        t, dt = t[()], dt[()]
    if per:
        f, g = env.func('f', 'pos'), env.func('g')
        run(env, tsh, vs, paths, t, dt, lambda s: f(s), f,
            lambda s: Jumps(g(s)), g)
    else:
        lam, a = env.real('lam', nonneg=True), env.real('a')
        run(env, tsh, vs, paths, t, dt, lam, lambda s: lam,
            Jumps(a), lambda s: a)


@scenario
def three_jumps(env):
    env.pois_max = 3
    lam = env.real('lam', nonneg=True)
    run(env, (), (), 1, env.real('t'), env.real('dt'), lam,
        lambda s: lam, Jumps(), None)


@scenario
def mixed_counts(env):
    """several entries having different counts"""
    env.pois_max = 2
    lam = env.real('lam', nonneg=True)
    run(env, (), (3,) if env.thorough else (1,), 1 if env.thorough else 3,
        env.real('t'), env.real('dt'), lam, lambda s: lam, Jumps(), None)


@scenario({'how': ['instance', 'class']})
def given_counts(env, how):
    """the underlying count source may be given"""
    lam = env.real('lam', nonneg=True)
    t, dt = env.real('t'), env.real('dt')
    keep = []

    def build(r):
        if how == 'instance':
            keep.append(poisson_source(paths=2, rng=r, lam=lam))
            s = cpoisson_source(paths=2, rng=r, dn=keep[-1], y=Jumps())
            env.true(s.dn is keep[-1], 'given source')
            env.eq(s.lam, lam, 'intensity')
        else:
            s = cpoisson_source(paths=2, rng=r, dn=poisson_source, lam=lam,
                                y=Jumps())
            env.true(isinstance(s.dn, poisson_source), 'given class')
        z = s(t, dt)
        keep[:] = [s.dn_value]
        return z
    L = env.lin(build, 'Y')
    lams = [z for k, a, p in L.log if k == 'P' for z in p.reshape(-1)]
    env.eq(np.array(lams), abs(dt) * lam, 'intensity')
    dn = np.asarray(keep[0])
    for p in range(2):
        env.true(len(L.row((p,))) == abs(int(dn[p])), 'number of jumps')
        for c in L.row((p,)).values():
            env.eq(c, 1 if bool(dt > 0) else -1, 'sign')


class Counts:
    """a source of given counts"""
    dtype = int

    def __init__(self, dn):
        self.dn = np.array(dn)
        self.vshape, self.paths = self.dn.shape[:-1], self.dn.shape[-1]

    def __call__(self, t, dt):
        return self.dn + 0 * np.zeros(np.shape(t) + self.dn.shape, int)


@scenario({'dn': [(200, 100), (130, 3), (0, 257), ((5, 0), (70, 40)),
                  ((0, 0), (0, 0)), ((0, 0), (0, 1))], 'sign': [1, -1]})
def many_jumps(env, dn, sign):
    """large counts"""
    keep = []

    def build(r):
        s = cpoisson_source(paths=2, vshape=np.shape(dn)[:-1], rng=r,
                            dn=Counts(sign * np.array(dn)), y=Jumps())
        z = s(env.real('t'), sign * env.real('dt', pos=True))
        keep[:] = [s]
        return np.concatenate([z.reshape(-1)] + flat(s.y_value))
    L = env.lin(build, 'Y')
    n = sign * np.array(dn).reshape(-1)
    env.true(bool(np.all(np.asarray(keep[0].dn_value).reshape(-1) == n)),
             'counts')
    used = set()
    for k, m in enumerate(n):
        row = L.coef[k]
        env.true(len(row) == abs(m), 'as many sizes as jumps')
        env.true(not used & set(row), 'jump sizes are not shared')
        used |= set(row)
        for c in row.values():
            env.true(bool(c == np.sign(m)), 'signed sum')
    rep = [min(r) for r in L.coef[len(n):] if len(r) == 1]
    env.true(set(rep) == used and len(rep) == len(used) ==
             len(L.coef) - len(n), 'reported sizes are those used')


@scenario({'kind': ['default', 'norm', 'norm_t']})
def presets(env, kind):
    """jump distributions of the library"""
    t, dt = env.real('t'), env.real('dt', pos=True)
    f = env.func('f')
    a, b = env.real('a'), env.real('b', pos=True)
    y = dict(default=None, norm=norm_rv(a=a, b=b) if kind == 'norm' else 0,
             norm_t=norm_rv(a=lambda s: f(s), b=b))[kind]
    K = dict(default='U', norm='N', norm_t='N')[kind]
    L = env.lin(lambda r: cpoisson_source(paths=1, rng=r, lam=1., y=y)(t, dt),
                K)
    n = [int(z) for k, x, _ in L.log if k == 'P' for z in x.reshape(-1)][0]
    mean = dict(default=0, norm=a, norm_t=f(t + dt / 2))[kind]
    env.eq(L.mean, env.array([n * mean]), 'mean')
    env.true(len(L.row((0,))) == n, 'jumps')
    for c in L.row((0,)).values():
        env.eq(c, 1 if kind == 'default' else b, 'scale')


@scenario
def two_calls(env):
    """the reported jumps are those of the last call; draws are fresh"""
    env.pois_max = 1
    lam = env.real('lam', nonneg=True)
    t, d1, d2 = env.real('t'), env.real('d1', pos=True), env.real('d2')
    keep = []

    def build(r):
        s = cpoisson_source(paths=1, vshape=(2,), rng=r, lam=lam, y=Jumps())
        a = s(t, d1)
        b = s(t + d1, d2)
        del keep[:]
        keep.append(np.asarray(s.dn_value))
        return np.concatenate([a.reshape(-1), b.reshape(-1)]
                              + flat(s.y_value))
    L = env.lin(build, 'Y')
    used = [set(L.coef[k]) for k in range(4)]
    for i in range(4):
        for j in range(i):
            env.true(not used[i] & used[j], 'fresh jumps')
    rep = set()
    for k in range(4, len(L.coef)):
        rep |= set(L.coef[k])
    env.true(rep == used[2] | used[3], 'jumps of the last call')
    draws = [z for k, a, _ in L.log if k == 'P' for z in a.reshape(-1)]
    sign = 1 if bool(d2 > 0) else -1 if bool(d2 < 0) else 0
    env.eq(keep[0].reshape(-1), env.array(
        [sign * int(draws[2]), sign * int(draws[3])]), 'counts of the last')


@scenario
def attributes(env):
    q = env.rng()
    y = Jumps()
    s = cpoisson_source(paths=3, vshape=2, rng=q, lam=3., y=y)
    env.true(s.rng is q and s.dn.rng is q, 'generator')
    env.true(s.paths == 3 and s.dn.paths == 3, 'paths')
    env.true(tuple(s.vshape) == (2,) and tuple(s.dn.vshape) == (2,), 'vshape')
    env.true(s.y is y, 'distribution')
    env.eq(s.lam, 3, 'intensity')
    for bad in (poisson_source(paths=2, vshape=(2,)),
                poisson_source(paths=3, vshape=(3,)), 1.):
        env.raises(ValueError, lambda: cpoisson_source(
            paths=3, vshape=(2,), dn=bad), 'mismatched source')
