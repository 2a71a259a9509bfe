import numpy as np
from sdepy.infrastructure import (true_poisson_source, true_cpoisson_source,
                                  poisson_source)
from symx.runner import scenario
from .doubles import Jumps

BOUNDS = ('every sequence of 3 scalar queries (thorough: 4 for counts) at '
          'arbitrary real times in any order on both sides of the initial '
          'time, coincident or apart by more than 1e-9 relative; 0-2 jumps '
          'per generated interval; 1-2 paths or components; any real jump '
          'sizes, zero and cancelling ones included; any intensity')
ASSUMPTIONS = ['the generator delivers independent Poisson and binomial '
               'counts, the jump distribution independent sizes',
               'distinct query times differ by more than 1e-9 relative']


def queries(env, n, t0):
    ts = [env.real('q%d' % i) for i in range(n)]
    env.separated(ts + [t0])
    return ts


def side(env, t0, ts, first):
    env.assume(ts[0] > t0 if first == 'right' else ts[0] < t0 if
               first == 'left' else ts[0] == t0)


def one_count(env, src, log, known, s, lam):
    """ask for the value at s, knowing [(time, counts)] in time order"""
    n0 = len(log)
    v = src(s)
    new = log[n0:]
    for u, x in known:
        if bool(u == s):
            env.eq(v, x, 'asking again')
            return v
    k = sum(1 for u, x in known if bool(u < s))
    if k == 0 or k == len(known):
        t, x = known[0] if k == 0 else known[-1]
        env.true(len(new) == 1 and new[0][0] == 'P', 'a Poisson draw')
        _, a, par = new[0]
        h = abs(s - t)
        m = t + (s - t) / 2
        env.eq(par, np.broadcast_to(np.asarray(h * lam(m)), par.shape),
               'mean count')
        env.eq(v, x + a if k else x - a, 'count outside')
    else:
        (t1, x1), (t2, x2) = known[k - 1], known[k]
        p = (s - t1) / (t2 - t1)
        n = x2 - x1
        if not np.any(n):
            env.eq(v, x1, 'no jumps to share')
        else:
            env.true(len(new) == 1 and new[0][0] == 'B', 'a binomial draw')
            _, a, (bn, bp) = new[0]
            env.eq(bn, n, 'jumps shared')
            for i in np.ndindex(bp.shape):
                env.eq(bp[i], p, 'in proportion to time')
            env.eq(v, x1 + a, 'count inside')
        for i in np.ndindex(np.shape(v)):
            env.true(int(x1[i]) <= int(v[i]) <= int(x2[i]),
                     'counts never decrease')
    known.insert(k, (s, v))
    return v


@scenario({'first': ['right', 'left', 'at'], 'then': range(4)})
def counts(env, first, then):
    var = first != 'left'
    n = 4 if env.thorough else 3
    t0 = env.real('t0')
    ts = queries(env, n, t0)
    side(env, t0, ts, first)
    env.assume(ts[1] < ts[0] if then % 2 else ts[1] >= ts[0])
    env.assume(ts[2] < ts[0] if then // 2 else ts[2] >= ts[0])
    f = env.func('f', 'pos')
    lam0 = env.real('lam', nonneg=True)
    lam = (lambda s: f(s)) if var else (lambda s: lam0)
    z0 = env.choice('z0', [0, -1])
    env.pois_max = 1 if env.thorough and n == 4 else 2
    r = env.rng()
    src = true_poisson_source(paths=1, rng=r, lam=lam if var else lam0,
                              t0=t0, z0=z0)
    known = [(t0, np.array([z0]))]
    out = [one_count(env, src, r.log, known, s, lam) for s in ts]
    n0 = len(r.log)
    for s, v in zip(ts, out):
        env.eq(src(s), v, 'earlier answers do not change')
    env.eq(src(t0), [z0], 'initial value')
    for i in range(n):
        for j in range(n):
            if j == (i + 1) % n:
                env.eq(src(ts[i], ts[j] - ts[i]), out[j] - out[i],
                       'increments add up')
            if bool(ts[i] < ts[j]):
                env.true(int(out[i][0]) <= int(out[j][0]),
                         'counts never decrease')
    env.eq(src(np.array(ts)), np.stack(out), 'array of times')
    env.true(len(r.log) == n0, 'no new draws')


@scenario({'sh': [((), 2), ((2,), 1)], 'per': [False, True],
           'then': [0, 1]})
def counts_shapes(env, sh, per, then):
    vs, paths = sh
    t0 = env.real('t0')
    ts = queries(env, 2, t0)
    env.assume(ts[1] < ts[0] if then else ts[1] >= ts[0])
    lam = env.arr('lam', vs + (paths,), nonneg=True) if per else \
        env.real('lam', nonneg=True)
    r = env.rng()
    src = true_poisson_source(paths=paths, vshape=vs, rng=r, lam=lam, t0=t0)
    known = [(t0, np.zeros(vs + (paths,), int))]
    out = [one_count(env, src, r.log, known, s, lambda t: lam) for s in ts]
    for s, v in zip(ts, out):
        env.shape(v, vs + (paths,), 'shape')
        env.eq(src(s), v, 'earlier answers do not change')


def compound(env, ts, t0, z0, vs, paths, mk, lam=None):
    """joint behaviour of values at ts (with repetitions)"""
    keep = []
    sh = vs + (paths,)

    def build(r):
        src, dn = mk(r)
        x = [src(t) for t in ts]
        y = [src(t) for t in ts]
        d = [src(ts[i], ts[j] - ts[i]) for i in range(len(ts))
             for j in range(len(ts))]
        keep[:] = [y, d, src(t0), [np.asarray(dn(t)) for t in ts],
                   np.asarray(dn(t0)), x]
        return np.stack(x)
    L = env.lin(build, 'Y')
    y, d, x0, n, n0, x = keep
    env.eq(np.stack(y), np.stack(x), 'earlier answers do not change')
    env.eq(x0, np.broadcast_to(z0, sh), 'initial value')
    for i in range(len(ts)):
        for j in range(len(ts)):
            env.eq(d[i * len(ts) + j], x[j] - x[i], 'increments add up')
    env.shape(L.mean, (len(ts),) + sh, 'shape')
    env.eq(L.mean, np.broadcast_to(z0, L.shape), 'moves by jumps only')
    pts = [(t0, n0, {q: {} for q in np.ndindex(*sh)})] + [
        (ts[k], n[k], {q: L.row((k,) + q) for q in np.ndindex(*sh)})
        for k in range(len(ts))]
    for i in range(len(pts)):
        for j in range(i):
            (s, ns, rs), (t, nt, rt) = pts[i], pts[j]
            if bool(s < t):
                s, ns, rs, t, nt, rt = t, nt, rt, s, ns, rs
            seen = set()
            for q in np.ndindex(*sh):
                m = int(ns[q]) - int(nt[q])
                env.true(m >= 0, 'counts never decrease')
                diff = {}
                for k in set(rs[q]) | set(rt[q]):
                    c = rs[q].get(k, 0) - rt[q].get(k, 0)
                    if bool(c != 0):
                        diff[k] = c
                env.true(len(diff) == m,
                         'as many jumps as the counts record')
                for c in diff.values():
                    env.eq(c, 1, 'sum of jumps')
                env.true(not seen & set(diff), 'jumps not shared')
                seen |= set(diff)
    return L


@scenario({'first': ['right', 'left', 'at'], 'zero': [False, True]})
def compound_values(env, first, zero):
    t0, z0 = env.real('t0'), env.real('z0')
    ts = queries(env, 3, t0)
    side(env, t0, ts, first)
    env.pois_max = 2 if zero else 1
    lam = env.real('lam', nonneg=True)
    env.assume(ts[2] > ts[1] if zero else ts[2] <= ts[1])

    def mk(r):
        dn = true_poisson_source(paths=1, rng=r, lam=lam, t0=t0)
        s = true_cpoisson_source(paths=1, rng=r, dn=dn, t0=t0, z0=z0,
                                 y=Jumps(), dtype=env.dtype)
        return s, s.dn
    compound(env, ts, t0, z0, (), 1, mk)


@scenario({'sh': [((), 2), ((2,), 1)], 'side': [1, -1],
           'order': [(0, 1), (1, 0)]})
def compound_entries(env, sh, side, order):
    """several entries with different counts"""
    vs, paths = sh
    t0 = env.real('t0')
    d = [env.real('d%d' % i, pos=True) for i in range(2)]
    u = [t0 + side * d[0], t0 + side * (d[0] + d[1])]
    env.separated([t0] + u)
    ts = [u[k] for k in order]
    env.pois_max = 2
    lam = env.real('lam', nonneg=True)

    def mk(r):
        dn = true_poisson_source(paths=paths, vshape=vs, rng=r, lam=lam,
                                 t0=t0)
        s = true_cpoisson_source(paths=paths, vshape=vs, rng=r, dn=dn,
                                 t0=t0, y=Jumps(), dtype=env.dtype)
        return s, s.dn
    compound(env, ts, t0, 0, vs, paths, mk)


@scenario({'side': [1, -1]})
def refined_twice(env, side):
    """an interval with several jumps refined twice"""
    t0 = env.real('t0')
    d = [env.real('d%d' % i, pos=True) for i in range(3)]
    u = [t0 + side * d[0], t0 + side * (d[0] + d[1]),
         t0 + side * (d[0] + d[1] + d[2])]
    env.separated([t0] + u)
    env.pois_max = 3
    k = env.choice('order', [0, 1])
    ts = [u[2], u[k], u[1 - k]]
    lam = env.real('lam', nonneg=True)

    def mk(r):
        dn = true_poisson_source(paths=1, rng=r, lam=lam, t0=t0)
        s = true_cpoisson_source(paths=1, rng=r, dn=dn, t0=t0, y=Jumps(),
                                 dtype=env.dtype)
        return s, s.dn
    compound(env, ts, t0, 0, (), 1, mk)


@scenario({'how': ['default', 'instance', 'asked']})
def given_counts(env, how):
    """the underlying counts may be a given path, already known in part"""
    t0 = env.real('t0')
    ts = queries(env, 2, t0)
    env.pois_max = 1
    lam = env.real('lam', nonneg=True)

    def mk(r):
        if how == 'default':
            s = true_cpoisson_source(paths=1, rng=r, lam=lam, t0=t0,
                                     y=Jumps(), dtype=env.dtype)
            return s, s.dn
        dn = true_poisson_source(paths=1, rng=r, lam=lam, t0=t0)
        if how == 'asked':
            dn(ts[1])
        s = true_cpoisson_source(paths=1, rng=r, dn=dn, t0=t0, y=Jumps(),
                                 dtype=env.dtype)
        env.true(s.dn is dn, 'given counts')
        return s, dn
    compound(env, ts, t0, 0, (), 1, mk)


@scenario
def jump_law(env):
    """sizes drawn from the distribution at the midpoint of the interval"""
    at0 = env.choice('at0', [True, False])
    t0, h = 0. if at0 else env.real('t0'), env.real('h')
    f, g = env.func('f', 'pos'), env.func('g')
    env.pois_max = 2
    env.separated([t0, t0 + h])
    L = env.lin(lambda r: true_cpoisson_source(
        paths=1, rng=r, lam=lambda s: f(s), t0=t0, dtype=env.dtype,
        y=lambda s: Jumps(g(s)))(t0 + h), 'Y')
    for k in L.row((0,)):
        env.eq(L.params[k], g(t0 + h / 2), 'distribution at the midpoint')
    P = [p for k, a, p in L.log if k == 'P']
    for p in P if at0 else []:
        env.eq(p.reshape(-1)[0], abs(h) * f(t0 + h / 2), 'mean count')


@scenario
def attributes(env):
    q = env.rng()
    y = Jumps()
    s = true_cpoisson_source(paths=3, vshape=2, rng=q, lam=3., y=y)
    env.true(s.rng is q and s.dn.rng is q, 'generator')
    env.true(s.paths == 3 and s.dn.paths == 3, 'paths')
    env.true(tuple(s.vshape) == (2,) and tuple(s.dn.vshape) == (2,),
             'vshape')
    env.true(s.y is y, 'distribution')
    env.true(isinstance(s.dn, true_poisson_source), 'counts with memory')
    s = true_poisson_source(paths=3, vshape=2, rng=q, lam=3.)
    env.true(s.rng is q and s.paths == 3, 'generator')
    env.eq(s.lam, 3, 'intensity')
    l2 = env.arr('l', 2, pos=True)
    env.raises(ValueError, lambda: true_poisson_source(paths=3, lam=l2),
               'shape')
