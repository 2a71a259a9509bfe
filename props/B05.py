import numpy as np
import sdepy
from sdepy.infrastructure import true_wiener_source
from symx.runner import scenario

BOUNDS = ('every sequence of 3 (thorough: 4) scalar queries, or of up to 2 '
          'array or incremental queries, at arbitrary real times in any '
          'order, coincident or apart by more than 1e-9 relative; any '
          'initial time and value; value shapes (), (2,), (2,2), 1-2 paths; '
          'correlation constant or linear in time, arbitrary function of '
          'time for queries moving outward, and for an inner time followed '
          'by outer ones on either side')
ASSUMPTIONS = ['the generator: normal() and multivariate_normal() deliver '
               'independent gaussians with the requested covariance',
               'distinct query times differ by more than 1e-9 relative']


def overlap(env, t0, s, t):
    """length of time both paths share from t0"""
    a, b = s - t0, t - t0
    if bool(a > 0):
        if not bool(b > 0):
            return 0
        return a if bool(a <= b) else b
    if not bool(b < 0):
        return 0
    return -a if bool(a >= b) else -b


def queries(env, n, t0):
    ts = [env.real('q%d' % i) for i in range(n)]
    env.separated(ts + [t0])
    return ts


def joint(env, g, t0, z0, ts, vs, paths, corr):
    """law of stacked values; corr(s, t, a, b): covariance of components"""
    env.shape(g.mean, (len(ts),) + vs + (paths,), 'shape')
    env.eq(g.mean, np.broadcast_to(z0, g.shape), 'mean')
    idx = list(np.ndindex(*g.shape))
    for n, i in enumerate(idx):
        for j in idx[:n + 1]:
            if i[-1] != j[-1] or i[1:-2] != j[1:-2]:
                want = 0
            else:
                want = corr(ts[i[0]], ts[j[0]], i[1:-1][-1:], j[1:-1][-1:])
            env.eq(g.cov(i, j), want, 'covariance')


def plain(env, t0):
    def corr(s, t, a, b):
        return overlap(env, t0, s, t) if a == b else 0
    return corr


@scenario({'first': ['right', 'left', 'at']})
def one_path(env, first):
    """joint law of scalar queries and consistency of repeated ones"""
    t0, z0 = env.real('t0'), env.real('z0')
    n = 4 if env.thorough else 3
    ts = queries(env, n, t0)
    env.assume(ts[0] > t0 if first == 'right' else ts[0] < t0 if
               first == 'left' else ts[0] == t0)
    keep = []

    def build(r):
        s = true_wiener_source(paths=1, rng=r, dtype=env.dtype, t0=t0,
                               z0=z0)
        x = [s(t) for t in ts]
        y = [s(t) for t in reversed(ts)][::-1]
        d = [s(ts[i], ts[j] - ts[i]) for i in range(n) for j in range(n)]
        keep[:] = [x, y, d, s(t0), s.t]
        return np.stack(x)
    g = env.gauss(build)
    joint(env, g, t0, z0, ts, (), 1, plain(env, t0))
    x, y, d, x0, st = keep
    env.eq(np.stack(y), np.stack(x), 'asking again')
    env.eq(x0, [z0], 'initial value')
    for i in range(n):
        for j in range(n):
            env.eq(d[i * n + j], x[j] - x[i], 'increments add up')
    for a, b in zip(st, st[1:]):
        env.lt(a, b, 'stored times increase')


@scenario({'vs': [(), (2,)], 'paths': [1, 2]},
          thorough={'vs': [(), (1,), (2,), (2, 2)]})
def shapes(env, vs, paths):
    t0 = env.real('t0')
    z0 = env.arr('z0', vs + (paths,))
    ts = queries(env, 2, t0)

    def build(r):
        s = true_wiener_source(paths=paths, vshape=vs, rng=r,
                               dtype=env.dtype, t0=t0, z0=z0)
        return s(np.array(ts))
    g = env.gauss(build)
    joint(env, g, t0, z0, ts, vs, paths,
          lambda s, t, a, b: overlap(env, t0, s, t) if a == b else 0)


def cmat(env, r):
    one = env.const(1)[()]
    return env.array([[one, r], [r, one]])


@scenario({'form': ['corr', 'trail', 'rho', 'rho1'], 'order': range(4)})
def constant_correlation(env, form, order):
    """two components, 2 queries quick, 3 thorough"""
    t0 = env.real('t0')
    n = 3 if env.thorough else 2
    ts = queries(env, n, t0)
    env.assume((ts[0] > t0) if order % 2 else (ts[0] <= t0))
    env.assume((ts[1] > ts[0]) if order // 2 else (ts[1] <= ts[0]))
    r = env.real('r', -1, 1)
    a = dict(corr=dict(corr=cmat(env, r)), rho=dict(rho=r),
             trail=dict(corr=cmat(env, r)[..., np.newaxis]),
             rho1=dict(rho=env.array([r])))[form]

    def build(q):
        s = true_wiener_source(paths=1, vshape=(2,), rng=q,
                               dtype=env.dtype, t0=t0, **a)
        return np.stack([s(t) for t in ts])
    g = env.gauss(build)
    joint(env, g, t0, 0, ts, (2,), 1, lambda s, t, i, j: overlap(
        env, t0, s, t) * (1 if i == j else r))


@scenario({'side': [1, -1], 'form': ['corr', 'rho'], 'which': range(4)},
          thorough={'which': range(7)})
def linear_correlation(env, side, form, which):
    """correlation linear in time: sequences generating a new outer value,
    then inner ones"""
    t0, r0, r1 = env.real('t0'), env.real('r0'), env.real('r1')
    d = [env.real('d%d' % i, pos=True) for i in range(3)]
    u = [t0 + side * d[0], t0 + side * (d[0] + d[1]),
         t0 + side * (d[0] + d[1] + d[2])]
    # queries by increasing distance from t0 in the given order
    seq = [(0, 1), (1, 0), (1, 1), (1, 0, 2), (0, 2, 1), (2, 0, 1),
           (2, 1, 0)][which]
    ts = [u[k] for k in seq]
    env.separated([t0] + u)
    far = u[max(seq)]
    f = lambda s: r0 + r1 * (s - t0)
    env.assume(abs(f(t0)) < 1)
    env.assume(abs(f(far)) < 1)
    # a chord of the open interval (-1, 1) stays inside
    for k in range(3):
        env.assume(abs(f(u[k])) < 1)
    a = dict(corr=lambda s: cmat(env, f(s))) if form == 'corr' else dict(
        rho=lambda s: np.asarray(f(s)))

    def build(q):
        s = true_wiener_source(paths=1, vshape=(2,), rng=q,
                               dtype=env.dtype, t0=t0, **a)
        return np.stack([s(t) for t in ts])
    g = env.gauss(build)

    def corr(s, t, i, j):
        h = overlap(env, t0, s, t)
        return h if i == j else f(t0 + side * h / 2) * h
    joint(env, g, t0, 0, ts, (2,), 1, corr)


@scenario({'side': [1, -1], 'form': ['corr', 'rho']})
def outward_any_correlation(env, side, form):
    """moving away from t0: correlation at the midpoint of each interval"""
    t0 = env.real('t0')
    fn = env.func('f')
    d = [env.real('d%d' % i, pos=True) for i in range(3)]
    u = [t0 + side * d[0], t0 + side * (d[0] + d[1]),
         t0 + side * (d[0] + d[1] + d[2])]
    env.separated([t0] + u)
    a = dict(corr=lambda s: cmat(env, fn(s))) if form == 'corr' else dict(
        rho=lambda s: np.asarray(fn(s)))

    def build(q):
        s = true_wiener_source(paths=1, vshape=(2,), rng=q,
                               dtype=env.dtype, t0=t0, **a)
        return np.stack([s(t) for t in u])
    g = env.gauss(build)
    mid = [t0 + side * d[0] / 2, u[0] + side * d[1] / 2,
           u[1] + side * d[2] / 2]
    for i in range(3):
        for j in range(3):
            m = min(i, j) + 1
            env.eq(g.cov((i, 0, 0), (j, 0, 0)), sum(d[:m]), 'variance')
            env.eq(g.cov((i, 1, 0), (j, 0, 0)),
                   sum(d[k] * fn(mid[k]) for k in range(m)), 'covariance')


@scenario({'side': [1, -1], 'form': ['corr', 'rho', 'trail', 'rhotrail'],
           'last': ['out', 'other', 'both']})
def bridge_any_correlation(env, side, form, last):
    """an inner time after an outer one, then times outside the queried
    ones: each sub-interval has the correlation at its own midpoint"""
    t0 = env.real('t0')
    fn = env.func('f')
    a, b, c, e = [env.real(k, pos=True) for k in 'abce']
    u = [t0 + side * (a + b), t0 + side * a]
    new = dict(out=[(u[0], c, side)], other=[(t0, e, -side)],
               both=[(t0, e, -side), (u[0], c, side)])[last]
    ts = u + [s + sg * d for s, d, sg in new]
    env.separated([t0] + ts)
    # values of correlation parameters may have a trailing paths axis
    k = dict(corr=dict(corr=lambda s: cmat(env, fn(s))),
             trail=dict(corr=lambda s: cmat(env, fn(s))[..., None]),
             rho=dict(rho=lambda s: np.asarray(fn(s))),
             rhotrail=dict(rho=lambda s: np.array([[fn(s)]])))[form]
    ra, rb = fn(t0 + side * a / 2), fn(t0 + side * (a + b / 2))
    rc = fn(t0 + side * (a + b) / 2)
    for r in (ra, rb, rc):
        env.assume(abs(r) < 1)

    def build(q):
        s = true_wiener_source(paths=1, vshape=(2,), rng=q,
                               dtype=env.dtype, t0=t0, **k)
        return np.stack([s(t) for t in ts])
    g = env.gauss(build)

    def cov(i, j, sg):
        # sg=1: sum, -1: difference of the components, 0: mixed
        h = g.cov((i, 0, 0), (j, 0, 0)), g.cov((i, 1, 0), (j, 1, 0)), \
            g.cov((i, 0, 0), (j, 1, 0)), g.cov((i, 1, 0), (j, 0, 0))
        return (h[0] + h[1] + sg * (h[2] + h[3])) / 2
    for sg in (1, -1):
        A, B, C = a * (1 + sg * ra), b * (1 + sg * rb), \
            (a + b) * (1 + sg * rc)
        z = A / (A + B)
        env.eq(cov(0, 0, sg), C, 'outer variance')
        env.eq(cov(1, 0, sg), z * C, 'covariance of inner and outer')
        env.eq(cov(1, 1, sg), z * z * C + z * B, 'inner variance')
        for n, (s, d, sd) in enumerate(new, 2):
            r = fn(s + sd * d / 2)
            m = 0 if sd == side else None   # starts from u[0], or from t0
            for i in range(n):
                env.eq(cov(n, i, sg), 0 if m is None or i not in (0, 1)
                       else cov(m, i, sg), 'independent increment')
            env.eq(cov(n, n, sg), (0 if m is None else cov(m, m, sg)) +
                   d * (1 + sg * r), 'variance of the new increment')


@scenario({'side': [1, -1], 'flip': [False, True]})
def bridge_of_three(env, side, flip):
    """an inner time after an outer one, with correlations that do not
    commute: (1, 2) on one sub-interval and (2, 3) on the other"""
    t0 = env.real('t0')
    a, b = env.real('a', pos=True), env.real('b', pos=True)
    ra, rb = env.real('ra', -1, 1), env.real('rb', -1, 1)
    u = [t0 + side * (a + b), t0 + side * a]
    env.separated([t0] + u)
    env.separated([a, b])
    one, nil = env.const(1)[()], env.const(0)[()]

    def mat(r, s):
        return env.array([[one, r, nil], [r, one, s], [nil, s, one]])
    C1, C2 = (mat(nil, ra), mat(rb, nil)) if flip else (
        mat(ra, nil), mat(nil, rb))
    inner = side * (u[1] - t0)
    outer = side * (u[0] - t0)

    def corr(s):
        d = side * (s - t0)
        if bool(2 * d == inner):
            return C1
        if bool(2 * d == inner + outer):
            return C2
        return mat(nil, nil)

    def build(q):
        s = true_wiener_source(paths=1, vshape=(3,), rng=q,
                               dtype=env.dtype, t0=t0, corr=corr)
        return np.stack([s(t) for t in u])
    g = env.gauss(build)
    h = a + b
    A, B = C1 * a, C2 * b
    R, V = env.obj((3, 3)), env.obj((3, 3))
    for i, j in np.ndindex(3, 3):
        env.eq(g.cov((0, i, 0), (0, j, 0)), h if i == j else 0, 'outer')
        R[i, j] = g.cov((1, i, 0), (0, j, 0)) / h
        V[i, j] = g.cov((1, i, 0), (1, j, 0))
    env.eq(R.dot(A + B), A, 'regression of inner on outer')
    env.eq(V - R.dot(R.T) * h, A - R.dot(A), 'conditional covariance')


@scenario({'side': [1, -1]})
def tolerance(env, side):
    """times within the relative tolerance of a known one coincide with it"""
    rtol = env.real('rtol', pos=True, hi=0.25, gen=(0.0625, 0.25))
    a, e = env.real('a', pos=True), env.real('e', -0.75, 1, gen=(-0.5, 0.5))
    src = true_wiener_source(paths=1, rng=env.rng(), dtype=env.dtype,
                             rtol=rtol)
    t = side * a
    x = src(t)
    y = src(t * (1 + e))
    n = sum(z.size for _, z, _ in src.rng.log)
    if bool(abs(e) <= rtol):
        env.eq(y, x, 'same time')
        env.true(n == 1, 'no new draw')
    else:
        env.true(n == 2, 'another time')
    env.eq(src(t), x, 'asking again')


@scenario({'kind': ['array', 'increment', 'table']})
def array_queries(env, kind):
    """arrays of times are answered as the same sequence of scalars"""
    t0 = env.real('t0')
    ts = queries(env, 2, t0)
    z = env.real('z0')
    mk = lambda: true_wiener_source(paths=2, rng=env.rng('z'),
                                    dtype=env.dtype, t0=t0, z0=z)
    a, b = mk(), mk()
    if kind == 'array':
        x = a(np.array(ts + ts[:1]))
        y = np.stack([b(t) for t in ts + ts[:1]])
    elif kind == 'table':
        x = a(np.array([ts, ts[::-1]]))
        y = np.stack([np.stack([b(t) for t in ts]),
                      np.stack([b(t) for t in ts[::-1]])])
    else:
        x = a(np.array([ts[0], t0]), ts[1] - ts[0])
        env.separated(ts + [t0, t0 + ts[1] - ts[0]])
        y = np.stack([a(ts[1]) - a(ts[0]),
                      a(t0 + ts[1] - ts[0]) - a(t0)])
    env.eq(x, y, 'array query')


@scenario({'ix': range(5)})
def indexed(env, ix):
    """an indexed source returns the components of the values"""
    t0 = env.real('t0')
    t, dt = env.real('t'), env.real('dt')
    env.separated([t0, t, t + dt])
    vs = (2,) if ix < 3 else (2, 2)
    s = true_wiener_source(paths=2, vshape=vs, rng=env.rng(),
                           dtype=env.dtype, t0=t0)
    index = [0, slice(1, 2), [1, 0], (0, 1), 1][ix]
    q = s[index]
    x, y = q(t), q(t, dt)
    v = np.zeros(vs + (2,))[index] if ix < 3 or ix == 4 else \
        np.zeros(vs + (2,))[0, 1]
    env.true(tuple(q.vshape) == v.shape[:-1], 'vshape')
    env.true(q.paths == 2, 'paths')
    env.eq(x, s(t)[index], 'value')
    env.eq(y, (s(t + dt) - s(t))[index], 'increment')
    env.eq(np.asarray(q.t), np.asarray(s.t), 'times')
    env.true(q.size == s.size, 'size')
    env.eq(q(np.array([t, t0])), np.stack([s(t)[index], s(t0)[index]]),
           'array')


@scenario
def rejects(env):
    r = env.real('r', -1, 1)
    env.raises(ValueError, lambda: true_wiener_source(
        vshape=(), corr=cmat(env, r)), 'correlation of scalars')
    env.raises(ValueError, lambda: true_wiener_source(
        vshape=(3,), rho=r), 'shape')
    q = env.rng()
    s = true_wiener_source(paths=3, vshape=2, rng=q)
    env.true(s.rng is q and s.paths == 3 and tuple(s.vshape) == (2,),
             'attributes')
    env.raises(TypeError, lambda: true_wiener_source(rng=1), 'seed')
