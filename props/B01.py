import numpy as np
import sdepy
from sdepy.infrastructure import wiener_source, process
from symx.runner import scenario

BOUNDS = ('t, dt any reals (scalars, (2,), (1,2) arrays, broadcast), value '
          'shapes (), (1,), (2,), (2,2), (3,), (4,), (2,1,2), 1-2 paths; '
          'correlation matrices 2x2-4x4 with symbolic entries, constant, with '
          'trailing axis, callable, process; rho scalar or vector')
ASSUMPTIONS = ['the generator: normal() and multivariate_normal() deliver '
               'independent gaussians with the requested covariance']


def law(env, g, tsh, vs, paths, dt, corr):
    """corr(i, a, b): correlation of components a, b (last value axis) at
    time index i, or None"""
    env.shape(g.mean, tsh + vs + (paths,), 'shape')
    env.eq(g.mean, 0, 'mean')
    dt = np.broadcast_to(np.asarray(dt), tsh)
    idx = list(np.ndindex(*(tsh + vs + (paths,))))
    for n, i in enumerate(idx):
        for j in idx[:n + 1]:
            ti, vi, pi = i[:len(tsh)], i[len(tsh):-1], i[-1]
            tj, vj, pj = j[:len(tsh)], j[len(tsh):-1], j[-1]
            if i == j:
                want = abs(dt[ti])
            elif ti != tj or pi != pj or vi[:-1] != vj[:-1] or corr is None:
                want = 0
            else:
                want = corr(ti, vi[-1], vj[-1]) * abs(dt[ti])
            env.eq(g.cov(i, j), want, 'covariance')


TS = [((), ()), ((2,), ()), ((), (2,)), ((1, 2), (1, 1))]


@scenario({'ts': TS, 'vs': [(), (2,)], 'paths': [1, 2]},
          thorough={'vs': [(), (2,), (2, 2), (1,)]})
def uncorrelated(env, ts, vs, paths):
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    if ts == ((), ()):
        t, dt = t[()], dt[()]
    g = env.gauss(lambda r: wiener_source(
        paths=paths, vshape=vs, dtype=env.dtype, rng=r)(t, dt))
    law(env, g, tsh, vs, paths, dt, None)


def cmat(env, M, name='r'):
    c = env.obj((M, M))
    for i in range(M):
        c[i, i] = 1 if not env.sym else env.const(1)[()]
        for j in range(i):
            c[i, j] = c[j, i] = env.real('%s%d%d' % (name, i, j), -1, 1)
    return c


@scenario({'ts': [((), ()), ((2,), ())], 'vs': [(2,), (2, 2), (3,)],
           'paths': [1, 2], 'trail': [False, True]},
          thorough={'vs': [(1,), (2,), (2, 2), (3,), (4,), (2, 1, 2)],
                    'ts': TS})
def correlated(env, ts, vs, paths, trail):
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    c = cmat(env, vs[-1])
    corr = c[..., np.newaxis] if trail else c
    g = env.gauss(lambda r: wiener_source(
        paths=paths, vshape=vs, dtype=env.dtype, rng=r, corr=corr)(t, dt))
    law(env, g, tsh, vs, paths, dt, lambda i, a, b: c[a, b])


@scenario({'form': ['scalar', 'vector', 'trailing', 'vector1'],
           'paths': [1, 2]})
def rho(env, form, paths):
    t, dt = env.real('t'), env.real('dt')
    K = 1 if form in ('scalar', 'vector1') else 2
    r = env.arr('r', K, lo=-1, hi=1)
    arg = dict(scalar=r[0], vector=r, vector1=r,
               trailing=r.reshape(K, 1))[form]
    vs = (2 * K,)
    g = env.gauss(lambda q: wiener_source(
        paths=paths, vshape=vs, dtype=env.dtype, rng=q, rho=arg)(t, dt))
    law(env, g, (), vs, paths, dt, lambda i, a, b: r[a % K] if
        a % K == b % K else 0)


@scenario({'form': ['corr', 'corr3', 'rho', 'rhovec', 'rhocol', 'process',
                    'rhoprocess', 'rhovprocess'],
           'ts': [((), ()), ((2,), ()), ((), (2,))]},
          thorough={'ts': TS})
def time_dependent(env, form, ts):
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    K = 2 if form in ('rhovec', 'rhovprocess', 'rhocol') else 1
    f = [env.func('f'), env.func('g')]
    tb = np.broadcast_to(t, tsh)
    db = np.broadcast_to(dt, tsh)
    if form == 'corr':
        one = env.const(1)[()]
        args = dict(corr=lambda s: env.array([[one, f[0](s)],
                                              [f[0](s), one]]))
    elif form == 'corr3':
        one = env.const(1)[()]
        args = dict(corr=lambda s: env.array(
            [[one, f[0](s)], [f[0](s), one]])[..., np.newaxis])
    elif form == 'rho':
        args = dict(rho=lambda s: f[0](s))
    elif form == 'rhovec':
        args = dict(rho=lambda s: env.array([f[0](s), f[1](s)]))
    elif form == 'rhocol':
        args = dict(rho=lambda s: env.array([[f[0](s)], [f[1](s)]]))
    else:
        u = env.times('u', 2)
        if form == 'process':
            x = env.obj((2, 2, 2, 1))
            for i in range(2):
                x[i, :, :, 0] = cmat(env, 2, 'c%d' % i)
            args = dict(corr=process(u, x=x))
            p = args['corr']
            f = [lambda s: p(s)[0, 1, 0]]
        elif form == 'rhoprocess':
            p = process(u, x=env.arr('x', (2, 1), lo=-1, hi=1))
            args = dict(rho=p)
            f = [lambda s: p(s)[0]]
        else:
            p = process(u, x=env.arr('x', (2, 2, 1), lo=-1, hi=1))
            args = dict(rho=p)
            f = [lambda s: p(s)[0, 0], lambda s: p(s)[1, 0]]
    g = env.gauss(lambda q: wiener_source(
        paths=2, vshape=(2 * K,), dtype=env.dtype, rng=q, **args)(t, dt))
    law(env, g, tsh, (2 * K,), 2, db,
        lambda i, a, b: f[a % K](tb[i] + db[i] / 2)
        if a % K == b % K else 0)


@scenario
def successive_calls_independent(env):
    t, dt, dt2 = env.real('t'), env.real('dt'), env.real('dt2')
    r = env.real('r', -1, 1)
    one = env.const(1)[()]

    def build(q):
        s = wiener_source(paths=1, vshape=(2,), dtype=env.dtype, rng=q,
                          corr=env.array([[one, r], [r, one]]))
        return np.stack((s(t, dt), s(t, dt), s(t + dt, dt2)))
    g = env.gauss(build)
    for i in range(3):
        for j in range(3):
            for a in range(2):
                for b in range(2):
                    h = (dt, dt, dt2)[i]
                    env.eq(g.cov((i, a, 0), (j, b, 0)),
                           0 if i != j else abs(h) * (1 if a == b else r),
                           'independent calls')


@scenario({'which': range(12)})
def rejects(env, which):
    r = env.real('r', -1, 1)
    one = env.const(1)[()]
    c2 = env.array([[one, r], [r, one]])
    c3 = cmat(env, 3)
    f = [
        lambda: wiener_source(vshape=(), corr=c2),
        lambda: wiener_source(vshape=(), rho=r),
        lambda: wiener_source(vshape=(3,), corr=c2),
        lambda: wiener_source(vshape=(2,), corr=c3),
        lambda: wiener_source(vshape=(2,), corr=c3[:2]),
        lambda: wiener_source(vshape=(2,), corr=env.array([one, r])),
        lambda: wiener_source(vshape=(2, 3), corr=c2),
        lambda: wiener_source(vshape=(2,), corr=np.stack((c2, c2), axis=-1)),
        lambda: wiener_source(vshape=(2,), rho=env.array([r, r])),
        lambda: wiener_source(vshape=(4,), rho=env.array([[r, r]])),
        lambda: wiener_source(vshape=(3,), rho=r),
        lambda: wiener_source(vshape=(2,), corr=lambda s: c3),
    ][which]
    env.raises(ValueError, f, 'mismatched correlation')


@scenario
def attributes(env):
    q = env.rng()
    s = wiener_source(paths=3, vshape=2, rng=q)
    env.true(s.rng is q, 'generator')
    env.true(s.paths == 3, 'paths')
    env.true(tuple(s.vshape) == (2,), 'vshape')
    env.true(s.corr is None, 'corr')
    for bad in (1, [1], np.array([1, 2])):
        env.raises(TypeError, lambda: wiener_source(rng=bad), 'seed as rng')
    env.true(wiener_source().rng is sdepy.infrastructure.default_rng,
             'default generator')
