import numpy as np
import sdepy
from sdepy.infrastructure import poisson_source, process
from symx.runner import scenario

BOUNDS = ('t, dt any reals (scalars, arrays up to (2,2), broadcast); value '
          'shapes (), (1,), (2,), (2,2); 1-3 paths; intensity constant '
          '(scalar, per component, per path, per both), function of time or '
          'process; counts arbitrary')
ASSUMPTIONS = ['the generator: poisson(lam) delivers independent Poisson '
               'counts of mean lam']

TS = [((), ()), ((2,), ()), ((), (2,)), ((1, 2), (2, 1))]


def check(env, P, tsh, vs, paths, t, dt, lam):
    """P: affine map; lam(s, v, p): intensity"""
    env.shape(P.mean, tsh + vs + (paths,), 'shape')
    env.eq(P.mean, 0, 'no draws, no jumps')
    t, dt = np.broadcast_to(t, tsh), np.broadcast_to(dt, tsh)
    seen = set()
    for i in np.ndindex(*P.shape):
        ti, vi, pi = i[:len(tsh)], i[len(tsh):-1], i[-1]
        row = P.row(i)
        h = dt[ti]
        if bool(h == 0):
            env.true(not row or all(c == 0 for c in row.values()),
                     'no increment, no jumps')
            continue
        env.true(len(row) == 1, 'one draw per entry')
        for k, c in row.items():
            env.true(k not in seen, 'draws not shared')
            seen.add(k)
            env.eq(c, 1 if bool(h > 0) else -1, 'sign of the increment')
            env.eq(P.params[k], abs(h) * lam(t[ti] + h / 2, vi, pi),
                   'mean of the draw')


@scenario({'ts': TS, 'vs': [(), (2,)], 'paths': [1, 2],
           'form': ['scalar', 'v', 'p', 'vp']},
          thorough={'vs': [(), (1,), (2,), (2, 2)], 'paths': [1, 2, 3]})
def constant(env, ts, vs, paths, form):
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    if ts == ((), ()):
        t, dt = t[()], dt[()]
    sh = dict(scalar=(), v=vs + (1,), p=(paths,), vp=vs + (paths,))[form]
    lam = env.arr('lam', sh, nonneg=True)
    full = np.broadcast_to(lam, vs + (paths,))
    P = env.lin(lambda r: poisson_source(
        paths=paths, vshape=vs, rng=r, dtype=env.dtype,
        lam=lam if form != 'scalar' else lam[()])(t, dt), 'P')
    check(env, P, tsh, vs, paths, t, dt, lambda s, v, p: full[v + (p,)])


@scenario({'ts': TS, 'vs': [(), (2,)], 'form': ['fun', 'fun_v', 'fun_p',
                                               'process', 'process1',
                                               'process_v']})
def variable(env, ts, vs, form):
    t, dt = env.arr('t', ts[0]), env.arr('dt', ts[1])
    tsh = np.broadcast(np.empty(ts[0]), np.empty(ts[1])).shape
    f = [env.func('f', 'pos'), env.func('g', 'pos')]
    paths = 2
    if form == 'fun':
        lam, val = (lambda s: f[0](s)), (lambda s, v, p: f[0](s))
    elif form == 'fun_v':
        n = vs[0] if vs else 1
        lam = lambda s: np.stack([np.asarray(f[i](s))
                                  for i in range(n)]).reshape(vs + (1,))
        val = lambda s, v, p: f[v[0] if v else 0](s)
    elif form == 'fun_p':
        lam = lambda s: np.stack([np.asarray(f[i](s)) for i in range(2)])
        val = lambda s, v, p: f[p](s)
    else:
        u = env.times('u', 2)
        k = 1 if form == 'process1' else paths
        w = vs if form == 'process_v' else ()
        x = env.arr('x', (2,) + w + (k,), nonneg=True)
        lam = process(u, x=x)
        # stay inside the given nodes: linear interpolation of nonnegative
        # values is a nonnegative intensity
        for i in np.ndindex(*tsh):
            h = np.broadcast_to(dt, tsh)[i]
            m = np.broadcast_to(t, tsh)[i] + h / 2
            env.assume(m > u[0])
            env.assume(m < u[1])

        def val(s, v, p):
            a = (s - u[0]) / (u[1] - u[0])
            j = (v if w else ()) + (p if k > 1 else 0,)
            return x[(0,) + j] * (1 - a) + x[(1,) + j] * a
    P = env.lin(lambda r: poisson_source(
        paths=paths, vshape=vs, rng=r, lam=lam,
        dtype=env.dtype)(t, dt), 'P')
    check(env, P, tsh, vs, paths, t, dt, val)


@scenario
def independent_calls(env):
    t, dt, ds = env.real('t'), env.real('dt', pos=True), env.real('ds',
                                                                  pos=True)
    lam = env.real('lam', pos=True)

    def build(r):
        s = poisson_source(paths=2, vshape=(1,), rng=r, lam=lam,
                           dtype=env.dtype)
        return np.stack((s(t, dt), s(t, dt), s(t + dt, ds)))
    P = env.lin(build, 'P')
    seen = set()
    for i in np.ndindex(*P.shape):
        r = P.row(i)
        env.true(len(r) == 1 and not seen & set(r), 'fresh draws')
        seen |= set(r)
        env.eq(P.params[min(r)], lam * (ds if i[0] == 2 else dt), 'mean')


@scenario
def integer_counts(env):
    """default type is integer, and the sampled counts are returned"""
    dt = env.real('dt')
    s = poisson_source(paths=2, vshape=(2,), rng=env.rng(), lam=2.)
    x = s(env.real('t'), dt)
    draws = [z for k, a, _ in s.rng.log for z in a.reshape(-1)]
    env.true(len(draws) == 4, 'one draw per entry')
    env.true(np.issubdtype(poisson_source().dtype, np.integer)
             or poisson_source().dtype is int, 'integer counts')
    for a, b in zip(x.reshape(-1), draws):
        env.eq(a, 0 if bool(dt == 0) else b if bool(dt > 0) else -b,
               'sign and count')


@scenario({'which': range(5)})
def rejects(env, which):
    l2, l3 = env.arr('l', 2, pos=True), env.arr('m', 3, pos=True)
    f = [
        lambda: poisson_source(paths=3, lam=l2),
        lambda: poisson_source(paths=1, vshape=(2,), lam=l3),
        lambda: poisson_source(paths=1, vshape=(2,), lam=l3.reshape(3, 1)),
        lambda: poisson_source(paths=2, vshape=(), lam=l2.reshape(2, 1)),
        lambda: poisson_source(paths=2, vshape=(2,), lam=process(
            x=l3.reshape(1, 3, 1))),
    ][which]
    env.raises(Exception, f, 'mismatched intensity')


@scenario
def attributes(env):
    q = env.rng()
    s = poisson_source(paths=3, vshape=2, rng=q, lam=3.)
    env.true(s.rng is q, 'generator')
    env.true(s.paths == 3, 'paths')
    env.true(tuple(s.vshape) == (2,), 'vshape')
    env.eq(s.lam, 3, 'intensity')
    env.raises(TypeError, lambda: poisson_source(rng=1), 'seed as rng')
    env.true(poisson_source().rng is sdepy.infrastructure.default_rng,
             'default generator')
