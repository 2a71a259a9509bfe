import numpy as np
import sdepy
from sdepy.integration import SDEs, SDE, integrator
from symx.runner import scenario
from .doubles import Src
from .presets import line
from .systems import coef, reference, wshape, compare, block

BOUNDS = ('1-3 equations; value shapes (), (1,), (2,), (2,1), (1,2) (thorough also '
          '(2,2)), stacked along the last axis or along a new one; 1-2 '
          'paths; arbitrary coefficients depending on time, all the states '
          'and a parameter, any subset of the sources dt, dw and a custom '
          'one in each equation; 2-3 time points, forward and backward; '
          'plain or logarithmic state')
ASSUMPTIONS = []

TERMS = {1: [[('dt', 'dw')], [('dz',)]],
         2: [[('dt', 'dw'), ('dt', 'dw')], [('dt',), ('dw', 'dz')],
             [('dw',), ()]],
         3: [[('dt', 'dw'), ('dw',), ('dz', 'dt')],
             [('dt',), (), ('dw',)]]}


def make(env, q, vs, paths, terms, axis, log=False, base=SDEs):
    ids = sorted({z for e in terms for z in e} | {'dt', 'dw'})

    class system(base, integrator):
        sources = set(ids)

        def source_dz(self, dz=None):
            return dz

        if q == 0:
            def sde(self, t, x, par=0.):
                return {z: coef(env, 0, z, vs, paths, t, (x,), par)
                        for z in terms[0]}
        elif q == 1:
            def sde(self, t, x, par=0.):
                return [{z: coef(env, 0, z, vs, paths, t, (x,), par)
                         for z in terms[0]}]
        elif q == 2:
            def sde(self, t, x, y, par=0.):
                return tuple({z: coef(env, k, z, vs, paths, t, (x, y), par)
                              for z in terms[k]} for k in range(2))
        else:
            def sde(self, t, x, y, w, par=0.):
                return [{z: coef(env, k, z, vs, paths, t, (x, y, w), par)
                         for z in terms[k]} for k in range(3)]
    system.q, system.addaxis, system.log = q, axis, log
    return system


def sources(env, q, vs, paths, axis):
    w = wshape(vs, q, axis)
    return {z: Src(env, z, w, paths) for z in ('dw', 'dz')}


def args_of(cls, srcs):
    return {z: s for z, s in srcs.items() if z in cls.sources}


def go(env, q, vs, paths, terms, axis, key='two', log=False, form='par',
       init='scalars'):
    tt, st, i0 = line(env, key)
    srcs = sources(env, q, vs, paths, axis)
    cls = make(env, q, vs, paths, terms, axis, log)
    kw = dict(pos=True) if log else {}
    if init == 'scalars':
        a = env.arr('x', (q,), **kw)
        x0 = a if q > 1 else tuple(a)
        full = list(a)
    elif init == 'same':
        x0 = env.real('x', **kw)
        full = [x0] * q
    elif init == 'comp':
        a = env.arr('x', (q,) + vs + (1,), **kw)
        x0, full = a, list(a)
    elif init == 'full':
        a = env.arr('x', (q,) + vs + (paths,), **kw)
        x0, full = tuple(a), list(a)
    if form == 'fun':
        g = env.func('par')
        par = val = lambda t: g(t)
    else:
        par = env.arr('par', vs + (1,))
        val = lambda t: par
    p = cls(paths=paths, vshape=vs, dtype=env.dtype, x0=x0, par=par,
            steps=tuple(st) or None, i0=i0, **args_of(cls, srcs))
    res = p(np.array(tt))
    env.true(tuple(p.wshape) == wshape(vs, q, axis), 'wshape')
    compare(env, res, reference(env, tt, st, i0, vs, paths, q, axis, full,
                                terms, srcs, log, val), tt)


@scenario({'q': [1, 2, 3], 'vs': [(), (1,), (2,), (2, 1), (1, 2)],
           'axis': [False, True], 'kind': [0, 1]},
          thorough={'vs': [(), (1,), (2,), (2, 1), (1, 2), (2, 2)],
                    'kind': [0, 1, 2]})
def recursion(env, q, vs, axis, kind):
    T = TERMS[q]
    terms = T[kind % len(T)]
    go(env, q, vs, 2 if np.prod(vs) < 2 else 1, terms, axis)


@scenario({'q': [2, 3], 'vs': [(), (2,)], 'axis': [False, True],
           'key': ['three', 'back3', 'step', 'middle'], 'log': [False, True]},
          thorough={'key': ['three', 'back3', 'step', 'middle', 'backstep',
                            'middlestep', 'one']})
def timelines(env, q, vs, axis, key, log):
    go(env, q, vs, 1, TERMS[q][0], axis, key, log, form='fun')


@scenario({'which': [(2, k) for k in range(1, 4)] +
           [(3, k) for k in range(1, 8)], 'z': ['dt', 'dw', 'dz'],
           'log': [False, True]})
def sparse_terms(env, which, z, log):
    """a source present in any subset of the equations"""
    q, k = which
    other = 'dw' if z == 'dt' else 'dt'
    terms = [(other, z) if k >> i & 1 else (other,) for i in range(q)]
    go(env, q, (), 1, terms, False, 'two', log)
    if not log:
        go(env, q, (2,), 1, [(z,) if k >> i & 1 else () for i in range(q)],
           True, 'three', log)


@scenario({'init': ['scalars', 'same', 'comp', 'full'], 'vs': [(), (2,),
                                                              (1, 2)],
           'axis': [False, True], 'q': [1, 2, 3], 'log': [False, True]})
def initial_values(env, init, vs, axis, q, log):
    if q == 1 and init == 'scalars':
        init = 'comp'
    go(env, q, vs, 2, TERMS[q][0], axis, 'two', log, init=init)


@scenario({'q': [1, 2, 3], 'vs': [(), (1,), (2,), (2, 2)],
           'axis': [False, True]})
def pack_unpack(env, q, vs, axis):
    paths = 2
    cls = make(env, q, vs, paths, TERMS[q][0], axis)
    srcs = sources(env, q, vs, paths, axis)
    p = cls(paths=paths, vshape=vs, dtype=env.dtype, **args_of(cls, srcs))
    xs = [env.arr('x%d' % k, vs + (paths,)) for k in range(q)]
    X = p.pack(tuple(xs))
    env.shape(X, wshape(vs, q, axis) + (paths,), 'packed shape')
    for k in range(q):
        for i in np.ndindex(*vs + (paths,)):
            env.eq(X[block(vs, q, axis, i[:-1], k) + i[-1:]], xs[k][i],
                   'component of a stack')
    ys = p.unpack(X)
    env.true(len(ys) == q, 'number of blocks')
    for x, y in zip(xs, ys):
        env.eq(y, x, 'unpack(pack)')
    Z = env.arr('z', wshape(vs, q, axis) + (paths,))
    env.eq(p.pack(p.unpack(Z)), Z, 'pack(unpack)')
    # values of lower dimension are repeated
    c = env.arr('c', (q,))
    env.eq(np.stack(p.unpack(p.pack(tuple(c)))), np.stack(
        [np.broadcast_to(v, vs + (paths,)) for v in c]), 'broadcast')


@scenario({'vs': [(), (2,)], 'axis': [False, True], 'key': ['three',
                                                           'back3']})
def decoupled(env, vs, axis, key):
    """a system of equations that do not interact gives the results of the
    equations integrated separately on the same noise"""
    tt, st, i0 = line(env, key)
    paths = 1
    srcs = sources(env, 2, vs, paths, axis)
    f = [env.func('f'), env.func('g')]

    def one(k, t, x):
        a = env.obj(x.shape)
        for i in np.ndindex(*x.shape):
            a[i] = f[k](t, x[i])
        return {'dt': a, 'dw': 2 * a}

    class both(SDEs, integrator):
        q, addaxis = 2, axis

        def sde(self, t, x, y):
            return one(0, t, x), one(1, t, y)

    def single(k):
        class alone(SDE, integrator):
            def sde(self, t, x):
                return one(k, t, x)
        w = Src(env, 'w%d' % k, vs, paths)
        w.at = lambda i, s, ds: srcs['dw'].at(
            block(vs, 2, axis, i[:-1], k) + i[-1:], s, ds)
        return alone(paths=paths, vshape=vs, dtype=env.dtype, x0=x0[k],
                     i0=i0, dw=w)(np.array(tt))
    x0 = env.arr('x', (2,))
    r = both(paths=paths, vshape=vs, dtype=env.dtype, x0=x0, i0=i0,
             dw=srcs['dw'])(np.array(tt))
    for k in range(2):
        env.eq(r[k].x, single(k).x, 'same values')


@scenario({'bad': ['dict', 'few', 'many', 'key', 'values', 'q0', 'shape']})
def rejects(env, bad):
    class s(SDEs, integrator):
        q = 0 if bad == 'q0' else 2

        def sde(self, t, x, y):
            if bad == 'dict':
                return {'dt': x}
            if bad == 'few':
                return ({'dt': x},)
            if bad == 'many':
                return ({'dt': x},) * 3
            if bad == 'key':
                return ({'dt': x}, {'dn': y})
            if bad == 'values':
                return (x, y)
            return ({'dt': x}, {'dt': y})
    t = env.times('t', 2)
    w = Src(env, 'w', (2,) if bad != 'shape' else (3,), 1)
    err = dict(dict=TypeError, values=TypeError, key=KeyError).get(
        bad, ValueError)
    env.raises(err, lambda: s(dw=w, dtype=env.dtype)(t), bad)
