import numpy as np
from sdepy import integrate
from sdepy.integration import SDE, SDEs, integrator
import sdepy
from symx.runner import scenario
from .doubles import Src
from .presets import line
from .systems import coef, reference, wshape, compare

BOUNDS = ('one equation or lists of 1-3; value shapes (), (2,), (2,1), (1,2); '
          '1-2 paths; arbitrary coefficients of time, states and parameters '
          'for any of the sources dt, dw, dn, dj and a custom one; number of '
          'equations and sources given or found by test evaluation; 1-3 time '
          'points, with extra steps, forward and backward; plain or '
          'logarithmic state; parameters as number, array, function or '
          'process, or left to their default')
ASSUMPTIONS = ['where the number of equations or the sources are not given, '
               'the functions evaluate on plain numbers, as integrate() '
               'requires for its test evaluation']

TERMS = {0: [[('dt', 'dw')], [('dt', 'dn', 'dj')], [('dw',)],
             [('dt', 'dw', 'dj')], [('dt',)]],
         1: [[('dt', 'dw')], [('dn',)]],
         2: [[('dt', 'dw'), ('dt', 'dn')], [('dj',), ('dt',)],
             [(), ('dw',)]],
         3: [[('dt',), ('dw', 'dt'), ('dj',)]]}


def function(env, q, vs, paths, terms, testable='args'):
    """a plain function with the given terms and a parameter, default 0.25"""
    def one(k, t, xs, par):
        if np.ndim(xs[0]) == 0:    # test evaluation
            if testable == 'blind':
                raise ValueError('no test evaluation required')
            return {z: 0 for z in terms[k]}
        return {z: coef(env, k, z, vs, paths, t, xs, par) for z in terms[k]}
    if testable == 'none':
        def f(t=0., x=1., par=.25):
            return one(0, t, (x,), par) if q == 0 else \
                [one(k, t, (x,), par) for k in range(q)]
    elif q == 0:
        def f(t, x, par=.25):
            return one(0, t, (x,), par)
    elif q == 1:
        def f(t, x, par=.25):
            return [one(0, t, (x,), par)]
    elif q == 2:
        def f(t, x=1., y=1., par=.25):
            return one(0, t, (x, y), par), one(1, t, (x, y), par)
    else:
        def f(t=0., x=1., y=1., w=1., par=.25):
            return [one(k, t, (x, y, w), par) for k in range(3)]
    return f


def go(env, q, vs, terms, how, key, log=False, axis=False, form='fun',
       paths=1):
    tt, st, i0 = line(env, key)
    ws = wshape(vs, q, axis)
    ids = {z for e in terms for z in e}
    srcs = {z: Src(env, z, ws, paths) for z in ids if z != 'dt'}
    f = function(env, q, vs, paths, terms,
                 'none' if how == 'none' else
                 'blind' if 'both' in how else 'args')
    kw = {}
    if log:
        kw['log'] = True
    if axis:
        kw['addaxis'] = True
    if how in ('both', 'q', 'decorator_both', 'decorator_q'):
        kw['q'] = q
    if how in ('both', 'sources', 'decorator_both'):
        kw['sources'] = ids
    if 'decorator' in how:
        cls = integrate(**kw)(f) if kw else integrate()(f)
    else:
        cls = integrate(f, **kw)
    env.true(issubclass(cls, SDEs if q else SDE) and
             issubclass(cls, integrator), 'class')
    args = dict(srcs)
    if form == 'default':
        val = lambda t: .25
    elif form == 'fun':
        g = env.func('par')
        args['par'] = val = lambda t: g(t)
    elif form == 'scalar':
        a = env.real('par')
        args['par'] = a
        val = lambda t: a
    elif form == 'arr':
        a = env.arr('par', vs + (paths,))
        args['par'] = a
        val = lambda t: a
    elif form == 'process':
        a = env.arr('par', (1,) + vs + (paths,))
        args['par'] = sdepy.process(env.times('u', 1), x=a)
        val = lambda t: a[0]
    full = [1] * max(q, 1)
    if form != 'default':
        x0 = env.real('x', **(dict(pos=True) if log else {}))
        args['x0'], full = x0, [x0] * max(q, 1)
    p = cls(paths=paths, vshape=vs, dtype=env.dtype, i0=i0,
            steps=tuple(st) or None, **args)
    res = p(np.array(tt))
    env.true(isinstance(res, tuple) == (q > 0), 'tuple for a system')
    compare(env, res, reference(env, tt, st, i0, vs, paths, q, axis, full,
                                terms, srcs, log, val), tt)


@scenario({'case': [(q, k) for q in TERMS for k in range(len(TERMS[q]))],
           'how': ['auto', 'both', 'q', 'sources', 'decorator',
                   'decorator_q', 'decorator_both'],
           'log': [False, True]})
def recursion(env, case, how, log):
    q, kind = case
    if how == 'auto' and q == 1:
        how = 'none'
    go(env, q, (), TERMS[q][kind], how, 'two', log)


@scenario({'case': [(0, False), (2, False), (2, True)],
           'vs': [(2,), (2, 1), (1, 2)], 'log': [False, True],
           'paths': [1, 2]})
def shapes(env, case, vs, log, paths):
    q, axis = case
    go(env, q, vs, TERMS[q][0], 'auto', 'two', log, axis, paths=paths)


@scenario({'case': [(0, False), (2, False), (2, True)],
           'how': ['decorator', 'decorator_both', 'both'],
           'log': [False, True]})
def given_form(env, case, how, log):
    """log and addaxis with each way of giving the function"""
    q, axis = case
    go(env, q, (2,), TERMS[q][0], how, 'two', log, axis, paths=2)


@scenario({'q': [0, 1, 2], 'key': ['one', 'three', 'back3', 'step',
                                   'middle'], 'log': [False, True]},
          thorough={'key': ['one', 'three', 'back3', 'step', 'middle',
                            'backstep', 'middlestep']})
def timelines(env, q, key, log):
    go(env, q, (), TERMS[q][0], 'auto', key, log)


@scenario({'q': [0, 2], 'form': ['default', 'fun', 'scalar', 'arr',
                                 'process'], 'vs': [(), (2,)],
           'log': [False, True], 'key': ['three']},
          thorough={'key': ['three', 'middlestep']})
def parameters(env, q, form, vs, log, key):
    go(env, q, vs, TERMS[q][0], 'auto', key, log, form=form)


@scenario({'q': [0, 2]})
def custom_source(env, q):
    """a class made by integrate() may be given a source of its own"""
    tt, st, i0 = line(env, 'two')
    terms = [('dt', 'dz')] if q == 0 else [('dz',), ('dt',)]
    src = Src(env, 'dz', wshape((), q, False), 1)
    f = function(env, q, (), 1, terms)

    class mine(integrate(f)):
        def source_dz(self, scale=1.):
            def dz(t, dt):
                return scale * src(t, dt)
            return dz
    a = env.real('scale')
    x0 = env.real('x')
    p = mine(paths=1, dtype=env.dtype, scale=a, x0=x0)

    class scaled:
        at = staticmethod(lambda i, t, dt: a * src.at(i, t, dt))
    compare(env, p(np.array(tt)), reference(
        env, tt, st, i0, (), 1, q, False, [x0] * max(q, 1), terms,
        dict(dz=scaled), par=lambda t: .25), tt)


@scenario({'q': [0, 2]})
def like_class(env, q):
    """same results as the class with that sde method; several parameters,
    given in any order, each reaching its argument, shared with x0"""
    tt, st, i0 = line(env, 'three')
    w = Src(env, 'w', wshape((), q, False), 2)
    h = env.func('h')

    def e(x, a, b, c):
        if np.ndim(x) == 0:
            return {'dt': 0, 'dw': 0}
        out = env.obj(x.shape)
        for i in np.ndindex(*x.shape):
            out[i] = h(x[i], a, b)
        return {'dt': out, 'dw': c * x + b}
    if q == 0:
        def f(t, x, a=1., b=2., c=3., x0=1.):
            return e(x, a, b, c - x0)

        class direct(SDE, integrator):
            sources = {'dt', 'dw'}

            def sde(self, t, x, a, b, c, x0):
                return e(x, a, b, c - x0)
    else:
        def f(t, x=1., y=1., a=1., b=2., c=3., x0=1.):
            return e(x, a, b, c - x0), e(y, b, a, c)

        class direct(SDEs, integrator):
            sources = {'dt', 'dw'}
            q = 2

            def sde(self, t, x, y, a, b, c, x0=1.):
                return e(x, a, b, c - x0), e(y, b, a, c)
        direct.q = 2
    if q == 0:
        def sde(self, t, x, a, b, c, x0=1.):
            return e(x, a, b, c - x0)
        direct.sde = sde
    a, b, x0 = env.real('a'), env.real('b'), env.real('x0')
    kw = dict(paths=2, dtype=env.dtype, dw=w)
    r1 = integrate(f)(x0=x0, b=b, a=a, **kw)(np.array(tt))
    r2 = direct(a=a, c=3., x0=x0, b=b, **kw)(np.array(tt))
    for u, v in zip(r1 if q else (r1,), r2 if q else (r2,)):
        env.eq(u.x, v.x, 'same values')
        env.eq(np.asarray(u.t), np.asarray(v.t), 'same timeline')


@scenario({'q': [0, 2]})
def args_reported(env, q):
    """the instance reports each parameter given, and defaults otherwise;
    two instances of one class do not share parameters"""
    f = function(env, q, (), 1, TERMS[q][0])
    cls = integrate(f)
    a, b = env.real('a'), env.real('b')
    p = cls(par=a, x0=b, dtype=env.dtype)
    r = cls(dtype=env.dtype)
    env.eq(np.asarray(p.args['par']), a, 'given')
    env.eq(np.asarray(p.args['x0']), b, 'given')
    env.eq(np.asarray(r.args['par']), .25, 'default')
    env.eq(np.asarray(r.args['x0']), 1, 'default')


BAD = ['unexpected', 'missing', 'unknown_source', 'no_dict', 'bad_item',
       'wrong_q', 'wrong_q0', 'wrong_sources', 'more_sources', 'empty',
       'fails', 'conflict', 'late_dict', 'late_list', 'late_source',
       'late_number', 'late_q', 'method', 'no_integrator', 'mro',
       'negative_q', 'unexpected_q', 'source_unused', 'misspelled']


@scenario({'bad': BAD})
def rejects(env, bad):
    t = np.array(env.times('t', 2))
    a = env.real('a')
    w = lambda v=(): Src(env, 'w', v, 1)

    def one(t, x, mu=1.):
        return {'dt': mu + x * 0, 'dw': 1 + x * 0}

    def two(t, x=1., y=1., mu=1.):
        return one(t, x), one(t, y)

    def must(t, x, mu, nu=1.):
        return {'dt': mu * nu}

    def run(f, err=Exception, ikw={}, **kw):
        kw = dict(dict(dtype=env.dtype), **kw)
        env.raises(err, lambda: integrate(f, **ikw)(**kw)(t), bad)
    if bad == 'unexpected':
        run(one, TypeError, nu=a)
    elif bad == 'unexpected_q':
        run(two, TypeError, nu=a)
    elif bad == 'misspelled':
        run(one, TypeError, x_0=a)
        run(one, TypeError, vshapes=(2,))
    elif bad == 'source_unused':
        # parameters of sources that do not enter the equation
        run(one, TypeError, lam=a)
        run(one, TypeError, dn=w())
        run(lambda t, x: {'dt': 1 + x * 0}, TypeError, corr=np.eye(2))
    elif bad == 'missing':
        run(must, TypeError, dict(q=0, sources={'dt'}))
        run(must, TypeError, dict(q=0, sources={'dt'}), nu=a)
    elif bad == 'unknown_source':
        run(lambda t, x: {'dt': 1., 'dq': 1.})
        run(lambda t, x: {'dt': 1.}, Exception, dict(
            q=0, sources={'dt', 'dq'}))
    elif bad == 'no_dict':
        run(lambda t, x: x)
    elif bad == 'bad_item':
        run(lambda t, x: [{'dt': 1.}, x])
    elif bad == 'wrong_q':
        run(two, TypeError, dict(q=3))
        run(two, TypeError, dict(q=1))
        run(one, TypeError, dict(q=1))
    elif bad == 'wrong_q0':
        run(two, TypeError, dict(q=0))
    elif bad == 'wrong_sources':
        run(one, TypeError, dict(sources={'dt'}))
        run(two, TypeError, dict(sources={'dw'}))
    elif bad == 'more_sources':
        run(one, TypeError, dict(sources={'dt', 'dw', 'dn'}))
    elif bad == 'empty':
        run(lambda t, x: [])
    elif bad == 'fails':
        run(lambda t, x, y, z: {'dt': 1.})
    elif bad == 'conflict':
        run(lambda t, x, x0=2.: {'dt': x0 + x * 0}, TypeError)
        run(lambda t, x, lam=2.: {'dn': lam + x * 0}, TypeError)
    elif bad == 'late_dict':
        run(one, Exception, dict(q=2, sources={'dt', 'dw'}), dw=w((2,)))
    elif bad == 'late_list':
        run(two, Exception, dict(q=0, sources={'dt', 'dw'}), dw=w())
    elif bad == 'late_q':
        run(two, Exception, dict(q=3, sources={'dt', 'dw'}), dw=w((3,)))
    elif bad == 'late_source':
        run(one, KeyError, dict(q=0, sources={'dt'}))
        run(two, KeyError, dict(q=2, sources={'dt'}))
    elif bad == 'late_number':
        run(lambda t, x: x, TypeError, dict(q=0, sources={'dt'}))
    elif bad == 'method':
        run(one, ValueError, method='milstein')
    elif bad == 'negative_q':
        run(two, Exception, dict(q=-1, sources={'dt', 'dw'}))
    elif bad == 'no_integrator':
        env.raises(TypeError, lambda: SDE(dtype=env.dtype), bad)
        env.raises(TypeError, lambda: SDEs(dtype=env.dtype), bad)
    else:
        class wrong(integrator, SDE):
            pass
        env.raises(TypeError, lambda: wrong(dtype=env.dtype), bad)
