import numpy as np
import sdepy
from sdepy import infrastructure as I, integrate
from symx.runner import scenario
from .doubles import Src, Jumps, runs
from .presets import (SPEC, LOG, JUMP, LINES, line, build, reference,
                      compare, wshape)

BOUNDS = ('all preset processes and user equations over dt, dw, dn, dj and a '
          'custom source; value shapes (), (2,); 1-2 paths; timelines of 1-3 '
          'points with up to one step between, forward and backward; sources '
          'built internally, given as class, instance, process, antithetic '
          'pair or source with memory; up to 2 jumps per draw')
ASSUMPTIONS = ['the generator delivers the same sequence of draws to the '
               'process and to the source it is compared with']


def check_calls(env, src, tt, st, i0, label):
    """one call per step; the order of the two directions does not matter"""
    for seq, sign in zip(runs(env, tt, st, i0), (1, -1)):
        exp = [(s, ds) for s, ds, _ in seq]
        got = [(np.asarray(s)[()], np.asarray(ds)[()])
               for s, ds in src.calls if bool(sign * ds > 0)]
        env.true(len(got) == len(exp), label + ' calls')
        for (s, ds), (u, du) in zip(got, exp):
            env.eq(s, u, label + ' start')
            env.eq(ds, du, label + ' length')
    env.true(all(bool(ds != 0) for _, ds in src.calls), 'no empty steps')


@scenario({'name': list(SPEC), 'key': list(LINES), 'getinfo': [True, False]})
def one_call_per_step(env, name, key, getinfo):
    tt, st, i0 = line(env, key)
    p, P, dw, dj = build(env, name, (), 1, 'scalar', steps=tuple(st) or None,
                         i0=i0, factors=2, getinfo=getinfo)
    p(np.array(tt))
    for s in (dw, dj):
        if s is not None:
            check_calls(env, s, tt, st, i0, s.name)
            del s.calls[:]
    p(np.array(tt))            # and again upon a second integration
    for s in (dw, dj):
        if s is not None:
            check_calls(env, s, tt, st, i0, s.name)


def equation(kind):
    if kind == 'all':
        return lambda t, x: {'dt': x, 'dw': x, 'dn': x, 'dj': x}
    if kind == 'system':
        return lambda t, x=1., y=1.: [{'dt': x, 'dw': y}, {'dn': x, 'dj': 1.}]
    return lambda t, x=1., y=1.: [{'dt': x, 'dn': y}, {'dn': x}]


@scenario({'kind': ['all', 'system', 'dn'], 'key': ['two', 'step', 'middle',
                                                   'back3']})
def user_equations(env, kind, key):
    tt, st, i0 = line(env, key)
    ids = {'dn'} if kind == 'dn' else {'dw', 'dn', 'dj'}
    srcs = {z: Src(env, z, () if kind == 'all' else (2,), 1) for z in ids}
    p = integrate(equation(kind))(dtype=env.dtype, i0=i0,
                                  steps=tuple(st) or None, **srcs)
    p(np.array(tt))
    for z in sorted(ids):
        check_calls(env, srcs[z], tt, st, i0, z)


# sources built internally: same as giving the documented source

def preset(env, name, vs, tt, st, i0, **kw):
    cls, pars, inits = SPEC[name]
    init = {k: 2 for k in inits}
    # constant parameters: the noise enters the result injectively
    return cls(paths=kw.pop('paths'), vshape=vs, dtype=env.dtype, i0=i0,
               steps=tuple(st) or None, **init, **kw)


def same(env, a, b):
    a = a if isinstance(a, tuple) else (a,)
    b = b if isinstance(b, tuple) else (b,)
    for u, v in zip(a, b):
        env.shape(u.x, v.x.shape, 'shape')
        env.eq(u.x, v.x, 'same as with the documented source')


def other(env, name, vs, paths):
    return dict(dj=Src(env, 'j', vs, paths)) if name in JUMP else {}


def correl(env, form, n):
    """(arguments, number of components)"""
    if form == 'none' or n < 2:
        return {}
    r = env.real('r')
    env.assume(r > -1)
    env.assume(r < 1)
    f = env.func('f')
    eye = np.eye(n)

    def mat(v):
        m = env.obj((n, n))
        for i in range(n):
            for j in range(n):
                m[i, j] = 1 if i == j else v if i + j == n - 1 else 0
        return m
    if form == 'corr':
        return dict(corr=mat(r))
    if form == 'corr_fun':
        return dict(corr=lambda t: mat(f(t)))
    if form == 'rho':
        return dict(rho=r if n == 2 else env.arr('rh', (n // 2,), lo=-1,
                                                 hi=1))
    return dict(rho=lambda t: f(t))


@scenario({'name': list(SPEC), 'form': ['none', 'corr', 'rho', 'rho_fun'],
           'how': ['none', 'class'], 'vs': [(2,)], 'key': ['two', 'step',
                                                           'back']})
def wiener_built(env, name, form, how, vs, key):
    if name in ('hw', 'full_heston', 'heston'):
        vs = ()
    wiener(env, name, form, how, vs, key, 1)


@scenario({'name': ['wiener', 'hw', 'heston', 'merton'],
           'vs': [(), (1,), (2,), (2, 1), (1, 2)], 'paths': [1, 2, 3],
           'how': ['none', 'class']})
def wiener_shapes(env, name, vs, paths, how):
    wiener(env, name, 'none', how, vs, 'two', paths)


def wiener(env, name, form, how, vs, key, paths):
    tt, st, i0 = line(env, key)
    factors = 2
    ws = wshape(name, vs, factors)
    kw = correl(env, form, ws[-1] if ws else 1)
    more = dict(factors=factors) if name == 'hw' else {}
    given = {} if how == 'none' else dict(dw=I.wiener_source)
    a = preset(env, name, vs, tt, st, i0, rng=env.rng('z'), paths=paths,
               **given, **kw, **more, **other(env, name, ws, paths))
    d = a.sources['dw']
    env.true(isinstance(d, I.wiener_source), 'a wiener source')
    env.true(d.paths == paths and tuple(d.vshape) == ws, 'its shape')
    src = I.wiener_source(paths=paths, vshape=ws, rng=env.rng('z'),
                          dtype=env.dtype, **kw)
    b = preset(env, name, vs, tt, st, i0, dw=src, paths=paths, **more,
               **other(env, name, ws, paths))
    t = np.array(tt)
    same(env, a(t), b(t))
    same(env, a(t), b(t))      # the generator is not restarted


@scenario({'kind': ['merton', 'kou', 'jumpdiff', 'dj', 'dn'],
           'how': ['none', 'class', 'dn class', 'dn source'],
           'sh': [((), 1), ((2,), 1), ((), 2)],
           'form': ['scalar', 'v', 'p', 'fun'], 'key': ['two']},
          thorough={'key': ['two', 'step', 'back']})
def jumps_built(env, kind, how, sh, form, key):
    vs, paths = sh
    env.pois_max = 1
    tt, st, i0 = line(env, key)
    shape = dict(scalar=(), v=vs + (1,), p=(paths,), fun=())[form]
    if form == 'fun':
        f = env.func('lam', 'pos')
        lam = lambda t: f(t)
    else:
        lam = env.arr('lam', shape, nonneg=True)
        lam = lam[()] if shape == () else lam
    kw = dict(paths=paths, vshape=vs, dtype=env.dtype)
    law = {}
    y = None
    if kind == 'merton':
        law = dict(a=env.real('a'), b=env.real('b', pos=True))
        y = I.norm_rv(**law)
    elif kind == 'kou':
        law = dict(a=env.real('a', pos=True), b=env.real('b', pos=True),
                   pa=.25)
        y = I.double_exp_rv(**law)
    elif kind != 'dn':
        y = Jumps(env.real('a'))
        law = dict(y=y)
    if how == 'dn class':
        law['dn'] = I.poisson_source
    if how == 'dn source':
        law['dn'] = I.poisson_source(paths=paths, vshape=vs, lam=lam,
                                     rng=env.rng('n'))
    a, b = env.rng('z'), env.rng('z')
    if kind == 'dn':
        cls = integrate(lambda t, x: {'dn': 1.})
        if how == 'none':
            g = {}
        elif how in ('class', 'dn class'):
            g = dict(dn=I.poisson_source)
        else:
            g = dict(dn=I.poisson_source(paths=paths, vshape=vs, lam=lam,
                                         rng=a))
        p = cls(rng=a, lam=lam, **kw, **g)
        q = cls(dn=I.poisson_source(paths=paths, vshape=vs, lam=lam, rng=b),
                **kw)
    else:
        if kind == 'dj':
            cls = integrate(lambda t, x: {'dj': 1.})
            extra = {}
        else:
            cls = SPEC[kind][0]
            extra = dict(dw=Src(env, 'w', vs, paths))
        if how == 'class':
            law['dj'] = I.cpoisson_source
        p = cls(rng=a, lam=lam, **law, **kw, **extra)
        d = p.sources['dj']
        env.true(isinstance(d, I.cpoisson_source), 'a compound source')
        env.true(d.paths == paths and tuple(d.vshape) == vs, 'its shape')
        dn = law.get('dn')
        if how == 'dn source':
            dn = I.poisson_source(paths=paths, vshape=vs, lam=lam,
                                  rng=env.rng('n'))
        q = cls(dj=I.cpoisson_source(
            paths=paths, vshape=vs, lam=lam, y=y, rng=b, dtype=env.dtype,
            dn=dn), **kw, **extra)
    same(env, p(np.array(tt)), q(np.array(tt)))


@scenario({'name': ['wiener', 'merton', 'heston'], 'vs': [(), (2,)]})
def default_generator(env, name, vs):
    """with no generator given, the package default one is used"""
    tt, st, i0 = line(env, 'two')
    ws = wshape(name, vs)
    kw = dict(paths=1, **other(env, name, ws, 1))
    old = I.default_rng
    try:
        I.default_rng = env.rng('z')
        a = preset(env, name, vs, tt, st, i0, **kw)(np.array(tt))
    finally:
        I.default_rng = old
    b = preset(env, name, vs, tt, st, i0, rng=env.rng('z'), **kw)(
        np.array(tt))
    same(env, a, b)


# sources given as instances drive the process with their values

ROOT = ('cir', 'heston', 'full_heston')     # square roots of the state


@scenario({'case': [(n, k) for n in SPEC for k in ('two', 'step', 'back')
                    if k != 'step' or n not in ROOT]})
def process_as_source(env, case):
    name, key = case
    vs = (2,) if name in ('wiener', 'cir') else ()
    tt, st, i0 = line(env, key)
    ws = wshape(name, vs, 2)
    paths = 2 if ws == () else 1
    u = env.times('u', 2)
    x = env.arr('w', (2,) + ws + (paths,))
    w = sdepy.process(u, x=x)

    def at(i, t):
        if bool(t <= u[0]):
            return x[(0,) + i]
        if bool(t >= u[1]):
            return x[(1,) + i]
        return x[(0,) + i] + (x[(1,) + i] - x[(0,) + i]) * (
            t - u[0]) / (u[1] - u[0])
    J = Src(env, 'j', ws, paths)
    src = dict(dw=w, **(dict(dj=J) if name in JUMP else {}))
    p, P, _, _ = build(env, name, vs, paths, 'scalar', i0=i0, factors=2,
                       steps=tuple(st) or None, src=src)
    compare(env, p(np.array(tt)), reference(
        env, name, vs, paths, tt, st, i0, P,
        lambda i, s, ds: at(i, s + ds) - at(i, s), J.at, factors=2), tt)


@scenario({'name': ['wiener', 'lognorm', 'cir', 'hw', 'jumpdiff'],
           'ws': [(), (1,), (2,), (1, 1), (1, 2), (2, 1)]})
def smaller_source(env, name, ws):
    """sources of a shape that broadcasts to the one needed are shared by
    the components"""
    need = {'hw': (2, 2)}.get(name, (2, 2))
    vs = (2,) if name == 'hw' else (2, 2)
    tt, st, i0 = line(env, 'two')
    w = Src(env, 'w', ws, 1)
    J = Src(env, 'j', vs, 1)
    src = dict(dw=w, **(dict(dj=J) if name in JUMP else {}))
    p, P, _, _ = build(env, name, vs, 1, 'scalar', i0=i0, factors=2, src=src)

    def W(i, s, ds):
        c = i[:-1][len(i) - 1 - len(ws):]
        return w.at(tuple(0 if n == 1 else k for k, n in zip(c, ws)) + (
            i[-1],), s, ds)
    compare(env, p(np.array(tt)), reference(
        env, name, vs, 1, tt, st, i0, P, W, J.at, factors=2), tt)


@scenario({'case': [(n, k) for n in ('wiener', 'lognorm', 'heston')
                    for k in ('two', 'step', 'back')
                    if k != 'step' or n not in ROOT],
           'how': ['instance', 'class']})
def antithetic(env, case, how):
    name, key = case
    tt, st, i0 = line(env, key)
    ws = wshape(name, ())
    src = I.odd_wiener_source(paths=2, vshape=ws, rng=env.rng('z'),
                              dtype=env.dtype)
    half = I.wiener_source(paths=1, vshape=ws, rng=env.rng('z'),
                           dtype=env.dtype)
    vals = {}
    seqs = [(s, ds) for q in runs(env, tt, st, i0) for s, ds, _ in q]
    for s, ds in seqs:
        vals[len(vals)] = (s, ds, half(s, ds))

    def W(i, s, ds):
        for u, du, v in vals.values():
            if u is s or bool(u == s):
                return v[i[:-1] + (0,)] * (1 if i[-1] == 0 else -1)
    kw = dict(dw=src) if how == 'instance' else dict(
        dw=I.odd_wiener_source, rng=env.rng('z'))
    p, P, _, _ = build(env, name, (), 2, 'scalar', i0=i0, src={},
                       steps=tuple(st) or None, **kw)
    compare(env, p(np.array(tt)), reference(
        env, name, (), 2, tt, st, i0, P, W, None), tt)


@scenario({'how': ['instance', 'class'], 'key': ['two', 'step', 'middle']})
def with_memory(env, how, key):
    """a source with memory given as a class is built like any other"""
    tt, st, i0 = line(env, key)
    kw = dict(dw=I.true_wiener_source, rng=env.rng('z')) if \
        how == 'class' else dict(dw=I.true_wiener_source(
            paths=1, rng=env.rng('z'), dtype=env.dtype))
    p, P, _, _ = build(env, 'wiener', (), 1, 'scalar', i0=i0, src={},
                       steps=tuple(st) or None, **kw)
    w = p.sources['dw']
    env.true(isinstance(w, I.true_wiener_source), 'class')
    r = p(np.array(tt))
    env.eq(r.x, reference(
        env, 'wiener', (), 1, tt, st, i0, P,
        lambda i, s, ds: w(s + ds)[i] - w(s)[i], None)[0], 'driven by it')


class Recorded:
    """a class given as a source: keeps the arguments it is built with"""

    def __init__(self, **kw):
        self.kw = kw
        self.paths, self.vshape = kw['paths'], kw['vshape']

    def __call__(self, t, dt):
        return np.zeros(self.vshape + (self.paths,))


@scenario({'id': ['dw', 'dn', 'dj'], 'vs': [(), (2,)], 'q': [0, 2]})
def class_arguments(env, id, vs, q):
    """a class given for a source is instantiated with paths, shape,
    generator and the parameters of that source"""
    r = env.rng('z')
    one = {'dt': 1., id: 1.}
    cls = integrate((lambda t, x: one) if q == 0 else
                    (lambda t, x=1., y=1.: [one, one]))
    ws = vs if q == 0 else (2,) if vs == () else (4,)
    a = env.real('a')
    par = dict(dw=dict(corr=a, rho=2 * a), dn=dict(lam=a, ptype=float),
               dj=dict(lam=a, ptype=float, y=Jumps()))[id]
    p = cls(paths=3, vshape=vs, rng=r, dtype=env.dtype, **{id: Recorded},
            **par)
    s = p.sources[id]
    env.true(isinstance(s, Recorded), 'instantiated')
    env.true(s.paths == 3 and tuple(s.vshape) == ws, 'shape')
    env.true(s.kw['rng'] is r, 'generator')
    if id == 'dw':
        env.eq(s.kw['corr'], a, 'corr')
        env.eq(s.kw['rho'], 2 * a, 'rho')
    else:
        env.eq(s.kw['lam'], a, 'lam')
    if id == 'dn':
        env.true(s.kw['dtype'] is float, 'type of counts')
    if id == 'dj':
        env.true(s.kw['ptype'] is float, 'type of counts')
        env.true(s.kw['y'] is par['y'], 'jumps')


@scenario({'name': list(SPEC), 'bad': ['paths', 'one path', 'shape', 'more',
                                       'number', 'function', 'no paths']})
def rejects(env, name, bad):
    vs = (2,)
    ws = wshape(name, vs, 2)
    paths = 3
    for id in ('dw', 'dj') if name in JUMP else ('dw',):
        if bad == 'paths':
            s = Src(env, 's', ws, 2)
        elif bad == 'one path':
            s = Src(env, 's', ws, 1)
        elif bad == 'shape':
            s = Src(env, 's', ws[:-1] + (3,), paths)
        elif bad == 'more':
            s = Src(env, 's', (2,) + ws, paths)
        elif bad == 'number':
            s = env.real('s' + id)
        elif bad == 'function':
            s = lambda t, dt: dt
        else:
            s = lambda t, dt: dt
            s.vshape = ws
        kw = dict(factors=2) if name == 'hw' else {}
        env.raises(ValueError, lambda: SPEC[name][0](
            paths=paths, vshape=vs, dtype=env.dtype, **{id: s}, **kw), bad)


@scenario({'where': ['dn', 'dj', 'dn in dj', 'custom shape']})
def rejects_jumps(env, where):
    s = [Src(env, 's', (2,), 2), Src(env, 's', (3,), 1), lambda t, dt: dt]
    for x in s:
        if where == 'dn':
            f = lambda: integrate(lambda t, x: {'dn': 1.})(
                vshape=(2,), paths=1, dn=x, dtype=env.dtype)
        elif where == 'dj':
            f = lambda: integrate(lambda t, x: {'dj': 1.})(
                vshape=(2,), paths=1, dj=x, dtype=env.dtype)
        elif where == 'dn in dj':
            f = lambda: I.cpoisson_source(vshape=(2,), paths=1, dn=x,
                                          dtype=env.dtype)
        else:
            f = lambda: integrate(lambda t, x=1., y=1.: [
                {'dw': 1.}, {'dw': 1.}])(vshape=(2,), paths=1, dw=x,
                                         dtype=env.dtype)
        env.raises(ValueError, f, where)
