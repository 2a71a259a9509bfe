import numpy as np
import sdepy
from sdepy import kfunc, iskfunc, integrate
from sdepy import integration as I, infrastructure as S
from symx.runner import scenario
from .exact import Noise

BOUNDS = ('functions of one or two variables (the last with or without '
          'default) and two or three parameters, callable classes with two '
          'parameters or arbitrary ones and subclasses, preset and user '
          'defined processes, sources; '
          'chains of one to three calls, each giving any subset of the '
          'parameters, with variables positional, by keyword or mixed, then '
          'siblings of each object; all real values')
ASSUMPTIONS = ['parameters are keyword-only and variables required where no '
               'default is declared']


def f1(x, *, a=1, b=2, c=3):
    return x, a, b, c


def f2(x, y, *, a=1, b=2):
    return x, y, a, b


def fd(x, y=5, *, a=1, b=2):
    return x, y, a, b


class K:
    def __init__(self, *, a=1, b=2):
        self.a, self.b = a, b

    def __call__(self, x, y):
        return x, y, self.a, self.b


class KD:
    """given parameters only are stored"""

    def __init__(self, *, a=1, **args):
        self.args_ = dict(args, a=a)

    def __call__(self, x, y=5):
        return x, y, self.args_['a'], self.args_.get('b', 2)


class KW:
    """a keyword only variable"""

    def __init__(self, *, a=1, b=2):
        self.a, self.b = a, b

    def __call__(self, x, *, y=5):
        return x, y, self.a, self.b


def sub():
    base = kfunc(K)

    class L(base):
        def __init__(self, *, a=1, b=2, c=7):
            super().__init__(a=a, b=b)
            self.c = c

        def __call__(self, x, y):
            return super().__call__(x, y) + (self.c,)
    return kfunc(L)


# object, names of variables and of parameters, with their defaults
SUBJECTS = {
    'f1': (lambda: kfunc(nvar=1)(f1), 'x', dict(a=1, b=2, c=3)),
    'f2': (lambda: kfunc(nvar=2)(f2), 'xy', dict(a=1, b=2)),
    'fd': (lambda: kfunc(nvar=2)(fd), 'xy', dict(a=1, b=2)),
    'K': (lambda: kfunc(K), 'xy', dict(a=1, b=2)),
    'KD': (lambda: kfunc(KD), 'xy', dict(a=1, b=2)),
    'KW': (lambda: kfunc(KW), 'xy', dict(a=1, b=2)),
    'L': (sub, 'xy', dict(a=1, b=2, c=7)),
}
MODES = ['args', 'kw', 'mixed', 'default']


def variables(env, name, names, mode, tag):
    """positional and keyword variables, and their values"""
    v = [env.real(n + tag) for n in names]
    if mode == 'default' and name in ('fd', 'KD', 'KW'):
        return v[:1], {}, [v[0], 5]
    if mode == 'args' and name != 'KW':
        return v, {}, v
    if mode == 'kw':
        return [], dict(zip(names, v)), v
    return v[:1], dict(zip(names[1:], v[1:])), v


def subset(env, pars, tag, empty=True):
    """any subset of the parameters, with arbitrary values"""
    P = {n: env.real(n + tag) for n in pars if env.bool(n + '_given' + tag)}
    if not empty and not P:
        n = list(pars)[0]
        P = {n: env.real(n + tag)}
    return P


def same(env, got, want, label):
    env.true(isinstance(got, tuple) and len(got) == len(want), label)
    for g, w in zip(got, want):
        env.eq(g, w, label)


class Chain:
    """objects derived so far and the parameters they should hold"""

    def __init__(self, env, name):
        self.env, self.name = env, name
        mk, self.vars, self.defaults = SUBJECTS[name]
        self.cls, self.objs = mk(), []

    def add(self, obj, par):
        self.env.true(iskfunc(obj) and isinstance(obj, self.cls),
                      'gives an object of the same kind')
        self.objs.append((obj, par))
        self.check(obj, par)

    def check(self, obj, par):
        env = self.env
        got = obj.params
        want = dict(self.defaults, **par)
        if self.name == 'KD' and 'b' not in par:
            del want['b']          # not declared
        env.true(set(got) == set(want), 'names of the parameters')
        for k in want:
            env.eq(got[k], want[k], 'reported parameter')

    def value(self, par, v):
        return list(v) + [dict(self.defaults, **par)[k]
                          for k in self.defaults]

    def unchanged(self):
        for j, (obj, par) in enumerate(self.objs):
            self.check(obj, par)
            a, k, v = variables(self.env, self.name, self.vars, 'mixed',
                                'u%d' % j)
            same(self.env, obj(*a, **k), self.value(par, v),
                 'earlier objects are unchanged')


@scenario({'name': list(SUBJECTS), 'mode': MODES, 'n': [0, 1, 2]},
          thorough={'name': list(SUBJECTS), 'mode': MODES, 'n': [0, 1, 2, 3]})
def chain(env, name, mode, n):
    """n objects, each derived from the previous, then an evaluation"""
    C = Chain(env, name)
    obj, par = C.cls, {}
    for j in range(n):
        P = subset(env, C.defaults, str(j), empty=j == 0)
        obj = obj(**P)
        par = dict(par, **P)
        C.add(obj, par)
    a, k, v = variables(env, name, C.vars, mode, '')
    P = subset(env, C.defaults, 'last')
    same(env, obj(*a, **k, **P), C.value(dict(par, **P), v), 'value')
    C.unchanged()


@scenario({'name': list(SUBJECTS), 'deep': [False, True]})
def siblings(env, name, deep):
    """objects derived from the same one are independent"""
    C = Chain(env, name)
    P = subset(env, C.defaults, '')
    obj = C.cls(**P)
    C.add(obj, P)
    Q, R = (subset(env, C.defaults, t, empty=False) for t in 'qr')
    first = obj(**Q)
    C.add(first, dict(P, **Q))
    C.add((first if deep else obj)(**R), dict(dict(P, **Q) if deep else P,
                                             **R))
    # one more from the class itself
    C.add(C.cls(**R), R)
    C.unchanged()


@scenario({'name': list(SUBJECTS)})
def reported_parameters_are_copies(env, name):
    C = Chain(env, name)
    P = subset(env, C.defaults, '')
    obj = C.cls(**P)
    C.add(obj, P)
    d = obj.params
    for k in list(d):
        d[k] = 99
    d['other'] = 1
    given = dict(P)
    C.add(C.cls(**given), P)
    given.clear()
    C.unchanged()


@scenario({'name': list(SUBJECTS), 'n': [0, 1]})
def no_stale_state(env, name, n):
    """repeated evaluations with overrides do not accumulate"""
    C = Chain(env, name)
    obj, par = C.cls, {}
    if n:
        par = subset(env, C.defaults, '')
        obj = obj(**par)
    for j in range(2):
        Q = subset(env, C.defaults, 'q%d' % j)
        a, k, v = variables(env, name, C.vars, MODES[j], str(j))
        same(env, obj(*a, **k, **Q), C.value(dict(par, **Q), v), 'value')


# ---------------------------------------------------------------- processes

def user():
    def sde(t, x, *, mu=1., sigma=2.):
        return {'dt': mu * x, 'dw': sigma * x}
    return integrate(sde)


def cls_sde():
    class my(I.SDE, I.integrator):
        def sde(self, t, x, *, mu=1., sigma=2.):
            return {'dt': mu, 'dw': sigma * x}
    return my


PROC = {'wiener': lambda: I.wiener_process, 'lognorm':
        lambda: I.lognorm_process, 'user': user, 'class': cls_sde,
        'hw': lambda: I.hull_white_process}


def pvals(env, name, tag, subset_of=('mu', 'sigma', 'x0')):
    if name == 'hw':
        subset_of = ['theta' if n == 'mu' else n for n in subset_of]
    return {n: env.real(n + tag, pos=True) for n in subset_of
            if env.bool(n + '_given' + tag)}


def line(env):
    t = env.obj(3)
    for i, x in enumerate(env.times('t', 3)):
        t[i] = x
    return t


def run(env, cls, t, par, common):
    return cls(**dict(common, **par))(t)


@scenario({'name': list(PROC), 'mode': ['args', 'kw'], 'n': [0, 1, 2]})
def processes(env, name, mode, n):
    base = PROC[name]()
    cls = kfunc(base)
    common = dict(paths=1, dtype=env.dtype, x0=3.,
                  dw=Noise([env.real('z')]))
    t = line(env)
    obj, par, objs = cls, {}, []
    for j in range(n):
        P = pvals(env, name, str(j), ('mu', 'sigma') if j else (
            'sigma', 'x0'))
        obj = obj(**(dict(common, **P) if j == 0 else P or {'steps': None}))
        par = dict(par, **P)
        objs.append((obj, dict(par)))
        env.true(iskfunc(obj) and isinstance(obj, base), 'an instance')
        reported(env, base, obj, dict(common, **par))
    P = pvals(env, name, 'last', ('sigma',) if n else ('mu', 'x0'))
    Q = P if n else dict(common, **P)
    r = obj(t, **Q) if mode == 'args' else obj(timeline=t, **Q)
    eq(env, r, run(env, base, t, dict(par, **P), common), 'values')
    for obj, par in objs:
        reported(env, base, obj, dict(common, **par))
        eq(env, obj(t), run(env, base, t, par, common),
           'earlier objects are unchanged')


@scenario({'name': list(PROC), 'deep': [False, True],
           'same': [True, False]})
def process_siblings(env, name, deep, same):
    """objects derived from the same one, with the same or other parameters
    overridden, are independent"""
    base = PROC[name]()
    cls = kfunc(base)
    drift = 'theta' if name == 'hw' else 'mu'
    a, b, c = [env.real(k, pos=True) for k in 'abc']
    common = dict(paths=1, dtype=env.dtype, x0=3.,
                  dw=Noise([env.real('z')]))
    t = line(env)
    top = cls(**common)
    first = top(**{drift: a})
    second = (first if deep else top)(**{drift if same else 'sigma': b})
    third = (first if deep else top)(**{drift if same else 'sigma': c})
    pars = [{}, {drift: a}]
    for v in (b, c):
        pars.append(dict(pars[1] if deep else {},
                         **{drift if same else 'sigma': v}))
    for k, (obj, par) in enumerate(zip((top, first, second, third), pars)):
        reported(env, base, obj, dict(common, **par))
        eq(env, obj(t), run(env, base, t, par, common), 'independent')


class Counter:
    """counts the evaluations"""

    def __init__(self, *, a=1, b=2):
        self.a, self.b, self.n = a, b, 0

    def __call__(self, x):
        self.n += 1
        return x, self.a, self.b, self.n


@scenario({'given': [('a',), ('b',), ('a', 'b')],
           'then': [('a',), ('b',), ('a', 'b')], 'value': ['same', 'new'],
           'kw': [False, True]})
def state_is_not_shared(env, given, then, value, kw):
    """overriding a parameter, even with the very value it has, leaves the
    object alone and starts from a fresh one"""
    cls = kfunc(Counter)
    P = {k: env.real(k) for k in given}
    obj = cls(**P)
    x = env.real('x')
    call = lambda o, **par: o(x=x, **par) if kw else o(x, **par)
    full = dict(dict(a=1, b=2), **P)
    want = lambda par, n: (x, par['a'], par['b'], n)
    same(env, call(obj), want(full, 1), 'first')
    same(env, call(obj), want(full, 2), 'second')
    Q = {k: full[k] if value == 'same' else env.real(k + 'q') for k in then}
    same(env, call(obj, **Q), want(dict(full, **Q), 1), 'a fresh object')
    same(env, call(obj), want(full, 3), 'the object is left alone')
    new = obj(**Q)
    same(env, call(new), want(dict(full, **Q), 1), 'a fresh object')
    same(env, call(new), want(dict(full, **Q), 2), 'second')
    same(env, call(obj), want(full, 4), 'the object is left alone')
    same(env, call(cls, **Q), want(dict(dict(a=1, b=2), **Q), 1),
         'from the class')


@scenario({'value': ['same', 'new']})
def source_memory_is_not_shared(env, value):
    """evaluating a source with memory with parameters overridden"""
    cls = kfunc(S.true_wiener_source)
    rng, t = env.rng(), env.times('t', 2, lo=1)
    p = dict(paths=2, rng=rng, dtype=env.dtype)
    a = cls(**p)
    x = a(t[0])
    n = a.size
    a(t[0], **(dict(paths=2) if value == 'same' else dict(paths=3)))
    env.true(len(rng.log) == 2, 'a new draw')
    env.true(a.size == n, 'the memory is left alone')
    env.eq(a(t[0]), x, 'same value')
    env.true(len(rng.log) == 2, 'no more draws')


@scenario({'kind': ['wiener', 'poisson', 'true']})
def source_siblings(env, kind):
    base = dict(wiener=S.wiener_source, poisson=S.poisson_source,
                true=S.true_wiener_source)[kind]
    key = 'lam' if kind == 'poisson' else 'rho'
    cls = kfunc(base)
    a, b = [env.real(k, pos=True, hi=1) for k in 'ab']
    top = cls(paths=2, vshape=(2,))
    objs = top(**{key: a}), top(**{key: b}), top(paths=3)
    for obj, v, n in zip((top,) + objs, (None, a, b, None), (2, 2, 2, 3)):
        env.true(obj.paths == n and obj.vshape == (2,), 'attributes')
        if v is not None:
            env.eq(np.asarray(obj.params[key]), v, 'reported')
            if kind == 'poisson':
                env.eq(np.asarray(obj.lam), v, 'in use')
            else:
                env.eq(obj.corr[0, 1], v, 'in use')
    env.true(objs[0] is not objs[1] and objs[0] is not top, 'new objects')


def eq(env, r, w, label):
    env.shape(r.x, w.x.shape, 'shape')
    env.eq(r.t, w.t, 'timeline')
    env.eq(r.x, w.x, label)


def reported(env, base, obj, par):
    """those given, and those in use"""
    got = obj.params
    ref = base(**par)
    for k, v in list(ref.args.items()) + [
            (k, v) for k, v in par.items() if k not in ref.args]:
        env.true(k in got, 'reports ' + k)
        if isinstance(v, (Noise, type(None), type)):
            env.true(got[k] is v, 'reported ' + k)
        else:
            env.eq(np.asarray(got[k]), np.asarray(v), 'reported ' + k)
    for k in ('paths', 'vshape', 'steps', 'i0'):
        env.true(k in got, 'reports ' + k)


# ------------------------------------------------------------------ sources

@scenario({'n': [0, 1, 2]})
def sources(env, n):
    cls = kfunc(S.wiener_source)
    t = line(env)
    a, b, r = (env.real(k, **w) for k, w in dict(
        a={}, b={}, r=dict(lo=-1, hi=1)).items())
    P = [dict(paths=2, vshape=(2,), dtype=env.dtype, rho=r),
         dict(paths=1), dict(rho=None, corr=None)]
    obj, par = cls, {}
    objs = []
    for j in range(n):
        par = dict(par, **P[j])
        obj = obj(**P[j])
        objs.append((obj, par))
    last = P[n] if n < 3 else {}
    got = obj(t[0], t[1], rng=env.rng('z'), **last)
    want = S.wiener_source(rng=env.rng('z'), **dict(par, **last))(t[0], t[1])
    env.shape(got, want.shape, 'shape')
    env.eq(got, want, 'values')
    for obj, par in objs:
        env.true(obj.paths == par['paths'] and obj.vshape == (2,),
                 'unchanged')
        env.true(obj.params['paths'] == par['paths'], 'unchanged')
        env.eq(obj.params['rho'], par['rho'], 'unchanged')
