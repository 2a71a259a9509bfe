import numpy as np
import sdepy
from symx.runner import scenario
from .presets import SPEC, JUMP, build, reference, compare, line

BOUNDS = ('parameters as arbitrary functions of time (scalar, per '
          'component, per path, both, as arrays or plain numbers, failing at '
          'the probing time 1), as processes with 1-2 arbitrary nodes, '
          'mixed with constants; timelines of 2-3 points with up to 1 '
          'intermediate step, forward and backward; value shapes (), (2,), '
          '1-2 paths, 1-2 factors; initial values per component and path')
ASSUMPTIONS = []

FORMS = ['fun', 'fun_comp', 'fun_path', 'fun_full', 'process',
         'process_full', 'process_const', ('fun', 'scalar', 'fun_comp'),
         ('path', 'process_const', 'fun_full')]
HESTON = ('heston', 'full_heston')


def run(env, name, vs, paths, key, forms, factors=1, init=None, tweak=None):
    tt, st, i0 = line(env, key)
    p, P, dw, dj = build(env, name, vs, paths, forms, factors, init=init,
                         steps=tuple(st) or None, i0=i0)
    res = p(np.array(tt))
    compare(env, res, reference(
        env, name, vs, paths, tt, st, i0, P, dw.at, dj.at if dj else None,
        factors), tt)


@scenario({'name': [k for k in SPEC if k not in HESTON],
           'key': ['three', 'back3', 'step'],
           'forms': ['fun', 'fun_full', ('fun', 'scalar', 'fun_path')]},
          thorough={'key': ['three', 'back3', 'step', 'middle',
                            'middlestep', 'backstep'], 'forms': FORMS})
def each_step(env, name, key, forms):
    run(env, name, (), 2 if name != 'cir' or env.thorough else 1, key, forms)


@scenario({'name': HESTON, 'key': ['three', 'back3'], 'forms': ['fun']},
          thorough={'key': ['three', 'back3', 'step', 'middle',
                            'backstep']})
def each_step_heston(env, name, key, forms):
    run(env, name, (), 1, key, forms)


@scenario({'name': list(SPEC), 'forms': FORMS})
def components(env, name, forms):
    """two components and two paths, one step"""
    if 'process' in str(forms) and name in HESTON and not env.thorough:
        run(env, name, (2,), 2, 'two', ('process', 'fun', 'scalar'))
    else:
        run(env, name, (2,), 2, 'two', forms, 2)


@scenario({'name': list(SPEC), 'init': ['comp', 'path', 'full', 'list'],
           'key': ['two', 'back']})
def initial_values(env, name, init, key):
    run(env, name, (2,), 2, key, 'scalar', 2, init=init)


@scenario({'name': [k for k in SPEC if k not in HESTON],
           'kind': ['number', 'list', 'tuple'],
           'test': ['fails', 'number', 'list']})
def probing(env, name, kind, test):
    """functions returning plain numbers or lists, failing at time 1, or
    returning there values of another shape"""
    from .presets import Par, wshape
    from .doubles import Src
    cls, pars, inits = SPEC[name]
    tt = list(env.times('t', 3))
    for t in tt:
        env.assume(t != 1)
    ws = wshape(name, (2,), 2)
    P = Par(env, ws if name == 'hw' else (2,), 1)
    args = {}
    for n, q in inits.items():
        P.add(n, 'scalar', **q)
    for n, q in pars.items():
        P.add(n, 'fun_comp' if kind != 'number' else 'fun', **q)

        def f(t, g=P.args[n]):
            if isinstance(t, float) and t == 1.:
                if test == 'fails':
                    raise ZeroDivisionError
                return 1. if test == 'number' else [[1.]]
            x = g(t)
            return x if kind == 'number' else x.tolist() if \
                kind == 'list' else tuple(x)
        P.args[n] = f
    args.update(P.args)
    if name == 'hw':
        args['factors'] = 2
    dw = Src(env, 'w', ws, 1)
    dj = Src(env, 'j', ws, 1) if name in JUMP else None
    if dj:
        args['dj'] = dj
    if name == 'cir':
        tt = tt[:2]
    p = cls(vshape=2, dtype=env.dtype, dw=dw, **args)
    compare(env, p(np.array(tt)), reference(
        env, name, (2,), 1, tt, [], 0, P, dw.at, dj.at if dj else None, 2),
        tt)


@scenario({'name': list(SPEC)})
def deterministic_process(env, name):
    """a time constant process given as a parameter is the constant"""
    tt, st, i0 = line(env, 'two')
    cls, pars, inits = SPEC[name]
    from .presets import wshape
    from .doubles import Src
    c = {n: env.real(n, **q) for n, q in pars.items()}
    x = {n: env.real(n, **q) for n, q in inits.items()}
    mk = lambda a: cls(dw=Src(env, 'w', wshape(name, ()), 2), paths=2,
                       dtype=env.dtype, **a, **x, **(dict(
                           dj=Src(env, 'j', (), 2)) if name in JUMP else {}))
    a = mk(c)(np.array(tt))
    b = mk({n: sdepy.process(c=v) for n, v in c.items()})(np.array(tt))
    for u, v in zip(a if isinstance(a, tuple) else (a,),
                    b if isinstance(b, tuple) else (b,)):
        env.eq(u.x, v.x, 'same values')
