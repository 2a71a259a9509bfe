import numpy as np
import sdepy
from symx.runner import scenario
from .presets import (SPEC, LOG, JUMP, LINES, SHORT, build, reference, compare,
                      line)

BOUNDS = ('timelines of 1-3 increasing reals, with up to 1 arbitrary '
          'intermediate step, starting at the first, last or a middle '
          'point; value shapes (), (2,) (thorough also (1,), (2,1)); 1-2 '
          'paths; 1-3 factors; constant parameters, scalar, per component, '
          'per path or both; arbitrary source increments')
ASSUMPTIONS = ['floats: underflow and overflow of exponentials are out of '
               'scope']

SMALL = ['two', 'step', 'back', 'middle']
FORMS = ['scalar', 'comp', 'path', 'full', 'list', ('scalar', 'comp', 'path')]


def run(env, name, vs, paths, key, forms, factors=1):
    tt, st, i0 = line(env, key)
    p, P, dw, dj = build(env, name, vs, paths, forms, factors,
                         steps=tuple(st) or None, i0=i0)
    res = p(np.array(tt))
    ref = reference(env, name, vs, paths, tt, st, i0, P,
                    lambda i, s, ds: dw.at(i[:-1] + (i[-1],), s, ds),
                    (lambda i, s, ds: dj.at(i, s, ds)) if dj else None,
                    factors)
    compare(env, res, ref, tt)
    if name in LOG or 'heston' in name:
        x = res[0] if isinstance(res, tuple) else res
        env.lt(0, x.x, 'positive')


@scenario({'case': [(k, n) for k in SPEC if k != 'hw' for n in (
    SHORT if k in ('cir', 'heston', 'full_heston') else LINES)],
           'vs': [()]})
def timelines(env, case, vs):
    name, key = case
    run(env, name, vs, 1, key, 'scalar')


@scenario({'name': [k for k in SPEC if k != 'hw'], 'forms': FORMS,
           'key': ['two'], 'vs': [(2,)]},
          thorough={'vs': [(1,), (2,), (2, 1)], 'key': ['two', 'back']})
def parameters(env, name, forms, key, vs):
    run(env, name, vs, 2, key, forms)


@scenario({'name': ['heston', 'full_heston', 'hw', 'wiener', 'cir'],
           'vs': [(1, 2), (2, 1), (2, 2)], 'forms': ['scalar', 'full']})
def axes(env, name, vs, forms):
    """more than one axis of values"""
    run(env, name, vs, 1, 'two', forms, 2 if name == 'hw' else 1)


@scenario({'key': list(LINES), 'factors': [1, 2, 3], 'vs': [()]},
          thorough={'factors': [1, 2, 3], 'vs': [(), (2,)]})
def factors(env, key, factors, vs):
    run(env, 'hw', vs, 1, key, 'comp', factors)


@scenario({'forms': FORMS, 'vs': [(), (2,)], 'factors': [2, 3]},
          thorough={'factors': [1, 2, 3, 4]})
def factors_parameters(env, forms, vs, factors):
    run(env, 'hw', vs, 2, 'two', forms, factors)


@scenario({'name': [k for k in SPEC if k not in JUMP]})
def default_values(env, name):
    """documented defaults of parameters and initial values"""
    cls, pars, inits = SPEC[name]
    want = dict(mu=0, sigma=1, theta=1 if name in (
        'cir', 'full_heston', 'heston') else 0, k=1, xi=1, y0=1,
        x0=0 if name in ('wiener', 'ou', 'hw', 'hw1f') else 1)
    tt, st, i0 = line(env, 'two')
    from .doubles import Src
    from .presets import wshape, Par
    vs = ()
    w = Src(env, 'w', wshape(name, vs), 1)
    p = cls(dw=w, dtype=env.dtype)
    res = p(np.array(tt))
    P = Par(env, (), 1)
    for n in list(pars) + list(inits):
        P.val[n] = lambda c, p, t, v=want[n]: v
    compare(env, res, reference(env, name, vs, 1, tt, st, i0, P, w.at, None),
            tt)


def params(name):
    cls, pars, inits = SPEC[name]
    return list(pars) + list(inits)


@scenario({'case': [(k, n) for k in SPEC for n in params(k)]})
def one_default(env, case):
    """documented default of one, any values for all the others"""
    from .doubles import Src
    from .presets import wshape, Par
    name, left = case
    cls, pars, inits = SPEC[name]
    want = dict(mu=0, sigma=1, theta=1 if name in (
        'cir', 'full_heston', 'heston') else 0, k=1, xi=1, y0=1,
        x0=0 if name in ('wiener', 'ou', 'hw', 'hw1f') else 1)[left]
    tt, st, i0 = line(env, 'two')
    vs = ()
    P = Par(env, wshape(name, vs) if name == 'hw' else vs, 1)
    for n, q in list(pars.items()) + list(inits.items()):
        if n == left:
            P.val[n] = lambda c, p, t: want
        else:
            P.add(n, 'scalar', **q)
    src = dict(dw=Src(env, 'w', wshape(name, vs), 1))
    if name in JUMP:
        src['dj'] = Src(env, 'j', vs, 1)
    p = cls(dtype=env.dtype, **src, **P.args)
    compare(env, p(np.array(tt)), reference(
        env, name, vs, 1, tt, st, i0, P, src['dw'].at,
        src['dj'].at if name in JUMP else None), tt)


@scenario({'name': JUMP})
def default_jumps(env, name):
    from .doubles import Src
    tt, st, i0 = line(env, 'two')
    w, j = Src(env, 'w', (), 1), Src(env, 'j', (), 1)
    p = SPEC[name][0](dw=w, dj=j, dtype=env.dtype)
    res = p(np.array(tt))
    h = tt[1] - tt[0]
    env.eq(res.x[0], [1], 'initial value')
    env.eq(res.x[1], [env.exp(-h / 2 + w.at((0,), tt[0], h) +
                              j.at((0,), tt[0], h))], 'value')
