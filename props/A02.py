import operator as op
import numpy as np
from sdepy.infrastructure import process
from symx.runner import scenario

BOUNDS = ('binary operators + - * / ** < <= maximum minimum, reflected and '
          'in-place forms, out=, unary - abs exp sqrt; timelines of 1-3 '
          'points with arbitrary real times (equal or not decided by the '
          'solver), up to 2 value axes of size 1-2, 1-3 paths')


def same_t(env, t, u):
    if len(t) != len(u):
        return False
    for a, b in zip(t, u):
        if not a == b:
            return False
    return True


def compat(s1, s2):
    return len(s1) == len(s2) and all(
        a == b or a == 1 or b == 1 for a, b in zip(s1, s2))


OPS = {'add': op.add, 'sub': op.sub, 'mul': op.mul, 'div': op.truediv,
       'max': np.maximum, 'lt': op.lt, 'le': op.le, 'min': np.minimum,
       'pow': op.pow, 'ge': op.ge}
PAIRS = [((), 2, (), 2), ((2,), 1, (2,), 2), ((2,), 2, (1,), 2),
         ((1,), 2, (2,), 1), ((), 2, (2,), 2), ((2,), 2, (2, 2), 2),
         ((2,), 2, (2,), 3), ((2,), 2, (3,), 2), ((), 1, (2,), 1)]
PAIRST = PAIRS + [((2, 2), 2, (2, 1), 1), ((2, 2), 2, (1, 2), 3),
                  ((2,), 2, (2, 1), 2), ((1,), 3, (), 3), ((2,), 3, (2,), 3),
                  ((1,), 1, (3,), 1), ((2, 1), 1, (1, 2), 2)]


@scenario({'n': [1, 2, 3], 'm': [1, 2, 3], 'pair': PAIRS,
           'o': [('add', 'div')]},
          thorough={'pair': PAIRST, 'o': [('add', 'div'), ('sub', 'mul'),
                                          ('max', 'pow'), ('lt', 'ge')]})
def pairs(env, n, m, pair, o):
    v1, p1, v2, p2 = pair
    t, u = env.times('t', n), env.times('u', m)
    x = env.arr('x', (n,) + v1 + (p1,), pos='pow' in o or 'div' in o)
    y = env.arr('y', (m,) + v2 + (p2,), pos=True)
    p, q = process(t, x=x), process(u, x=y)
    st = same_t(env, t, u)
    ok = (st or n == 1 or m == 1) and compat(x.shape[1:], y.shape[1:])
    for name in o:
        f = OPS[name]
        if name == 'pow':
            y2 = env.const(np.full(y.shape, 2))
            q = process(u, x=y2)
        else:
            y2 = y
        if not ok:
            env.raises(ValueError, lambda: f(p, q), 'incompatible ' + name)
            env.raises(ValueError, lambda: f(q, p), 'incompatible ' + name)
            continue
        for r, want in ((f(p, q), f(x, y2)), (f(q, p), f(y2, x))):
            env.true(isinstance(r, process), 'is a process')
            env.eq(r.x, want, name)
            if n == 1 and m == 1:
                env.true(same_t(env, r.t, t) or same_t(env, r.t, u),
                         'timeline')
            else:
                env.eq(r.t, u if n == 1 else t, 'timeline')
            env.eq(p.x, x, 'operand unchanged')
            env.eq(q.x, y2, 'operand unchanged')


@scenario({'o': ['add', 'sub', 'mul', 'div', 'max', 'lt', 'le', 'min',
                 'ge'],
           'sh': [(3, (2,), 2), (1, (), 3)]})
def scalars_and_arrays(env, o, sh):
    n, vs, k = sh
    if o in ('max', 'lt', 'le', 'min', 'ge'):    # numpy forks on each entry
        n, vs, k = (2, (), 1) if n > 1 else (1, (), 2)
    f = OPS[o]
    t = env.times('t', n)
    x = env.arr('x', (n,) + vs + (k,), pos=True)
    p = process(t, x=x)
    z = env.real('z', pos=True)
    a = env.arr('a', (k,), pos=True)
    b = env.arr('b', (n,) + vs + (k,), pos=True)
    for other in (z, a, b, b[..., :1], b[:1]):
        for r, want in ((f(p, other), f(x, other)),
                        (f(other, p), f(other, x))):
            env.true(isinstance(r, process), 'is a process')
            env.eq(r.x, want, o)
            env.eq(r.t, t, 'timeline')
    if n == 3:
        env.raises(ValueError, lambda: f(p, b[:2]), 'array shape')


@scenario({'n': [1, 3], 'm': [1, 3]})
def inplace(env, n, m):
    t, u = env.times('t', n), env.times('u', m)
    x = env.arr('x', (n, 2, 2))
    y = env.arr('y', (m, 1, 2))
    for f, g in ((op.iadd, op.add), (op.isub, op.sub), (op.imul, op.mul)):
        p, q = process(t, x=x.copy()), process(u, x=y)
        ok = m == 1 or same_t(env, t, u)
        if n == 1 and m > 1:
            ok = False
        if ok:
            r = f(p, q)
            env.eq(r.x, g(x, y), 'in place')
            env.eq(r.t, t, 'in place timeline')
            env.eq(q.x, y, 'operand')
        else:
            env.raises(ValueError, lambda: f(p, q), 'in place')


@scenario({'n': [1, 2]})
def unary(env, n):
    t = env.times('t', n)
    x = env.arr('x', (n, 2, 2), pos=True)
    p = process(t, x=x)
    for f in (op.neg, abs, np.exp, np.sqrt, np.log, np.abs, np.square):
        r = f(p)
        env.true(isinstance(r, process), 'is a process')
        env.eq(r.x, f(x), 'unary')
        env.eq(r.t, t, 'timeline')
    r = -(p + p * 2) / 3 - np.exp(p)
    env.eq(r.x, -x - np.exp(x), 'compound expression')
    env.eq(r.t, t, 'timeline')
    env.eq(p.x, x, 'operand unchanged')


@scenario({'n': [1, 3], 'm': [1, 3]})
def out_argument(env, n, m):
    t, u = env.times('t', n), env.times('u', m)
    x = env.arr('x', (n, 2, 2))
    y = env.arr('y', (m, 2, 2))
    N = max(n, m)
    p, q = process(t, x=x), process(u, x=y)
    if n == m and n > 1 and not same_t(env, t, u):
        env.count()
        return
    out = env.obj((N, 2, 2))
    np.add(p, q, out=out)
    env.eq(out, x + y, 'out values')
    r = process(t if n >= m else u, x=env.obj((N, 2, 2)))
    np.multiply(p, q, out=r)
    env.eq(r.x, x * y, 'out process values')
    env.eq(r.t, t if n >= m else u, 'out process timeline')


@scenario
def three_processes(env):
    t = env.times('t', 3)
    x, y, c = env.arr('x', (3, 2, 2)), env.arr('y', (3, 1, 2)), \
        env.arr('c', (2,))
    p, q, k = process(t, x=x), process(t, x=y), process(c=c)
    r = p * k + q
    env.eq(r.x, x * c[np.newaxis, :, np.newaxis] + y, 'values')
    env.eq(r.t, t, 'timeline')
    r = k + (q - p)
    env.eq(r.x, c[np.newaxis, :, np.newaxis] + y - x, 'values')
    env.eq(r.t, t, 'timeline')


@scenario({'which': range(1, 8), 'fun': ['clip', 'user']})
def three_operands(env, which, fun):
    """universal functions of three processes, any of which are constant"""
    if fun == 'clip':
        f = np.core.umath.clip
    else:
        f = np.frompyfunc(lambda a, b, c: a + 2*b - c*b, 3, 1)
    n = 2
    t, u = env.times('t', n), env.times('u', n)
    lo = env.real('lo')
    xs, ps = [], []
    for k in range(3):
        m = n if which >> k & 1 else 1
        x = env.arr('x%d' % k, (m, 1))
        xs.append(x)
        ps.append(process(t if m > 1 else [lo + k], x=x))
    r = f(*ps)
    env.true(isinstance(r, process), 'is a process')
    env.eq(r.t, t, 'timeline')
    env.shape(r, (n, 1), 'shape')
    for i in range(n):
        a, b, c = (x[i if len(x) > 1 else 0, 0] for x in xs)
        env.eq(r.x[i, 0], env.minimum(env.maximum(a, b), c) if fun == 'clip'
               else a + 2*b - c*b, 'values')
    # scalars in place of the constants
    if which in (1, 2, 4) and fun == 'user':
        k = (1, 2, 4).index(which)
        q = [p if i == k else xs[i][0, 0] for i, p in enumerate(ps)]
        env.eq(f(*q).x, r.x, 'scalars')
    # one of them moved to another timeline
    if which in (3, 5, 6, 7) and not same_t(env, t, u):
        for k in range(3):
            if which >> k & 1:
                q = list(ps)
                q[k] = process(u, x=xs[k])
                env.raises(ValueError, lambda: f(*q), 'timelines')


@scenario
def subclass_kept(env):
    class sub(process):
        pass
    t = env.times('t', 2)
    x = env.arr('x', (2, 2))
    p = sub(t, x=x)
    r = p + 1
    env.true(isinstance(r, sub), 'subclass')
    env.eq(r.x, x + 1, 'values')
