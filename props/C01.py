import numpy as np
from sdepy import montecarlo
from symx.runner import scenario

BOUNDS = ('samples of 2-5 paths (up to 6 for antithetic ones) of arbitrary '
          'reals, in every split into up to 3 updates; value shapes (), (2,), '
          '(1,2); paths along any axis; all, even or odd use; no bins')
ASSUMPTIONS = ['skewness and kurtosis: samples that are not constant; real '
               'arithmetic (no rounding of the cumulated sums)']


def splits(n, k=3):
    """compositions of n in up to k parts"""
    if k == 0:
        return [()] if n == 0 else []
    return [()] * (n == 0) + [(i,) + r for i in range(1, n + 1)
                              for r in splits(n - i, k - 1)]


CASES = [(n, s) for n in (2, 3, 4, 5) for s in splits(n)]


def moments(x):
    """of the pooled sample, along the last axis"""
    n = x.shape[-1]
    m = x.sum(axis=-1) / n
    d = x - np.asarray(m)[..., None]
    c = [(d ** k).sum(axis=-1) / n for k in (2, 3, 4)]
    return m, c


def feed(env, x, split, axis=-1, mc=None, **kw):
    """x: paths along the last axis"""
    mc = montecarlo(bins=None, dtype=env.dtype, **kw) if mc is None else mc
    a = 0
    for k in split:
        mc.update(np.moveaxis(x[..., a:a + k], -1, axis), axis=axis)
        a += k
    return mc


def check(env, mc, x, higher=True):
    n = x.shape[-1]
    m, (v, c3, c4) = moments(x)
    env.true(mc.paths == n, 'paths')
    env.true(tuple(mc.vshape) == x.shape[:-1], 'vshape')
    env.true(tuple(mc.shape) == x.shape[:-1] + (n,), 'shape')
    env.eq(np.asarray(mc.mean()), m, 'mean')
    env.eq(np.asarray(mc.var()), v, 'variance')
    if n > 1:
        env.eq(np.asarray(mc.std()), np.sqrt(v), 'standard deviation')
        env.eq(np.asarray(mc.stderr()), np.sqrt(v / (n - 1)),
               'standard error')
    if higher and n > 1:
        v, c3, c4 = (np.asarray(z) for z in (v, c3, c4))
        for i in np.ndindex(*v.shape):   # (equal to v, as just shown)
            env.assume(v[i] > 0)
            env.assume(np.asarray(mc.var())[i] > 0)
        sk, ku = np.asarray(mc.skew()), np.asarray(mc.kurtosis())
        env.shape(sk, v.shape, 'shape of skewness')
        for i in np.ndindex(*v.shape):
            env.eq(sk[i] * env.sqrt(v[i]) * v[i], c3[i], 'skewness')
            env.eq(ku[i] * v[i] * v[i], c4[i], 'kurtosis')


@scenario({'case': CASES})
def splits_of_a_sample(env, case):
    n, split = case
    x = env.arr('x', (n,))
    check(env, feed(env, x, split), x, higher=n < 5 or env.thorough)


@scenario({'split': [(2,), (1, 1), (2, 1), (1, 2)],
           'vs': [(), (2,), (1, 2)], 'axis': [0, 1, 2, -1, -2]})
def axes(env, split, vs, axis):
    k = len(vs) + 1
    if not -k <= axis < k:
        axis = 0
    x = env.arr('x', vs + (sum(split),))
    check(env, feed(env, x, split, axis), x, higher=False)


@scenario({'n': [2, 3], 'vs': [(), (2,)]})
def at_creation(env, n, vs):
    """sample given at creation, along the first axis"""
    x = env.arr('x', vs + (n,))
    check(env, montecarlo(np.moveaxis(x, -1, 0), axis=0, bins=None,
                          dtype=env.dtype), x, higher=vs == ())
    check(env, montecarlo(x, bins=None), x, higher=False)


@scenario({'use': ['even', 'odd'],
           'split': [(4,), (2, 2), (6,), (4, 2), (2, 2, 2)],
           'vs': [(), (2,)], 'axis': [0, -1]})
def antithetic(env, use, split, vs, axis):
    """half sums or half differences of each path with its antithetic one,
    within each update"""
    x = env.arr('x', vs + (sum(split),))
    sign = 1 if use == 'even' else -1
    parts, a = [], 0
    for k in split:
        b = x[..., a:a + k]
        parts.append((b[..., :k // 2] + sign * b[..., k // 2:]) / 2)
        a += k
    mc = feed(env, x, split, axis, use=use)
    check(env, mc, np.concatenate(parts, axis=-1), higher=vs == ())


@scenario({'use': ['even', 'odd', 'neither'], 'n': [1, 3]})
def rejected(env, use, n):
    x = env.arr('x', (n,))
    env.raises(ValueError, lambda: montecarlo(x, use=use, bins=None), use)
    m = montecarlo(use=use, bins=None)
    env.raises(ValueError, lambda: m.update(x), use)
    env.true(m.paths == 0, 'nothing accumulated')


@scenario({'i': [0, 1, -1, slice(None), slice(0, 1), [1, 0]],
           'split': [(2,), (1, 1), (1, 2)], 'use': ['all', 'even']})
def components(env, i, split, use):
    if use == 'even':
        split = tuple(2 * k for k in split)
    x = env.arr('x', (2, sum(split)))
    mc = feed(env, x, split, use=use)
    if use == 'even':
        parts, a = [], 0
        for k in split:
            b = x[..., a:a + k]
            parts.append((b[..., :k // 2] + b[..., k // 2:]) / 2)
            a += k
        x = np.concatenate(parts, axis=-1)
    check(env, mc[i], x[i], higher=False)
    check(env, mc, x, higher=False)


@scenario({'i': [0, -1, slice(0, 1), (1,), (Ellipsis, 0)],
           'bins': [None, 1]})
def component_updates(env, i, bins):
    """a selected component references the statistics it was selected
    from, and follows later updates"""
    x = env.arr('x', (2, 3))
    if bins is not None:
        env.assume(x[0, 0] < x[0, 1])
        env.assume(x[1, 0] < x[1, 1])
        for k in range(2):   # the third path falls in the bins for k=0 only
            env.assume(x[k, 2] > x[k, 0])
        env.assume(x[0, 2] < x[0, 1])
        env.assume(x[1, 2] > x[1, 1])
    mc = montecarlo(x[:, :2], bins=bins, dtype=env.dtype)
    sub = mc[i]
    mc.update(x[:, 2:])
    check(env, sub, x[i + (slice(None),)] if isinstance(i, tuple) else x[i],
          higher=False)
    if bins is not None:
        out = np.array([0, 1])[i]
        env.true(int(np.asarray(sub.outpaths).sum()) == int(out.sum()),
                 'paths outside')
        counts, edges = sub.histogram()
        env.true(int(counts.sum()) == 3 - int(out.sum()), 'counts')


@scenario({'i': [(0, 1), (0,), (slice(None), 1), (Ellipsis, 0)]})
def components_2d(env, i):
    x = env.arr('x', (1, 2, 2))
    mc = feed(env, x, (1, 1))
    j = i if i[0] is Ellipsis else i + (Ellipsis,)
    j = i + (slice(None),) if i[0] is Ellipsis else j
    check(env, mc[i], x[j], higher=False)


@scenario
def shorthands(env):
    x = env.arr('x', (2,))
    env.assume(x[0] < x[1])
    mc = feed(env, x, (2,))
    env.eq(np.asarray(mc.m), mc.mean(), 'm')
    env.eq(np.asarray(mc.s), mc.std(), 's')
    env.eq(np.asarray(mc.e), mc.stderr(), 'e')
    st = mc.stats
    for k in ('mean', 'stderr', 'std', 'skew', 'kurtosis'):
        env.eq(np.asarray(st[k]), np.asarray(getattr(mc, k)()), k)


@scenario({'n': [1, 2, 3]})
def one_path(env, n):
    """single path updates; a number is a sample of one path"""
    x = env.arr('x', (n,))
    mc = montecarlo(bins=None, dtype=env.dtype)
    for v in x:
        mc.update(v)
    check(env, mc, x)


@scenario({'first': [1, 2]})
def shift_and_scale(env, first):
    """statistics are computed accurately whatever the first batch: they
    shift and scale with the sample"""
    n = 3
    x = env.arr('x', (n,))
    a, b = env.real('a'), env.real('b', pos=True)
    p = feed(env, x, (first, n - first))
    q = feed(env, a + b * x, (first, n - first))
    env.eq(np.asarray(q.mean()), a + b * p.mean(), 'mean')
    env.eq(np.asarray(q.var()), b * b * p.var(), 'variance')


@scenario({'use': ['all', 'even', 'odd']})
def inputs_untouched(env, use):
    """the sample given is not modified, and later changes to it have no
    effect"""
    x = env.arr('x', (2,))
    y = x.copy()
    mc = montecarlo(y, use=use, bins=None, dtype=env.dtype)
    for k in range(2):
        env.eq(y[k], x[k], 'untouched')
    m = np.asarray(mc.mean()).copy()
    y[0] = 17
    env.eq(np.asarray(mc.mean()), m, 'independent')
    s = (x[0] + x[1]) / 2 if use != 'odd' else (x[0] - x[1]) / 2
    env.eq(m, s, 'mean')
