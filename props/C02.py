import numpy as np
from sdepy import montecarlo
from symx.runner import scenario

BOUNDS = ('1-3 bins (given boundaries, number of bins, number and range); '
          'samples of up to 4 paths of arbitrary reals in up to 3 updates; '
          'value shapes (), (1,), (2,), (1,2)')
ASSUMPTIONS = ['bins given as a string (chosen by numpy) are outside of the '
               'bounds; numpy.histogram, scipy interp1d and erf are replaced '
               'by their definitions']


def count(edges, x):
    """half open bins, the last one closed"""
    nb = len(edges) - 1
    c = [0] * nb
    for v in x:
        for j in range(nb):
            if v >= edges[j] and (v <= edges[j + 1] if j == nb - 1
                                  else v < edges[j + 1]):
                c[j] += 1
                break
    return c


def check(env, mc, edges, x, label=''):
    """one component: pooled sample x"""
    n = len(x)
    c = count(edges, x)
    counts, bins = mc.histogram()
    env.shape(counts, (len(c),), 'shape of counts')
    env.true(np.asarray(counts).dtype.kind == 'i', 'integer counts')
    env.eq(np.asarray(bins), edges, 'bins' + label)
    for j in range(len(c)):
        env.true(int(counts[j]) == c[j], 'counts' + label)
    env.true(mc.paths == n, 'paths')
    out = n - sum(c)
    env.true(int(np.asarray(mc.outpaths)) == out, 'paths outside')
    env.eq(np.asarray(mc.outerr()).reshape(()), out / n,
           'fraction of paths outside')
    env.true(int(counts.sum()) + int(np.asarray(mc.outpaths)) == mc.paths,
             'every path is accounted for')
    h, b = mc.h
    env.true(h is counts and b is bins or bool(np.all(h == counts)), 'h')
    if sum(c):
        d, b = mc.density_histogram()
        env.eq(np.asarray(b), edges, 'bins of density')
        tot = 0
        for j in range(len(c)):
            w = edges[j + 1] - edges[j]
            env.eq(d[j] * w * sum(c), c[j], 'density')
            tot = tot + d[j] * w
        env.eq(tot, 1, 'density integrates to one')
        d2, b = mc.dh
        env.eq(np.asarray(d2), np.asarray(d), 'dh')
    return c


def auto_edges(env, x, nb, rng=None):
    if rng is not None:
        lo, hi = rng
    else:
        lo = hi = x[0]
        for v in x[1:]:
            lo, hi = (v if v < lo else lo), (v if v > hi else hi)
    if lo == hi:
        h = env.const(.5)
        lo, hi = lo - h, hi + h
    r = env.obj(nb + 1)
    for j in range(nb + 1):
        r[j] = lo + (hi - lo) * j / nb
    return r


def feed(x, split, axis=-1, **kw):
    mc = montecarlo(**kw)
    a = 0
    for k in split:
        mc.update(np.moveaxis(x[..., a:a + k], -1, axis), axis=axis)
        a += k
    return mc


@scenario({'nb': [1, 2, 3], 'split': [(1,), (2,), (1, 1), (1, 2), (2, 1),
                                      (1, 1, 1)],
           'range_': [False, True]})
def given_bins(env, nb, split, range_):
    """range is overridden by explicit bins"""
    if nb == 3 and sum(split) > 2 and not env.thorough:
        nb = 2
    x = env.arr('x', (sum(split),))
    e = env.times('e', nb + 1)
    r = (env.real('r0'), env.real('r1')) if range_ else None
    mc = feed(x, split, bins=e.copy(), range=r, dtype=env.dtype)
    check(env, mc, e, x)


@scenario({'nb': [1, 2, 3], 'split': [(1,), (2,), (3,), (1, 1), (1, 2),
                                      (2, 1), (2, 2), (1, 1, 1)],
           'range_': [False, True]})
def automatic_bins(env, nb, split, range_):
    """fixed by the first update"""
    if (nb == 3 or sum(split) > 3) and not env.thorough:
        nb = min(nb, 2)
        split = split if sum(split) < 4 else (2, 1)
    x = env.arr('x', (sum(split),))
    r = None
    if range_:
        r0 = env.real('r0')
        r = (r0, r0 + env.real('dr', pos=True))
    mc = feed(x, split, bins=nb, range=r, dtype=env.dtype)
    check(env, mc, auto_edges(env, x[:split[0]], nb, r), x)


@scenario({'vs': [(1,), (2,), (1, 2)], 'how': ['number', 'given', 'objects'],
           'axis': [0, -1]})
def components(env, vs, how, axis):
    """each component has its own bins, counts and paths outside"""
    split = (2, 1) if vs == (1,) else (1, 1)
    x = env.arr('x', vs + (sum(split),))
    edges = {}
    if how == 'number':
        bins = 1
        for i in np.ndindex(*vs):
            edges[i] = auto_edges(env, x[i][:split[0]], 1)
    else:
        for k, i in enumerate(np.ndindex(*vs)):
            edges[i] = env.times('e%d_' % k,
                                 2 + (k % 2 if how == 'objects' else 1))
        if how == 'given':
            bins = env.obj(vs + (3,))
            for i in np.ndindex(*vs):
                bins[i] = edges[i]
        else:
            bins = np.empty(vs, dtype=object)
            for i in np.ndindex(*vs):
                bins[i] = edges[i].copy()
    mc = feed(x, split, axis, bins=bins, dtype=env.dtype)
    for i in np.ndindex(*vs):
        check(env, mc[i], edges[i], x[i])
        check(env, mc[i + (Ellipsis,)] if len(vs) == 1 else
              mc[i[0]][i[1]], edges[i], x[i])
        check(env, mc[tuple(slice(k, k + 1) for k in i)], edges[i], x[i])
    if np.prod(vs) > 1:
        for f in (mc.histogram, mc.density_histogram, mc.outerr,
                  lambda: mc.outpaths, lambda: mc.h, lambda: mc.dh,
                  lambda: mc.pdf(0.), lambda: mc.cdf(0.)):
            env.raises(IndexError, f, 'multiple values')
    else:
        check(env, mc, edges[(0,) * len(vs)], x.reshape(-1))


@scenario({'use': ['even', 'odd'], 'split': [(2,), (2, 2), (4,)],
           'how': ['number', 'given']})
def antithetic(env, use, split, how):
    x = env.arr('x', (sum(split),))
    sign = 1 if use == 'even' else -1
    parts, a = [], 0
    for k in split:
        b = x[a:a + k]
        parts.append((b[:k // 2] + sign * b[k // 2:]) / 2)
        a += k
    y = np.concatenate(parts)
    if how == 'number':
        bins = 2
        edges = auto_edges(env, parts[0], 2)
    else:
        bins = edges = env.times('e', 3)
    mc = feed(x, split, bins=bins, use=use, dtype=env.dtype)
    check(env, mc, edges, y)


@scenario({'first': [0, 1]})
def shared_specification(env, first):
    """bins specified as an array or number are not altered, nor shared,
    between instances"""
    e = env.times('e', 3)
    x = env.arr('x', (2,))
    f = e.copy()
    p, q = (montecarlo(bins=f, dtype=env.dtype) for k in range(2))
    p.update(x)
    q.update(x[first:first + 1])
    p.update(x[:1])
    env.eq(f, e, 'specification untouched')
    check(env, p, e, np.array([x[0], x[1], x[0]], dtype=env.dtype))
    check(env, q, e, x[first:first + 1])


@scenario({'case': ['none', 'none creation', 'empty', 'shape', 'shape2',
                    'method']})
def rejected(env, case):
    x = env.arr('x', (2,))
    if case[:4] == 'none':
        mc = montecarlo(x, bins=None) if case != 'none' else \
            feed(x, (1, 1), bins=None, dtype=env.dtype)
        for f in (mc.histogram, mc.density_histogram, mc.outerr,
                  lambda: mc.pdf(0.), lambda: mc.cdf(0.)):
            env.raises(ValueError, f, 'no distribution data')
    elif case == 'empty':
        mc = montecarlo(bins=2)
        for f in (mc.histogram, mc.density_histogram, mc.outerr):
            env.raises(ValueError, f, 'no distribution data')
    elif case[:5] == 'shape':
        e = np.array([0., 1., 2.])
        if case == 'shape':
            y, e = x.reshape(2, 1), e
        else:
            y, e = x, np.array([e, e])
        env.raises(ValueError, lambda: montecarlo(y, bins=e), 'shape of bins')
    else:
        e = np.array([-1000., 0., 1000.])
        env.assume((x[0] > -1000) & (x[0] < 1000))
        mc = montecarlo(x, bins=e, dtype=env.dtype)
        env.raises(ValueError, lambda: mc.pdf(0., method='other'), 'method')
        env.raises(ValueError, lambda: mc.cdf(0., method='other'), 'method')


# ---------------------------------------------------------------- densities

COUNTS = [(1,), (2, 1), (0, 2), (1, 2, 1), (1, 0, 3)]


def loaded(env, counts, out=0):
    """a simulation with the given counts, and given paths outside, in two
    updates; boundaries are arbitrary"""
    nb = len(counts)
    e = env.times('e', nb + 1)
    x = []
    for j in range(nb):
        x += [(e[j] + e[j + 1]) / 2] * counts[j]
    x += [e[nb] + 1] * out
    x = np.array(x, dtype=env.dtype)
    mc = montecarlo(bins=e.copy(), dtype=env.dtype)
    if len(x) > 1:
        mc.update(x[1:])
    mc.update(x[:1])
    n = sum(counts)
    d = [c / (n * (e[j + 1] - e[j])) for j, c in enumerate(counts)]
    return mc, e, d


@scenario({'counts': COUNTS, 'below': [0, 4], 'above': [0, 1, 4]})
def mostly_outside(env, counts, below, above):
    """paths outside do not enter densities, however many they are"""
    e = env.times('e', len(counts) + 1)
    x = [e[0] - 1] * below + [e[-1] + 1] * above
    for j, c in enumerate(counts):
        x += [(e[j] + e[j + 1]) / 2] * c
    mc = montecarlo(np.array(x, dtype=env.dtype), bins=e.copy(),
                    dtype=env.dtype)
    env.true(check(env, mc, e, x) == list(counts), 'counts')


def frac(env, a, b):
    return env.const(a)[()] / b


@scenario({'counts': COUNTS, 'out': [0, 1], 'shape': [(), (2,), (1, 2)]})
def interpolated_at_nodes(env, counts, out, shape):
    mc, e, d = loaded(env, counts, out)
    n, nb = sum(counts), len(counts)
    kw = dict(method='interp')

    def at(v):
        a = env.obj(shape)
        a[...] = v
        return a if shape else v

    def want(v):
        a = env.obj(shape)
        a[...] = v
        return a
    acc = 0
    for j in range(nb + 1):
        env.eq(np.asarray(mc.cdf(at(e[j]), **kw)),
               want(frac(env, acc, n)), 'cdf at bins boundaries')
        acc += counts[j] if j < nb else 0
    for j in range(nb):
        env.eq(np.asarray(mc.pdf(at((e[j] + e[j + 1]) / 2), **kw)),
               want(d[j]), 'pdf at midpoints')
    for k in (0, nb):
        env.eq(np.asarray(mc.pdf(at(e[k]), **kw)), want(env.const(0)),
               'pdf at the boundaries')
    u = env.real('u', pos=True)
    for f in (mc.pdf, mc.cdf):
        env.eq(np.asarray(f(at(e[0] - u), **kw)), want(env.const(0)),
               'below')
        env.eq(np.asarray(f(at(e[nb] + u), **kw)),
               want(env.const(1 if f == mc.cdf else 0)), 'above')


@scenario({'counts': COUNTS, 'kind': ['linear', 'nearest', 'previous',
                                      'next', 'zero']})
def interpolated_between(env, counts, kind):
    mc, e, d = loaded(env, counts)
    n, nb = sum(counts), len(counts)
    kw = dict(method='interp', kind=kind)
    u = env.real('u', lo=0, hi=1)
    env.assume(u > 0)
    env.assume(u < 1)
    env.assume(u != env.const(.5))

    def mix(a, b):
        if kind == 'linear':
            return a + u * (b - a)
        if kind in ('previous', 'zero'):
            return a
        if kind == 'next':
            return b
        return env.ite(u < .5, a, b)
    acc = 0
    for j in range(nb):
        x = e[j] + u * (e[j + 1] - e[j])
        env.eq(np.asarray(mc.cdf(x, **kw)),
               mix(frac(env, acc, n), frac(env, acc + counts[j], n)),
               'cdf between bins boundaries')
        acc += counts[j]
    xx = [e[0]] + [(e[j] + e[j + 1]) / 2 for j in range(nb)] + [e[nb]]
    pp = [env.const(0)[()]] + d + [env.const(0)[()]]
    for j in range(nb + 1):
        x = xx[j] + u * (xx[j + 1] - xx[j])
        env.eq(np.asarray(mc.pdf(x, **kw)), mix(pp[j], pp[j + 1]),
               'pdf between midpoints')


@scenario({'counts': COUNTS, 'bw': ['default', 'given'],
           'shape': [(), (2,), (1, 2)], 'out': [0, 1]})
def kernels(env, counts, bw, shape, out):
    """gaussian kernels at midpoints, weighted by the fraction of paths in
    each bin, of width bandwidth times the bin width; the cdf is the
    integral of the pdf"""
    mc, e, d = loaded(env, counts, out)
    n, nb = sum(counts), len(counts)
    b = env.const(1) if bw == 'default' else env.real('b', pos=True)
    kw = {} if bw == 'default' else dict(bandwidth=b)
    x = env.arr('x', shape)
    P = np.asarray(mc.pdf(x if shape else x[()], **kw))
    C = np.asarray(mc.cdf(x if shape else x[()], **kw))
    env.shape(P, shape, 'shape of pdf')
    env.shape(C, shape, 'shape of cdf')
    for i in np.ndindex(*shape):
        p = c = env.const(0)
        for j in range(nb):
            s = b * (e[j + 1] - e[j])
            z = (x[i] - (e[j] + e[j + 1]) / 2) / s
            p = p + counts[j] * env.npdf(z) / (n * s)
            c = c + counts[j] * env.ncdf(z) / n
        env.eq(P[i], p, 'pdf')
        env.eq(C[i], c, 'cdf')
    if shape == ():
        env.eq(env.d(lambda v: mc.cdf(v, **kw), [x[()]]), P[()],
               'the pdf is the derivative of the cdf')


@scenario({'edges': [(0, 1, 2), (-1, 2, 3, 5), (0, 3)],
           'counts': [(1, 2, 1), (2, 0, 3)], 'kind': ['linear', 'nearest'],
           'form': [int, 'list', float, 'int32']})
def integer_edges(env, edges, counts, kind, form):
    """boundaries given as whole numbers"""
    counts = counts[:len(edges) - 1]
    x = [a for a, c in zip(edges, counts) for k in range(c)]
    mc = montecarlo(np.array([env.const(k)[()] for k in x], env.dtype),
                    dtype=env.dtype, bins=list(edges) if form == 'list' else
                    np.array(edges, form))
    n, nb = sum(counts), len(counts)
    e = [env.const(k)[()] for k in edges]
    d = [c / (n * (e[j + 1] - e[j])) for j, c in enumerate(counts)]
    c, b = mc.histogram()
    env.true([int(k) for k in c] == list(counts), 'counts')
    env.eq(np.asarray(mc.dh[0]), np.array(d), 'density')
    kw = dict(method='interp', kind=kind)
    u = env.real('u', lo=0, hi=1)
    env.assume(u > 0)
    env.assume(u < 1)
    env.assume(u != env.const(.5))
    xx = [e[0]] + [(e[j] + e[j + 1]) / 2 for j in range(nb)] + [e[nb]]
    pp = [env.const(0)[()]] + d + [env.const(0)[()]]
    s, acc = [env.const(0)[()]], 0
    for k in counts:
        acc += k
        s.append(frac(env, acc, n))

    def mix(a, b):
        return a + u * (b - a) if kind == 'linear' else env.ite(u < .5, a, b)
    for j in range(nb + 1):
        env.eq(np.asarray(mc.pdf(xx[j] + u * (xx[j + 1] - xx[j]), **kw)),
               mix(pp[j], pp[j + 1]), 'pdf between midpoints')
    for j in range(nb):
        env.eq(np.asarray(mc.cdf(e[j] + u * (e[j + 1] - e[j]), **kw)),
               mix(s[j], s[j + 1]), 'cdf between boundaries')
