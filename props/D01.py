import numpy as np
import sdepy
from sdepy.integration import paths_generator, integrator, SDE
from symx.runner import scenario
from props.doubles import union

BOUNDS = ('timelines of 1-4 (thorough 5) increasing reals; steps None, a '
          'count 0-5, or an iterable of up to 3 (thorough 4) arbitrary reals '
          'in any order, repeated, coincident with output times or out of '
          'the timeline; every admissible index of the initial time, '
          'positive or negative; integrators of depth 2 and 3, with steps '
          'shortened by the subclass')
ASSUMPTIONS = []


class Rec(SDE, integrator):
    """records steps; each step adds an arbitrary function of (s, ds)"""
    sources = {'dz'}

    def source_dz(self, fn=None):
        self.seen = []
        self.fn = fn

        def dz(s, ds):
            self.seen.append((s, ds))
            return fn(s, ds)
        return dz

    def sde(self, t, x):
        return {'dz': 1}


def check(env, tt, grid, i0, counts=True, **kw):
    n = len(tt)
    x0 = env.real('x0')
    F = env.func('F')
    fn = lambda s, ds: F(s, ds)
    P = Rec(x0=x0, fn=fn, i0=i0, dtype=env.dtype, **kw)
    X = P(np.array(tt))
    g = union(env, tt, grid)
    j = i0 if i0 >= 0 else n + i0
    t0 = tt[j]
    k0 = next(k for k, s in enumerate(g) if s is t0 or bool(s == t0))
    fwd = [(s, d) for s, d in P.seen if bool(d > 0)]
    bwd = [(s, d) for s, d in P.seen if not bool(d > 0)]
    env.true(len(fwd) == len(g) - 1 - k0, 'number of forward steps')
    env.true(len(bwd) == k0, 'number of backward steps')
    for (s, d), a, b in zip(fwd, g[k0:], g[k0 + 1:]):
        env.eq(s, a, 'forward step start')
        env.eq(d, b - a, 'forward step length')
    for (s, d), a, b in zip(bwd, g[k0::-1], g[:k0][::-1]):
        env.eq(s, a, 'backward step start')
        env.eq(d, b - a, 'backward step length')
    env.eq(np.asarray(X.t), np.array(tt), 'timeline of the result')
    env.shape(X, (n, 1), 'shape of the result')
    env.eq(X.x[j, 0], x0, 'initial condition')
    for r, ks in ((1, range(k0 + 1, len(g))), (-1, range(k0 - 1, -1, -1))):
        x, i = x0, j
        for k in ks:
            a, b = g[k - r], g[k]
            x = x + F(a, b - a)
            if 0 <= i + r < n and bool(tt[i + r] == b):
                i += r
                env.eq(X.x[i, 0], x, 'stored result')
        env.true(i == (n - 1 if r > 0 else 0), 'every output time reached')
    if counts and j in (0, n - 1):
        # the counts of a forwards and backwards run are not documented
        env.true(P.info['computed_steps'] == len(g) - 1, 'computed steps')
        env.true(P.info['stored_steps'] == n - 1, 'stored steps')
        env.eq(P.info['t0'], t0, 't0')
        env.eq(P.info['tmin'], tt[0], 'tmin')
        env.eq(P.info['tmax'], tt[-1], 'tmax')


@scenario({'ni': [(n, i) for n in (1, 2, 3, 4) for i in range(-n, n)],
           'm': [0, 1, 2]},
          thorough={'ni': [(n, i) for n in (1, 2, 3, 4, 5)
                           for i in range(-n, n)], 'm': [0, 1, 2, 3]})
def step_times(env, ni, m):
    """steps given as an iterable of m arbitrary times"""
    n, i0 = ni
    if n > 3 and m > 1 and not env.thorough:
        m = 1
    if n > 4 and m > 2:
        m = 2
    tt = list(env.times('t', n))
    st = [env.real('s%d' % k) for k in range(m)]
    check(env, tt, st, i0, steps=tuple(st) if m != 1 else iter(st))


@scenario({'ni': [(n, i) for n in (1, 2, 3) for i in range(n)],
           'm': [0, 1, 2, 3, 4]},
          thorough={'m': [0, 1, 2, 3, 4, 5]})
def step_count(env, ni, m):
    """a number of equally spaced points between minimum and maximum"""
    n, i0 = ni
    tt = list(env.times('t', n))
    if m <= 1:
        st = tt[:1] * m
    else:
        st = [tt[0] + (tt[-1] - tt[0]) * k / (m - 1) for k in range(m)]
        st[-1] = tt[-1]
    if not env.sym:
        # rounding is out of scope: steps as the implementation rounds them
        st = list(np.linspace(tt[0], tt[-1], m)) if n > 1 else st
    check(env, tt, st, i0, steps=m)


@scenario({'ni': [(n, i) for n in (2, 3) for i in range(n)]})
def array_steps(env, ni):
    n, i0 = ni
    tt = list(env.times('t', n))
    st = list(env.arr('s', 2))
    check(env, tt, st, i0, steps=np.array(st))


@scenario({'ni': [(1, 0), (2, 0), (2, 1), (3, 1), (3, 2), (3, -2)]})
def default_steps(env, ni):
    n, i0 = ni
    tt = list(env.times('t', n))
    check(env, tt, [], i0)
    check(env, tt, [], i0, steps=None, getinfo=False, counts=False)


class Gen(paths_generator):
    """multi-step generator recording what the base class asks for"""
    dep = 2
    cut = None

    def __init__(self, env, cut=None, **kw):
        super().__init__(**kw)
        self.env, self.cut, self.rec, self.stored = env, cut, [], []
        self.begun = self.ended = 0

    def begin(self):
        iv = self.itervars
        self.begun += 1
        for k in range(self.depth - 1):
            iv['xw'][k][...] = self.env.real('b%d' % k)
        self.start = list(iv['sw'][:self.depth - 1])
        self.steps_tt = list(iv['steps_tt'])

    def next(self):
        iv = self.itervars
        sw, xw = iv['sw'], iv['xw']
        if self.cut is not None and len(self.rec) == self.cut:
            sw[-1] = (sw[-2] + sw[-1]) / 2
        self.rec.append((list(sw), [x.copy() for x in xw], iv['i'],
                         iv['tt'][iv['i']]))
        xw[-1][...] = self.env.func('G')(sw[-1])

    def store(self, i, k):
        iv = self.itervars
        self.stored.append((i, iv['sw'][k]))
        iv['xx'][i] = iv['xw'][k]

    def end(self):
        self.ended += 1


class Gen3(Gen):
    depth = 3


@scenario({'n': [2, 3], 'depth': [2, 3], 'm': [0, 1], 'cut': [None, 0, 1],
           'rev': [False, True]})
def generator(env, n, depth, m, cut, rev):
    """working space of a subclass: last points visited, in order"""
    tt = list(env.times('t', n))
    st = [env.real('s%d' % k) for k in range(m)]
    K = depth
    G = {2: Gen, 3: Gen3}[depth](env, cut, steps=tuple(st) or None,
                                 dtype=env.dtype, i0=n - 1 if rev else 0)
    r, X = G(np.array(tt))
    g = union(env, tt, st)
    if rev:
        g = g[::-1]
    # with the shortened step inserted
    vis = list(g)
    if cut is not None and K - 1 + cut <= len(g) - 1:
        p = K - 1 + cut
        vis.insert(p, (vis[p - 1] + vis[p]) / 2)
    env.true(G.begun == 1 and G.ended == 1, 'begin and end called once')
    env.eq(np.array(G.start), np.array(vis[:K - 1]), 'initial points')
    env.eq(np.array(G.steps_tt), np.array(g), 'steps_tt')
    env.true(len(G.rec) == len(vis) - K + 1, 'number of steps')
    f = env.func('G')
    val = [env.real('b%d' % k) for k in range(K - 1)] + [
        f(s) for s in vis[K - 1:]]
    out = tt[::-1] if rev else tt
    for q, (sw, xw, i, ti) in enumerate(G.rec):
        env.eq(np.array(sw), np.array(vis[q:q + K]), 'times at hand')
        for k in range(K - 1):
            env.eq(xw[k], [val[q + k]], 'values at hand')
        nxt = next(i for i in range(n) if
                   bool((out[i] - vis[q + K - 2]) * (-1 if rev else 1) > 0))
        env.true(i == nxt, 'index of the next output time')
        env.eq(ti, out[nxt], 'next output time')
    env.true([i for i, _ in G.stored] == list(range(n)),
             'each output time stored once')
    env.eq(np.array([s for _, s in G.stored]), np.array(out), 'stored times')
    for i in range(n):
        k = next(k for k, s in enumerate(vis) if bool(s == out[i]))
        env.eq(X[n - 1 - i if rev else i], [val[k]], 'stored values')
    env.eq(r, np.array(tt), 'timeline')


@scenario({'i0': [0, 1, 2]})
def integer_timeline(env, i0):
    """integer timelines and intermediate real steps"""
    s = env.real('s')
    P = Rec(x0=1, fn=lambda t, dt: 0, i0=i0, steps=(s,), dtype=env.dtype)
    tl = np.array([0, 2, 3])
    X = P(tl)
    g = union(env, [0, 2, 3], [s])
    env.true(len(P.seen) == len(g) - 1, 'number of steps')
    env.eq(sum(abs(d) for _, d in P.seen), 3, 'total length')
    env.true(X.t.dtype == tl.dtype, 'timeline as given')
    env.eq(np.asarray(X.t), tl, 'timeline')


@scenario({'bad': ['order', 'repeat', '2d', 'i0', 'i0neg', 'i0slice',
                   'i0float', 'depth']})
def rejects(env, bad):
    tt = env.times('t', 3)
    mk = lambda i0=0: Rec(x0=1, fn=lambda t, dt: 0, i0=i0, dtype=env.dtype)
    if bad == 'order':
        a = env.arr('a', 3)
        ok = bool(a[0] < a[1]) and bool(a[1] < a[2])
        if ok:
            env.true(mk()(a).shape == (3, 1), 'accepted')
        else:
            env.raises(ValueError, lambda: mk()(a), 'order')
    elif bad == 'repeat':
        env.raises(ValueError, lambda: mk()(tt[[0, 1, 1]]), 'repeated')
    elif bad == '2d':
        env.raises(ValueError, lambda: mk()(tt.reshape(3, 1)), 'shape')
    elif bad == 'depth':
        G = Gen3(env, None, dtype=env.dtype)
        env.raises(ValueError, lambda: G(tt[:1]), 'depth')
    else:
        i0 = dict(i0=3, i0neg=-4, i0slice=slice(0, 1), i0float=0.5)[bad]
        env.raises(IndexError, lambda: mk(i0)(tt), 'i0')


class Count(paths_generator):
    """whole numbers: how many points were visited before, and which"""

    def begin(self):
        xw = self.itervars['xw']
        for k in range(self.depth - 1):
            xw[k][...] = 10 * k + self.base

    def next(self):
        xw = self.itervars['xw']
        xw[-1][...] = xw[-2] + 10

    def store(self, i, k):
        iv = self.itervars
        iv['xx'][i] = iv['xw'][k].sum(axis=0)


class Count3(Count):
    depth = 3


@scenario({'depth': [2, 3], 'i0': [0, 1, 2, -1], 'm': [0, 1],
           'dtype': [int, None]},
          thorough={'m': [0, 1, 2]})
def shapes(env, depth, i0, m, dtype):
    """working and output shapes, types, and both directions"""
    n = 3
    tt = list(env.times('t', n))
    st = [env.real('s%d' % k) for k in range(m)]
    base = np.array([[[1, 2], [3, 4]], [[5, 6], [7, 8]], [[9, 0], [1, 2]]])
    G = {2: Count, 3: Count3}[depth](
        xshape=(2,), wshape=(3, 2), paths=2, i0=i0,
        steps=tuple(st) or None, **({} if dtype is None
                                    else dict(dtype=dtype)))
    G.base = base
    t, X = G(np.array(tt))
    env.shape(X, (n, 2, 2), 'shape of the output')
    if dtype is int and not env.sym:
        env.true(X.dtype.kind == 'i', 'type of the output')
    g = union(env, tt, st)
    pos = [next(k for k, s in enumerate(g) if bool(s == u)) for u in tt]
    for i in range(n):
        # number of steps from the initial time
        d = abs(pos[i] - pos[i0])
        env.eq(X[i], base.sum(axis=0) + 30 * d, 'values stored')


@scenario({'i0': [0, 1, -1], 'm': [0, 1]})
def reused(env, i0, m):
    """one integrator runs on several timelines, in turn"""
    F = env.func('F')
    st = tuple(env.real('s%d' % k) for k in range(m))
    kw = dict(x0=env.real('x0'), fn=lambda s, ds: F(s, ds), i0=i0,
              dtype=env.dtype, steps=st or None)
    info = {'mine': 1}
    P = Rec(info=info, **kw)
    lines = [env.times('t', 2), env.times('u', 3), env.times('v', 2)]
    for tt in lines:
        X = P(np.array(list(tt)))
        Q = Rec(**kw)
        Y = Q(np.array(list(tt)))
        env.eq(np.asarray(X), np.asarray(Y), 'as the first run')
        env.eq(np.asarray(X.t), np.array(list(tt)), 'timeline')
        env.true(P.info is info and info['mine'] == 1, 'info as given')
        for k in ('computed_steps', 'stored_steps'):
            env.true(info[k] == Q.info[k], k)
        for k in ('t0', 'tmin', 'tmax'):
            env.eq(info[k], Q.info[k], k)
