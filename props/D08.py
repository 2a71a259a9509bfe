import numpy as np
import sdepy
from sdepy import infrastructure as I, integrate
from symx.runner import scenario
from .doubles import Jumps
from .presets import SPEC, LINES, line

BOUNDS = ('timelines of up to 3 points with up to 2 extra steps, forward and '
          'backward; driving noise: an arbitrary path, a process of up to 2 '
          'nodes, or sources with memory (Wiener with or without '
          'correlation, Poisson and compound Poisson with up to 1 jump per '
          'refined interval); up to 3 successive integrations of one path; '
          '1-2 components and paths')
ASSUMPTIONS = ['times are equal or farther apart than the tolerance of '
               'sources with memory']


class Path:
    """a realized path: an arbitrary function of time per component"""

    def __init__(self, env, name, vshape, paths):
        self.env, self.name, self.vshape, self.paths = (env, name, vshape,
                                                        paths)

    def value(self, t):
        out = self.env.obj(self.vshape + (self.paths,))
        for i in np.ndindex(*out.shape):
            out[i] = self.env.func(self.name + ''.join(
                '_%d' % k for k in i))(t)
        return out

    def __call__(self, t, dt):
        return self.value(t + dt) - self.value(t)


CLASSES = ('wiener', 'lognorm', 'jumpdiff', 'merton', 'kou')


def make(env, name, vs, paths, i0, steps, args, **src):
    return SPEC[name][0](paths=paths, vshape=vs, dtype=env.dtype, i0=i0,
                         steps=tuple(steps) or None, **args, **src)


def closed(env, name, args, tt, i0, W, J=None):
    """values at the output times, given those of the driving paths"""
    mu, sigma, x0 = args['mu'], args['sigma'], args['x0']
    out = []
    for t, w, j in zip(tt, W, J or W):
        a = sigma * (w - W[i0])
        if J:
            a = a + j - J[i0]
        if name == 'wiener':
            out.append(x0 + mu * (t - tt[i0]) + a)
        else:
            out.append(x0 * env.exp((mu - sigma * sigma / 2) * (t - tt[i0])
                                    + a))
    return np.stack([np.asarray(x) for x in out])


def params(env, name, sh=()):
    f = lambda n, **k: env.arr(n, sh, **k) if sh else env.real(n, **k)
    return dict(mu=f('mu'), sigma=f('sigma'), x0=f('x0', **(
        dict(pos=True) if name != 'wiener' else {})))


def compare(env, r, tt, ref, label):
    env.eq(np.asarray(r.t), np.array(tt), 'timeline')
    env.shape(r.x, ref.shape, 'shape')
    env.eq(r.x, ref, label)


KEYS = list(LINES) + ['two steps']


def path_line(env, key):
    if key != 'two steps':
        return line(env, key)
    tt = list(env.times('t', 2))
    a, b = env.real('a_'), env.real('b_')     # in any order, anywhere
    return tt, [a, b], 0


@scenario({'name': CLASSES, 'key': KEYS, 'sh': [((), 1), ((2,), 2)]})
def arbitrary_path(env, name, key, sh):
    vs, paths = sh
    tt, st, i0 = path_line(env, key)
    w, j = Path(env, 'w', vs, paths), Path(env, 'j', vs, paths)
    jump = name not in ('wiener', 'lognorm')
    args = params(env, name, vs + (1,) if vs else ())
    p = make(env, name, vs, paths, i0, st, args, dw=w,
             **(dict(dj=j) if jump else {}))
    W, J = [w.value(t) for t in tt], [j.value(t) for t in tt]
    ref = closed(env, name, args, tt, i0, W, J if jump else None)
    compare(env, p(np.array(tt)), tt, ref, 'closed form')


@scenario({'name': CLASSES, 'key': ['two', 'step', 'back', 'middle'],
           'n': [1, 2]})
def process_path(env, name, key, n):
    tt, st, i0 = line(env, key)
    if key == 'step' and name in ('merton', 'kou'):
        st = []
    u = env.times('u', n)
    w = sdepy.process(u, x=env.arr('w', (n, 1)))
    j = sdepy.process(u, x=env.arr('j', (n, 1)))
    jump = name not in ('wiener', 'lognorm')
    args = params(env, name)
    p = make(env, name, (), 1, i0, st, args, dw=w,
             **(dict(dj=j) if jump else {}))

    def value(x, t):
        if n == 1 or bool(t <= u[0]):
            return x[0]
        if bool(t >= u[1]):
            return x[1]
        return x[0] + (x[1] - x[0]) * (t - u[0]) / (u[1] - u[0])
    ref = closed(env, name, args, tt, i0, [value(w.x, t) for t in tt],
                 [value(j.x, t) for t in tt] if jump else None)
    compare(env, p(np.array(tt)), tt, ref, 'closed form')


@scenario({'name': CLASSES, 'mode': ['linear', 'forward', 'backward']})
def piecewise_path(env, name, mode):
    """a path given at the output times drives the process exactly, as a
    process or as a piecewise constant function, whatever the extra steps"""
    tt, st, i0 = line(env, 'two')
    x = env.arr('w', (2, 1))
    w = sdepy.process(np.array(tt), x=x)
    args = params(env, name)
    jump = name not in ('wiener', 'lognorm')
    j = Path(env, 'j', (), 1)
    ref = closed(env, name, args, tt, 0, list(x), [j.value(t) for t in tt]
                 if jump else None)
    s = env.real('s_')
    for steps in ([], [s], [s, tt[0]]):
        p = make(env, name, (), 1, 0, steps, args, dw=w,
                 **(dict(dj=j) if jump else {}))
        compare(env, p(np.array(tt)), tt, ref, 'path at the output times')


# one realized source, integrated several times

ORDERS = {
    # successive integrations: (indexes of the times used, steps, i0)
    'coarse fine': [((0, 2), (), 0), ((0, 1, 2), (), 0)],
    'fine coarse': [((0, 1, 2), (), 0), ((0, 2), (), 0)],
    'steps': [((0, 2), (), 0), ((0, 2), (1,), 0)],
    'back': [((0, 1), (), 0), ((0, 2), (1,), 1)],
    'parts': [((1, 2), (), 0), ((0, 1), (), 1), ((0, 2), (), 0)],
    'again': [((0, 2), (1,), 0), ((0, 1, 2), (), 1), ((0, 2), (), 1)],
}


def several(env, name, order, paths, vs, w, j=None):
    ts = list(env.times('t', 3))
    env.separated(ts + [0])
    args = params(env, name)
    res = []
    for ix, st, i0 in ORDERS[order]:
        tt = [ts[k] for k in ix]
        p = make(env, name, vs, paths, i0, [ts[k] for k in st], args, dw=w,
                 **(dict(dj=j) if j else {}))
        res.append((tt, i0, p(np.array(tt))))
    W = {k: w(t) for k, t in enumerate(ts)}
    J = {k: j(t) for k, t in enumerate(ts)} if j else None
    for (ix, st, i0), (tt, i0, r) in zip(ORDERS[order], res):
        ref = closed(env, name, args, tt, i0, [W[k] for k in ix],
                     [J[k] for k in ix] if j else None)
        compare(env, r, tt, ref, 'closed form of the realized path')


@scenario({'name': ['wiener', 'lognorm'], 'order': list(ORDERS),
           'form': ['plain', 'rho']},
          thorough={'form': ['plain', 'rho', 'corr fun']})
def realized_wiener(env, name, order, form):
    kw, vs = {}, ()
    if form != 'plain':
        vs = (2,)
        r = env.real('r')
        env.assume(r > -1)
        env.assume(r < 1)
        kw = dict(rho=r if form == 'rho' else lambda t: r)
    w = I.true_wiener_source(paths=1, vshape=vs, rng=env.rng(),
                             dtype=env.dtype, **kw)
    several(env, name, order, 1, vs, w)


@scenario({'name': ['jumpdiff', 'merton', 'kou'], 'order': list(ORDERS)})
def realized_jumps(env, name, order):
    env.pois_max = 1
    w = Realized(env, 'w', (), 1)
    j = I.true_cpoisson_source(
        paths=1, rng=env.rng(), dtype=env.dtype, lam=env.real('lam',
                                                              pos=True),
        y=Jumps())
    several(env, name, order, 1, (), w, j)


class Realized(Path):
    def __call__(self, t, dt=None):
        return self.value(t) if dt is None else Path.__call__(self, t, dt)


@scenario({'order': list(ORDERS)})
def realized_counts(env, order):
    """an equation driven by a realized Poisson path"""
    env.pois_max = 1
    ts = list(env.times('t', 3))
    env.separated(ts + [0])
    a, c, x0 = env.real('a'), env.real('c'), env.real('x0')
    n = I.true_poisson_source(paths=1, rng=env.rng(), lam=env.real(
        'lam', pos=True))
    cls = integrate(lambda t, x: {'dt': a, 'dn': c})
    res = []
    for ix, st, i0 in ORDERS[order]:
        tt = [ts[k] for k in ix]
        p = cls(dn=n, x0=x0, i0=i0, dtype=env.dtype,
                steps=[ts[k] for k in st] or None)
        res.append((tt, i0, p(np.array(tt))))
    for tt, i0, r in res:
        for k, t in enumerate(tt):
            env.eq(r.x[k], x0 + a * (t - tt[i0]) + c * (n(t) - n(tt[i0])),
                   'closed form of the realized counts')


@scenario({'name': ['wiener', 'lognorm'], 'log': [False]})
def system_path(env, name, log):
    """equations of a system share one realized path"""
    ts = list(env.times('t', 3))
    env.separated(ts + [0])
    m, s = env.arr('m', (2,)), env.arr('s', (2,))
    x0 = env.real('x0', pos=True)
    geo = name == 'lognorm'
    f = lambda t, x=1., y=1.: [{'dt': m[0], 'dw': s[0]},
                               {'dt': m[1], 'dw': s[1]}]
    w = I.true_wiener_source(paths=1, vshape=(2,), rng=env.rng(),
                             dtype=env.dtype)
    cls = integrate(f, log=geo)
    res = [(ix, cls(dw=w, x0=x0, dtype=env.dtype)(np.array(
        [ts[k] for k in ix]))) for ix in ((0, 2), (0, 1, 2))]
    W = [w(t) for t in ts]
    for ix, rs in res:
        for q, r in enumerate(rs):
            for n, k in enumerate(ix):
                a = m[q] * (ts[k] - ts[0]) + s[q] * (W[k][q] - W[0][q])
                env.eq(r.x[n], x0 * np.exp(a) if geo else x0 + a,
                       'closed form')


@scenario({'sh': [((), 1), ((2,), 2)]})
def increments_of_a_process(env, sh):
    """a process used as a source delivers its increment over each step"""
    vs, paths = sh
    u = env.times('u', 2)
    x = env.arr('w', (2,) + vs + (paths,))
    w = sdepy.process(u, x=x)
    t, dt = env.real('t'), env.real('dt')
    env.eq(w(t, dt), w(t + dt) - w(t), 'increment')
    env.eq(w(u[0], u[1] - u[0]), x[1] - x[0], 'whole increment')
    env.eq(w(u[1], u[0] - u[1]), x[0] - x[1], 'backward increment')
