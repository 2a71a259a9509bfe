import numpy as np
import sdepy
from sdepy import infrastructure as I
from symx.runner import scenario
from .doubles import Src, Jumps, runs
from .presets import SPEC, JUMP, LINES, SHORT, line, build, Par, wshape, plus

BOUNDS = ('timelines of 1-3 points with up to one extra step, forward and '
          'backward (diagnostics: forward, and the forward part of runs in '
          'both directions); value shapes (), (2,), (2,1); 1-2 paths; '
          'constant parameters and arbitrary source increments; up to 2 '
          'jumps per step and path')
ASSUMPTIONS = ['jump diagnostics: the source reports its counts, as '
               'cpoisson_source does']


def pair(env, a, b, vs, paths, key, ws=None, more=(), forms='scalar',
         args=(), ren=None):
    """the processes named a and b with the same parameters and noise"""
    tt, st, i0 = line(env, key)
    pars = dict(SPEC[a][1], **SPEC[a][2])
    P = Par(env, vs, paths)
    for n, q in pars.items():
        P.add(n, forms, **q)
    w = Src(env, 'w', wshape(a, vs) if ws is None else ws, paths)
    kw = dict(paths=paths, vshape=vs, dtype=env.dtype, i0=i0, dw=w,
              steps=tuple(st) or None)
    if a in JUMP:
        kw['dj'] = Src(env, 'j', vs, paths)
    t = np.array(tt)
    return (SPEC[a][0](**P.args, **kw), SPEC[b][0](**P.args, **kw), t)


@scenario({'key': SHORT, 'sh': [((), 1), ((), 2), ((2,), 1)],
           'forms': ['scalar', 'full']},
          thorough={'sh': [((), 1), ((), 2), ((2,), 1), ((2, 1), 1),
                           ((1, 2), 1)]})
def heston_component(env, key, sh, forms):
    """the price component of the full process"""
    vs, paths = sh
    p, q, t = pair(env, 'full_heston', 'heston', vs, paths, key, forms=forms)
    x, y = p(t)
    z = q(t)
    env.true(isinstance(z, sdepy.process), 'a process')
    env.eq(np.asarray(z.t), t, 'timeline')
    env.eq(z.x, x.x, 'same price')
    env.eq(np.asarray(q.info['negative_y_count']),
           np.asarray(p.info['negative_y_count']), 'same diagnostics')


@scenario({'key': list(LINES), 'vs': [(), (2,), (2, 1)], 'paths': [1, 2]})
def hull_white_one_factor(env, key, vs, paths):
    """one factor of the multi factor process"""
    tt, st, i0 = line(env, key)
    P = Par(env, vs, paths)
    for n in ('x0', 'theta', 'k', 'sigma'):
        P.add(n, 'comp')
    w = Src(env, 'w', vs, paths)
    kw = dict(paths=paths, vshape=vs, dtype=env.dtype, i0=i0,
              steps=tuple(st) or None)

    class one:
        vshape = vs + (1,)

        def __call__(self, t, dt):
            return w(t, dt)[..., None, :]
    v = one()
    v.paths = paths
    t = np.array(tt)
    a = SPEC['hw1f'][0](dw=w, **P.args, **kw)(t)
    args = {n: x[..., None, :] for n, x in P.args.items()}
    for b in (SPEC['hw'][0](dw=v, factors=1, **args, **kw)(t),
              SPEC['hw'][0](dw=v, **args, **kw)(t),
              SPEC['ou'][0](dw=w, **P.args, **kw)(t)):
        env.shape(b.x, a.x.shape, 'shape')
        env.eq(b.x, a.x, 'same values')
        env.eq(np.asarray(b.t), t, 'timeline')


@scenario({'key': list(LINES), 'vs': [(), (2,)], 'factors': [2, 3]})
def hull_white_sum(env, key, vs, factors):
    """the multi factor process is the sum of one factor processes"""
    tt, st, i0 = line(env, key)
    P = Par(env, vs + (factors,), 1)
    for n in ('x0', 'theta', 'k', 'sigma'):
        P.add(n, 'comp')
    w = Src(env, 'w', vs + (factors,), 1)
    kw = dict(paths=1, vshape=vs, dtype=env.dtype, i0=i0,
              steps=tuple(st) or None)
    t = np.array(tt)
    r = SPEC['hw'][0](dw=w, factors=factors, **P.args, **kw)(t)
    tot = 0
    for f in range(factors):
        class one:
            vshape = vs

            def __call__(self, t, dt):
                return w(t, dt)[..., f, :]
        v = one()
        v.paths = 1
        tot = tot + SPEC['ou'][0](dw=v, **{
            n: x[..., f, :] for n, x in P.args.items()}, **kw)(t).x
    env.eq(r.x, tot, 'sum of factors')


@scenario({'key': list(LINES), 'name': ['lognorm', 'merton', 'kou',
                                        'jumpdiff']})
def log_of(env, key, name):
    """positive processes are the exponential of the arithmetic process with
    the corresponding drift, on the same noise"""
    tt, st, i0 = line(env, key)
    mu, sigma = env.real('mu'), env.real('sigma')
    x0 = env.real('x0', pos=True)
    w, j = Src(env, 'w', (), 1), Src(env, 'j', (), 1)
    kw = dict(dtype=env.dtype, i0=i0, steps=tuple(st) or None)
    t = np.array(tt)
    more = dict(dj=j) if name in JUMP else {}
    a = SPEC[name][0](x0=x0, mu=mu, sigma=sigma, dw=w, **more, **kw)(t)

    class both:
        paths, vshape = 1, ()

        def __call__(self, t, dt):
            d = sigma * w(t, dt)
            return d + j(t, dt) if name in JUMP else d
    b = SPEC['wiener'][0](x0=env.log(x0), mu=mu - sigma * sigma / 2, sigma=1,
                          dw=both(), **kw)(t)
    env.eq(a.x, np.exp(b.x), 'exponential')


@scenario({'key': list(LINES)})
def variance_is_cir(env, key):
    """the variance of the Heston process is a Cox-Ingersoll-Ross process"""
    tt, st, i0 = line(env, key)
    a = {n: env.real(n, pos=True) for n in ('theta', 'k', 'xi', 'y0')}
    w = Src(env, 'w', (2,), 1)
    kw = dict(dtype=env.dtype, i0=i0, steps=tuple(st) or None)
    t = np.array(tt)
    x, y = SPEC['full_heston'][0](dw=w, **a, **kw)(t)

    class second:
        paths, vshape = 1, ()

        def __call__(self, t, dt):
            return w(t, dt)[1]
    z = SPEC['cir'][0](theta=a['theta'], k=a['k'], xi=a['xi'], x0=a['y0'],
                       dw=second(), **kw)(t)
    env.eq(y.x, z.x, 'variance')


NEG = [((), 1, k, 'any') for k in ('one', 'two', 'three', 'step', 'back',
                                   'middle', 'middlestep')] + [
    ((2,), 1, 'two', 'pos'), ((), 2, 'two', 'any'), ((2, 1), 1, 'back', 'pos')]


@scenario({'name': ['full_heston', 'heston'], 'case': NEG},
          thorough={'case': [((), 1, k, 'any') for k in SHORT] +
                    [((2,), 1, 'three', 'pos'), ((), 2, 'three', 'pos'),
                     ((2,), 1, 'two', 'any'), ((2, 1), 1, 'back', 'any')]})
def negative_variance(env, name, case):
    """number of steps started from a negative variance"""
    vs, paths, key, start = case
    tt, st, i0 = line(env, key)
    p, P, w, _ = build(env, name, vs, paths, 'scalar', i0=i0,
                       steps=tuple(st) or None,
                       free=('y0',) if start == 'any' else ())
    p(np.array(tt))
    got = np.asarray(p.info['negative_y_count'])
    env.shape(got, vs + (paths,), 'shape')
    fwd, back = runs(env, tt, st, i0)
    seq = list(fwd) or list(back)
    N = vs[-1] if vs else 1
    for c in np.ndindex(*vs):
        cy = c[:-1] + (N + c[-1],) if vs else (1,)
        for k in range(paths):
            y, n = P('y0', c, k), 0
            for s, ds, _ in seq:
                if bool(y < 0):
                    n += 1
                y_ = plus(env, y)
                y = y + P('k', c, k, s) * (P('theta', c, k, s) - y_) * ds + \
                    P('xi', c, k, s) * env.sqrt(y_) * w.at(cy + (k,), s, ds)
            env.eq(got[c + (k,)], n, 'steps from a negative variance')


class Info(dict):
    """keeps counters of any kind of number"""

    def __setitem__(self, k, v):
        if isinstance(v, np.ndarray):
            v = v.astype(object)
        dict.__setitem__(self, k, v)


class Counted(Src):
    """jumps reporting arbitrary counts"""

    def __init__(self, *args):
        Src.__init__(self, *args)
        self.counts = []

    def __call__(self, t, dt):
        out = Src.__call__(self, t, dt)
        n = np.zeros(out.shape, dtype=object if self.env.sym else int)
        for i in np.ndindex(*out.shape):
            n[i] = self.env.int('n%d_%s' % (len(self.counts),
                                            '_'.join(map(str, i))), 0, 9)
        self.counts.append((t, n))
        self.dn_value = n
        return out


@scenario({'name': list(JUMP), 'sh': [((), 1), ((2,), 1), ((), 2)],
           'key': ['one', 'two', 'three', 'step', 'middle', 'middlestep']})
def jump_diagnostics(env, name, sh, key):
    vs, paths = sh
    tt, st, i0 = line(env, key)
    J = Counted(env, 'j', vs, paths)
    w = Src(env, 'w', vs, paths)
    p, P, _, _ = build(env, name, vs, paths, 'scalar', i0=i0,
                       steps=tuple(st) or None, src=dict(dw=w, dj=J),
                       **(dict(info=Info()) if env.sym else {}))
    p(np.array(tt))
    count, rate = (np.asarray(p.info[k]) for k in ('jump_count',
                                                   'jump_rate'))
    env.shape(count, vs + (paths,), 'shape of counts')
    fwd = [n for (s, n), (u, du) in zip(J.counts, J.calls) if bool(du > 0)]
    env.eq(count, sum(fwd, np.zeros(vs + (paths,), dtype=int)),
           'number of jumps')
    tf = tt[i0:]
    env.shape(rate, (len(tf),), 'shape of rates')
    seq, _ = runs(env, tt, st, i0)
    k, tot = 0, 0
    for (s, ds, hit), n in zip(seq, fwd):
        tot = tot + n.sum()
        if hit is not None:
            env.eq(rate[k], tot / (tf[k + 1] - tf[k]) / paths,
                   'jumps per path and unit time')
            k, tot = k + 1, 0


@scenario({'name': list(JUMP), 'key': ['two', 'step']})
def jumps_drawn(env, name, key):
    """counts of the jumps drawn by the source built internally"""
    env.pois_max = 2 if key == 'two' or env.thorough else 1
    tt, st, i0 = line(env, key)
    lam = env.real('lam', pos=True)
    w = Src(env, 'w', (), 2)
    y = dict(y=Jumps()) if name == 'jumpdiff' else {}
    p = SPEC[name][0](paths=2, rng=env.rng('z'), lam=lam, dw=w,
                      steps=tuple(st) or None, dtype=env.dtype, **y)
    p(np.array(tt))
    c = I.cpoisson_source(paths=2, rng=env.rng('z'), lam=lam,
                          dtype=env.dtype, y=p.sources['dj'].y)
    n = 0
    for s, ds, _ in next(runs(env, tt, st, i0)):
        c(s, ds)
        n = n + c.dn_value
    env.eq(np.asarray(p.info['jump_count']), n, 'number of jumps')
    env.eq(np.asarray(p.info['jump_rate'])[0], n.sum() / (tt[1] - tt[0]) / 2,
           'rate')


@scenario({'name': ['full_heston', 'merton', 'wiener']})
def diagnostics_on_demand(env, name):
    """diagnostics do not change the result, and go where asked"""
    tt, st, i0 = line(env, 'step')
    mine = dict(mine=1)
    r = []
    for kw in (dict(), dict(getinfo=False), dict(info=mine)):
        w, j = Src(env, 'w', wshape(name, ()), 1), Src(env, 'j', (), 1)
        p = SPEC[name][0](dw=w, steps=tuple(st), dtype=env.dtype, **kw, **(
            dict(dj=j) if name in JUMP else {}))
        q = p(np.array(tt))
        r.append(q[0].x if isinstance(q, tuple) else q.x)
        if kw.get('getinfo') is False:
            env.true(not p.info, 'nothing recorded')
        if 'info' in kw:
            env.true(p.info is mine and mine['mine'] == 1, 'given dict')
            env.eq(mine['computed_steps'], 2, 'steps')
            env.eq(mine['stored_steps'], 1, 'stored')
            env.eq(np.asarray(mine['t0']), tt[0], 't0')
            env.eq(np.asarray(mine['tmax']), tt[1], 'tmax')
    env.eq(r[1], r[0], 'same without diagnostics')
    env.eq(r[2], r[0], 'same with a given dict')
