"""Reference recursions of the preset processes, and their execution."""
import numpy as np
import sdepy
from .doubles import Src, runs

I = sdepy.integration
POS = dict(pos=True)
NON = dict(nonneg=True)

# class, drift parameters, initial values, kind
SPEC = {
    'wiener': (I.wiener_process, dict(mu={}, sigma={}), dict(x0={})),
    'lognorm': (I.lognorm_process, dict(mu={}, sigma={}), dict(x0=POS)),
    'ou': (I.ornstein_uhlenbeck_process, dict(theta={}, k={}, sigma={}),
           dict(x0={})),
    'hw1f': (I.hull_white_1factor_process, dict(theta={}, k={}, sigma={}),
             dict(x0={})),
    'hw': (I.hull_white_process, dict(theta={}, k={}, sigma={}),
           dict(x0={})),
    'cir': (I.cox_ingersoll_ross_process, dict(theta=POS, k=POS, xi={}),
            dict(x0=POS)),
    'full_heston': (I.full_heston_process,
                    dict(mu={}, sigma={}, theta=POS, k=POS, xi={}),
                    dict(x0=POS, y0=POS)),
    'heston': (I.heston_process,
               dict(mu={}, sigma={}, theta=POS, k=POS, xi={}),
               dict(x0=POS, y0=POS)),
    'jumpdiff': (I.jumpdiff_process, dict(mu={}, sigma={}), dict(x0=POS)),
    'merton': (I.merton_jumpdiff_process, dict(mu={}, sigma={}),
               dict(x0=POS)),
    'kou': (I.kou_jumpdiff_process, dict(mu={}, sigma={}), dict(x0=POS)),
}
LOG = ('lognorm', 'jumpdiff', 'merton', 'kou')
JUMP = ('jumpdiff', 'merton', 'kou')
SCALES = dict(hw=lambda vs, f: vs + (f,))


def wshape(name, vs, factors=1):
    if name == 'hw':
        return vs + (factors,)
    if name in ('heston', 'full_heston'):
        return vs[:-1] + (2 * vs[-1],) if vs else (2,)
    return vs


class Par:
    """parameters in several forms; value of component c, path p, time t"""

    def __init__(self, env, shape, paths):
        self.env, self.shape, self.paths = env, tuple(shape), paths
        self.args, self.val = {}, {}

    def add(self, name, form, **kw):
        env, ws, paths = self.env, self.shape, self.paths
        if form == 'scalar':
            a = env.real(name, **kw)
            f = lambda c, p, t: a
        elif form == 'zerod':
            x = env.real(name, **kw)
            a = np.asarray(x)
            f = lambda c, p, t: x
        elif form == 'comp':
            a = env.arr(name, ws + (1,), **kw)
            f = lambda c, p, t: a[tuple(c) + (0,)]
        elif form == 'path':
            a = env.arr(name, (paths,), **kw)
            f = lambda c, p, t: a[p]
        elif form == 'full':
            a = env.arr(name, ws + (paths,), **kw)
            f = lambda c, p, t: a[tuple(c) + (p,)]
        elif form == 'list':
            a_ = env.arr(name, ws + (1,), **kw)
            a = a_.tolist()
            f = lambda c, p, t: a_[tuple(c) + (0,)]
        else:
            kind = 'pos' if kw.get('pos') else 'real'
            if form == 'fun':
                g = env.func(name, kind)
                a = lambda t: g(t)
                f = lambda c, p, t: g(t)
            elif form in ('fun_comp', 'fun_path', 'fun_full'):
                sh = dict(fun_comp=ws + (1,), fun_path=(paths,),
                          fun_full=ws + (paths,))[form]

                def g(i):
                    return env.func(name + ''.join('_%d' % k for k in i),
                                    kind)

                def a(t):
                    out = env.obj(sh)
                    for i in np.ndindex(*sh):
                        out[i] = g(i)(t)
                    return out
                f = lambda c, p, t: g(dict(
                    fun_comp=tuple(c) + (0,), fun_path=(p,),
                    fun_full=tuple(c) + (p,))[form])(t)
            elif form in ('process', 'process_full', 'process_const'):
                n = 1 if form == 'process_const' else 2
                u = env.times('u%d_' % n, n)   # shared: fewer orderings
                sh = (paths,) if form == 'process' else ws + (paths,)
                x = env.arr(name, (n,) + sh, **kw)
                a = sdepy.process(u, x=x)

                def f(c, p, t):
                    i = (p,) if form == 'process' else tuple(c) + (p,)
                    if n == 1:
                        return x[(0,) + i]
                    if bool(t <= u[0]):
                        return x[(0,) + i]
                    if bool(t >= u[1]):
                        return x[(1,) + i]
                    return x[(0,) + i] + (x[(1,) + i] - x[(0,) + i]) * (
                        t - u[0]) / (u[1] - u[0])
            else:
                raise KeyError(form)
        self.args[name] = a
        self.val[name] = f
        return self

    def __call__(self, name, c, p, t=None):
        return self.val[name](c, p, t)


def plus(env, x):
    return x if bool(x > 0) else 0 * x


def build(env, name, vs, paths, forms, factors=1, init=None, steps=None,
          i0=0, src=None, free=(), **kw):
    """(instance, parameters, dw, dj)"""
    cls, pars, inits = SPEC[name]
    ws = wshape(name, vs, factors)
    P = Par(env, ws if name == 'hw' else vs, paths)
    for k, (n, q) in enumerate(list(pars.items()) + list(inits.items())):
        form = forms if isinstance(forms, str) else forms[k % len(forms)]
        if n in inits:
            form = init or (form if form in (
                'scalar', 'zerod', 'comp', 'path', 'full', 'list')
                else 'scalar')
        P.add(n, form, **({} if n in free else q))
    args = dict(P.args)
    if src is None:
        args['dw'] = dw = Src(env, 'w', ws, paths)
        dj = None
        if name in JUMP:
            args['dj'] = dj = Src(env, 'j', ws, paths)
    else:
        args.update(src)
        dw, dj = src.get('dw'), src.get('dj')
    if name == 'hw':
        args['factors'] = factors
    args.update(kw)
    p = cls(paths=paths, vshape=vs, dtype=env.dtype, steps=steps, i0=i0,
            **args)
    return p, P, dw, dj


def reference(env, name, vs, paths, tt, steps, i0, P, W, J, factors=1):
    """expected outputs: list of arrays indexed [time, comp, path].
    W(i, p, s, ds), J(...): increments"""
    n = len(tt)
    two = name == 'full_heston'
    X = env.obj((n,) + vs + (paths,))
    Y = env.obj((n,) + vs + (paths,)) if two else None
    N = vs[-1] if vs else 1

    def loop(x0, c, p, step, put):
        put(i0, x0)
        for seq in seqs:
            x = x0
            for s, ds, hit in seq:
                x = step(x, s, ds)
                if hit is not None:
                    put(hit, x)
    seqs = [list(q) for q in runs(env, tt, steps, i0)]
    for c in np.ndindex(*vs):
        for p in range(paths):
            def put(i, x):
                X[(i,) + c + (p,)] = x
            if name in ('wiener', 'ou', 'hw1f', 'cir') or name in LOG:
                w = lambda s, ds: W(c + (p,), s, ds)
                if name == 'wiener':
                    def step(x, s, ds):
                        return x + P('mu', c, p, s) * ds + P(
                            'sigma', c, p, s) * w(s, ds)
                elif name in LOG:
                    def step(x, s, ds):
                        g = P('sigma', c, p, s)
                        a = (P('mu', c, p, s) - g * g / 2) * ds + g * w(
                            s, ds)
                        if name in JUMP:
                            a = a + J(c + (p,), s, ds)
                        return x * env.exp(a)
                elif name == 'cir':
                    def step(x, s, ds):
                        x_ = plus(env, x)
                        return x + P('k', c, p, s) * (
                            P('theta', c, p, s) - x_) * ds + P(
                            'xi', c, p, s) * env.sqrt(x_) * w(s, ds)
                else:
                    def step(x, s, ds):
                        return x + P('k', c, p, s) * (
                            P('theta', c, p, s) - x) * ds + P(
                            'sigma', c, p, s) * w(s, ds)
                loop(P('x0', c, p), c, p, step, put)
            elif name == 'hw':
                acc = env.obj((n, factors))
                for f in range(factors):
                    cf = c + (f,)

                    def step(x, s, ds):
                        return x + P('k', cf, p, s) * (
                            P('theta', cf, p, s) - x) * ds + P(
                            'sigma', cf, p, s) * W(cf + (p,), s, ds)

                    def putf(i, x):
                        acc[i, f] = x
                    loop(P('x0', cf, p), cf, p, step, putf)
                for i in range(n):
                    put(i, sum(acc[i, f] for f in range(factors)))
            else:
                cx = c if vs else (0,)
                cy = c[:-1] + (N + c[-1],) if vs else (1,)

                def step(xy, s, ds):
                    x, y = xy
                    y_ = plus(env, y)
                    g, r = P('sigma', c, p, s), env.sqrt(y_)
                    a = (P('mu', c, p, s) - g * g * y_ / 2) * ds + \
                        g * r * W(cx + (p,), s, ds)
                    return (x * env.exp(a), y + P('k', c, p, s) * (
                        P('theta', c, p, s) - y_) * ds + P(
                        'xi', c, p, s) * r * W(cy + (p,), s, ds))

                def put2(i, xy):
                    put(i, xy[0])
                    if two:
                        Y[(i,) + c + (p,)] = xy[1]
                loop((P('x0', c, p), P('y0', c, p)), c, p, step, put2)
    return [X, Y] if two else [X]


def compare(env, res, ref, tt, label='value'):
    res = res if isinstance(res, tuple) else (res,)
    env.true(len(res) == len(ref), 'number of processes')
    for r, x in zip(res, ref):
        env.true(isinstance(r, sdepy.process), 'a process')
        env.eq(np.asarray(r.t), np.array(tt), 'timeline')
        env.shape(r.x, x.shape, 'shape')
        for i in np.ndindex(*x.shape):
            env.eq(r.x[i], x[i], label)


LINES = {
    # name: (output times, extra steps inside the timeline, i0)
    'two': (2, 0, 0), 'three': (3, 0, 0), 'step': (2, 1, 0),
    'back': (2, 0, 1), 'back3': (3, 0, 2), 'middle': (3, 0, 1),
    'backstep': (2, 1, 1), 'one': (1, 0, 0), 'middlestep': (3, 1, 1),
    'four': (4, 0, 0), 'twosteps': (2, 2, 0), 'middle4': (4, 0, 2),
}
SHORT = [k for k in LINES if k not in ('four', 'twosteps')]


def line(env, key):
    n, m, i0 = LINES[key]
    tt = list(env.times('t', n))
    st = []
    for k in range(m):
        s = env.real('s%d' % k)
        env.assume(s > tt[0])
        env.assume(s < tt[-1])
        if n > 2:
            env.assume(s < tt[1])
        st.append(s)
    return tt, st, i0
