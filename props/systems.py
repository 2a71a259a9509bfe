"""User defined equations with arbitrary coefficients, and their recursion."""
import numpy as np
from .doubles import Src, runs


def coef(env, k, z, vs, paths, t, xs, par=0):
    """coefficient of source z in equation k: an arbitrary function of time,
    of the states of all equations and of a parameter, for each component"""
    out = env.obj(vs + (paths,))
    par = np.broadcast_to(par, out.shape)
    for i in np.ndindex(*out.shape):
        f = env.func('%s%d%s' % (z, k, ''.join('_%d' % c for c in i[:-1])))
        out[i] = f(t, *[x[i] for x in xs], par[i])
    return out


def block(vs, q, addaxis, c, k):
    """component of the sources dispatched to component c of equation k"""
    if q == 0:
        return tuple(c)
    if addaxis or vs == ():
        return tuple(c) + (k,)
    return tuple(c[:-1]) + (k * vs[-1] + c[-1],)


def wshape(vs, q, addaxis):
    if q == 0:
        return vs
    if addaxis or vs == ():
        return vs + (q,)
    return vs[:-1] + (vs[-1] * q,)


def reference(env, tt, steps, i0, vs, paths, q, addaxis, x0, terms, srcs,
              log=False, par=lambda t: 0):
    """values of each equation at the output times. x0[k]: array; terms:
    sources present in each equation"""
    n, nq = len(tt), max(q, 1)
    out = [env.obj((n,) + vs + (paths,)) for _ in range(nq)]
    full = [np.array(np.broadcast_to(x, vs + (paths,))) for x in x0]

    def put(i, xs):
        for k in range(nq):
            out[k][i] = xs[k]
    put(i0, full)
    for seq in runs(env, tt, steps, i0):
        xs = [x.copy() for x in full]
        for s, ds, hit in seq:
            new = []
            for k in range(nq):
                state = [env.log(x) for x in xs] if log else xs
                d = 0
                for z in terms[k]:
                    a = coef(env, k, z, vs, paths, s, state, par(s))
                    if z == 'dt':
                        d = d + a * ds
                    else:
                        w = env.obj(vs + (paths,))
                        for i in np.ndindex(*w.shape):
                            w[i] = srcs[z].at(block(
                                vs, q, addaxis, i[:-1], k) + i[-1:], s, ds)
                        d = d + a * w
                new.append(xs[k] * env.exp(d) if log else xs[k] + d)
            xs = new
            if hit is not None:
                put(hit, xs)
    return out


def compare(env, res, ref, tt, label='value'):
    import sdepy
    res = tuple(res) if isinstance(res, (tuple, list)) else (res,)
    env.true(len(res) == len(ref), 'number of processes')
    for r, x in zip(res, ref):
        env.true(isinstance(r, sdepy.process), 'a process')
        env.eq(np.asarray(r.t), np.array(tt), 'timeline')
        env.shape(r.x, x.shape, 'shape')
        for i in np.ndindex(*x.shape):
            env.eq(r.x[i], x[i], label)
