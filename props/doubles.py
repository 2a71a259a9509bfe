"""test doubles and reference recursions shared by the scenarios"""
import numpy as np


class Jumps:
    """a distribution delivering arbitrary jump sizes, recording the
    parameter it was made with"""

    def __init__(self, par=0):
        self.par = par

    def rvs(self, size, random_state):
        return random_state.user('Y', size, self.par)


class Src:
    """a source of arbitrary increments: the increment of each component and
    path is an arbitrary function of (t, dt)"""

    def __init__(self, env, name, vshape, paths):
        self.vshape = (vshape,) if isinstance(vshape, int) else tuple(vshape)
        self.paths = paths
        self.calls = []
        self.env, self.name = env, name

    def at(self, i, t, dt):
        return self.env.func(self.name + ''.join('_%d' % k for k in i))(
            t, dt)

    def __call__(self, t, dt):
        self.calls.append((t, dt))
        out = self.env.obj(self.vshape + (self.paths,))
        for i in np.ndindex(*out.shape):
            out[i] = self.at(i, t, dt)
        return out


def union(env, tt, steps):
    """output times and steps inside the timeline, once each, increasing"""
    out = list(tt)
    for s in steps:
        if not bool(s >= tt[0]) or not bool(s <= tt[-1]):
            continue
        k = 0
        while k < len(out) and bool(out[k] < s):
            k += 1
        if k == len(out) or not bool(out[k] == s):
            out.insert(k, s)
    return out


def runs(env, tt, steps, i0):
    """forward and backward sequences of (s, ds, index of the output time
    reached or None) from the initial time"""
    g = union(env, tt, steps)
    k0 = next(k for k, s in enumerate(g) if s is tt[i0] or
              bool(s == tt[i0]))
    for r, ks in ((1, range(k0 + 1, len(g))), (-1, range(k0 - 1, -1, -1))):
        i, seq = i0, []
        for k in ks:
            a, b = g[k - r], g[k]
            hit = None
            if 0 <= i + r < len(tt) and bool(tt[i + r] == b):
                i += r
                hit = i
            seq.append((a, b - a, hit))
        yield seq
