"""The environment handed to scenarios: symbolic mode (values are terms) and
concrete mode (values are floats taken from an assignment; the code under test
is the unpatched /repo code with the real numpy and scipy)."""
import contextlib
import math
import sys
import numpy as np
from fractions import Fraction as Fr

from . import core, nf, facade
from .core import (Sym, SymBool, SymC, Unsupported, PathAbort, const, var,
                   POS, NN, INT, TRUE, FALSE, band, bnot, bor)


class ReplayInvalid(BaseException):
    """a concrete assignment does not satisfy an assumption"""


class GoalFailed(BaseException):
    """symbolic goal refuted (carries the conditions)"""

    def __init__(self, label, conds, last):
        self.label, self.conds, self.last = label, conds, last


class Inconclusive(BaseException):
    def __init__(self, msg):
        self.msg = msg


def _grid(lo, hi, den=64):
    def gen(rnd):
        k = rnd.randint(math.ceil(lo * den), math.floor(hi * den))
        return k / den
    return gen


class Base:
    """API common to both modes"""

    def arr(self, name, shape=(), **kw):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object if self.sym else float)
        for i in np.ndindex(*shape):
            a[i] = self.real(name + ''.join('_%d' % k for k in i), **kw)
        return a

    def times(self, name, n, lo=None, hi=None, gap=None, strict=True):
        """increasing array of n times: first time and positive gaps"""
        a = np.empty(n, dtype=object if self.sym else float)
        for i in range(n):
            if i == 0:
                a[0] = self.real('%s0' % name, lo=lo,
                                 gen=(-2 if lo is None else lo,
                                      1 if lo is None else lo + 2))
                continue
            if gap:
                d = self.real('%s_gap%d' % (name, i), lo=gap,
                              gen=(gap, gap + 2))
            elif strict:
                d = self.real('%s_gap%d' % (name, i), pos=True,
                              gen=(0.0625, 2))
            else:
                d = self.real('%s_gap%d' % (name, i), nonneg=True,
                              gen=(0, 2))
            a[i] = a[i - 1] + d
        if hi is not None and n:
            self.assume(a[n - 1] <= hi)
        return a

    def group(self, names):
        pass

    def array(self, x):
        """nested list -> array in the current mode"""
        return np.array(x, dtype=object if self.sym else None)

    def obj(self, shape):
        return np.empty(shape, dtype=object if self.sym else float)

    def const(self, a):
        """concrete numbers as an array of the current mode"""
        a = np.asarray(a)
        if not self.sym:
            return a.astype(float)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = const(a[i])
        return out

    def bool(self, name):
        return self.choice(name, (False, True))

    def true(self, c, label=''):
        if isinstance(c, np.ndarray):
            for x in c.reshape(-1):
                self.true(x, label)
            return
        self._goal([c], label)

    def neq(self, a, b, label=''):
        self.true(bnot(a == b) if isinstance(a == b, SymBool)
                  else not (a == b), label)

    def le(self, a, b, label=''):
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        self._goal([self._le(x, y) for x, y in
                    zip(a.reshape(-1), b.reshape(-1))], label)

    def lt(self, a, b, label=''):
        a, b = np.broadcast_arrays(np.asarray(a), np.asarray(b))
        self._goal([x < y for x, y in zip(a.reshape(-1), b.reshape(-1))],
                   label)

    def same_shape(self, a, b, label):
        sa, sb = np.shape(a), np.shape(b)
        if sa != sb:
            self.fail('%s: shape %s, expected %s' % (label, sa, sb))
            return False
        return True

    def shape(self, a, shape, label=''):
        if np.shape(a) != tuple(shape):
            self.fail('%s: shape %s, expected %s' % (label, np.shape(a),
                                                     tuple(shape)))

    def eq(self, a, b, label='', shape=True):
        a, b = np.asarray(a), np.asarray(b)
        if shape and b.ndim == 0 and a.ndim:
            pass
        elif shape and not self.same_shape(a, b, label):
            return
        a, b = np.broadcast_arrays(a, b)
        a, b = a.view(np.ndarray), b.view(np.ndarray)
        self._goal([self._eq(x, y) for x, y in
                    zip(a.reshape(-1), b.reshape(-1))], label)

    def raises(self, exc, f, label=''):
        try:
            f()
        except exc:
            self.count()
            return
        self.fail('%s: %s not raised' % (label, getattr(
            exc, '__name__', exc)))

    def fail(self, label):
        self._goal([FALSE if self.sym else False], label)

    def identical(self, a, b, label=''):
        self.true(a is b, label)


class SymEnv(Base):
    sym = True
    dtype = object

    def __init__(self, eng, cfg):
        self.e = eng
        self.cfg = cfg
        self.tier = cfg.get('tier', 'quick')
        self.thorough = self.tier == 'thorough'
        self.ngoals = 0
        self.nz = {}
        self.pois_max = 2
        self.gsigma = {}
        eng.groups = []
        self.atol = None

    # values
    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None,
             flags=0):
        fl = flags
        if pos or (lo is not None and lo > 0):
            fl |= POS | NN
        elif nonneg or (lo is not None and lo >= 0):
            fl |= NN
        new = name not in self.e.vars
        if gen is None:
            g0 = lo if lo is not None else (0.125 if fl & POS else
                                            0. if fl & NN else -2.)
            g1 = hi if hi is not None else max(2., g0 + 2.)
        else:
            g0, g1 = gen
        x = self.e.newvar(name, fl, _grid(g0, g1))
        if new:
            if lo is not None and not (lo == 0 and fl & (POS | NN)):
                self.e.assume(core.le(const(lo), x))
            if hi is not None:
                self.e.assume(core.le(x, const(hi)))
        return x

    def int(self, name, lo, hi):
        new = name not in self.e.vars
        fl = INT | (NN if lo >= 0 else 0) | (POS if lo > 0 else 0)
        x = self.e.newvar(name, fl, lambda r: float(r.randint(lo, hi)))
        if new:
            self.e.assume(core.le(const(lo), x))
            self.e.assume(core.le(x, const(hi)))
        return x

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        x = self.int('choice:' + name, 0, len(options) - 1)
        for k in range(len(options) - 1):
            if bool(core.eq(x, const(k))):
                return options[k]
        return options[-1]

    def group(self, names):
        self.e.groups.append(list(names))

    def func(self, name, kind='real'):
        """uninterpreted function of any number of real arguments"""
        def f(*args):
            return core.fn('uf', (name, kind), *[facade.tosym(
                a[()] if isinstance(a, np.ndarray) else a) for a in args])
        return f

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for x in c.reshape(-1):
                self.e.assume(x)
        else:
            self.e.assume(c if isinstance(c, SymBool) else bool(c))

    def count(self):
        self.ngoals += 1

    # goals
    def _eq(self, x, y):
        if isinstance(x, (bool, np.bool_)) and isinstance(y, (bool,
                                                               np.bool_)):
            return core.bconst(bool(x) == bool(y))
        sx, sy = facade._special_or_none(x), facade._special_or_none(y)
        if sx or sy:
            if sx and sy:
                return core.bconst((math.isnan(x) and math.isnan(y))
                                   or x == y)
            return FALSE
        if not _numeric(x) or not _numeric(y):
            return core.bconst(bool(type(x) == type(y) and x == y))
        x, y = facade.tosym(x), facade.tosym(y)
        if isinstance(x, SymC) or isinstance(y, SymC):
            x, y = SymC.of(x), SymC.of(y)
            return band(core.eq(x.re, y.re), core.eq(x.im, y.im))
        r = core.eq(x, y)
        if r is TRUE:
            self.e.folded(x, y)
        return r

    def _le(self, x, y):
        return x <= y

    def _goal(self, conds, label):
        self.ngoals += 1
        cs = []
        for c in conds:
            if isinstance(c, (bool, np.bool_)):
                c = core.bconst(bool(c))
            elif not isinstance(c, SymBool):
                raise Unsupported('goal of type %r' % type(c))
            # flatten conjunctions
            cs += list(c.a) if c.op == 'and' else [c]
        k, last = self.e.prove(cs)
        if k == 'holds':
            return
        cs = [c for c in cs if c is not TRUE]
        if k == 'fails':
            raise GoalFailed(label, cs, last)
        raise Inconclusive('goal %r undecided by the solver: %s' % (
            label, core.show(cs[0], 300) if cs else ''))

    # functions
    exp = staticmethod(lambda x: facade.uf['exp'](x))
    log = staticmethod(lambda x: facade.uf['log'](x))
    sqrt = staticmethod(lambda x: facade.uf['sqrt'](x))
    abs = staticmethod(lambda x: facade.uf['abs'](x))
    maximum = staticmethod(lambda x, y: facade.uf['maximum'](x, y))
    minimum = staticmethod(lambda x, y: facade.uf['minimum'](x, y))
    ncdf = staticmethod(lambda x: facade._UF(facade.e_ncdf, 1, None)(x))
    npdf = staticmethod(lambda x: facade._UF(facade.e_npdf, 1, None)(x))
    where = staticmethod(facade.f_where)

    @property
    def pi(self):
        return core.pi()

    def ite(self, c, x, y):
        return facade.e_where(c, x, y)

    # random sources
    def rng(self, tag=''):
        return SymRng(self, tag)

    def diff(self, x, *vs):
        for v in vs:
            x = facade.tosym(x)
            x = SymC(nf.diff(x.re, v), nf.diff(x.im, v)) if isinstance(
                x, SymC) else nf.diff(x, v)
        return x

    def d(self, f, at, *ks):
        """partial derivative of f at the given variables, in the arguments
        of positions ks (the first by default)"""
        at = [x[()] if isinstance(x, np.ndarray) else x for x in at]
        back = {}
        for k in set(ks or (0,)):
            if not isinstance(at[k], Sym) or at[k].op != 'v':
                # at a positive variable, then replaced by the value
                self.nz['d'] = self.nz.get('d', 0) + 1
                v = self.real('d%d' % self.nz['d'], pos=True)
                back[v.id], at[k] = facade.tosym(at[k]), v
        r = np.asarray(f(*at))
        out = np.empty(r.shape, dtype=object)
        for i in np.ndindex(*r.shape):
            x = self.diff(r[i], *[at[k] for k in ks or (0,)])
            out[i] = self._sub(x, back) if back else x
        return out[()]

    @contextlib.contextmanager
    def quadrature(self, f):
        """f in place of scipy.integrate.quad"""
        facade.Quad.hook = staticmethod(f)
        try:
            yield
        finally:
            facade.Quad.hook = None

    def _sub(self, x, m):
        if isinstance(x, SymC):
            return SymC(nf.subst(x.re, m), nf.subst(x.im, m))
        return nf.subst(x, m)

    def gauss(self, build):
        return sym_lin(self, build, 'NG')

    def lin(self, build, kinds):
        return sym_lin(self, build, kinds)

    def separated(self, ts):
        """times either coincide or are apart well beyond rounding"""
        for i in range(len(ts)):
            for j in range(i):
                d = abs(ts[i] - ts[j])
                self.assume(bor(ts[i] == ts[j], d * 10**9 > abs(ts[i])
                                + abs(ts[j])))


def _numeric(x):
    return isinstance(x, (Sym, SymBool, SymC, int, float, complex, Fr,
                          np.number, np.bool_))


class ConcEnv(Base):
    sym = False
    dtype = None

    def __init__(self, values, cfg):
        self.values = values
        self.cfg = cfg
        self.tier = cfg.get('tier', 'quick')
        self.thorough = self.tier == 'thorough'
        self.failures = []
        self.ngoals = 0
        self.nz = {}
        self.pois_max = 2
        self.rtol = 1e-6
        self.atol = 1e-7

    def real(self, name, lo=None, hi=None, pos=False, nonneg=False, gen=None,
             flags=0):
        if name not in self.values:
            # not constrained on the symbolic path
            g0 = lo if lo is not None else (0.25 if pos else -2.)
            g1 = hi if hi is not None else max(2., g0 + 2.)
            if gen is not None:
                g0, g1 = gen
            self.values[name] = g0 + (g1 - g0) * (
                (len(self.values) * 37 % 64) / 64.)
        x = float(self.values[name])
        if (pos and x <= 0) or (nonneg and x < 0) or \
                (lo is not None and x < lo - 1e-12) or \
                (hi is not None and x > hi + 1e-12):
            raise ReplayInvalid(name)
        return x

    def int(self, name, lo, hi):
        if name not in self.values:
            self.values[name] = lo
        x = int(round(self.values[name]))
        if not lo <= x <= hi:
            raise ReplayInvalid(name)
        return x

    def choice(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.int('choice:' + name, 0, len(options) - 1)]

    def func(self, name, kind='real'):
        def f(*args):
            return core.ufval(name, kind, [float(a) for a in args])
        return f

    def assume(self, c):
        if not np.all(c):
            raise ReplayInvalid('assumption')

    def count(self):
        self.ngoals += 1

    def _close(self, x, y):
        if isinstance(x, (bool, np.bool_)) and isinstance(y, (bool,
                                                               np.bool_)):
            return bool(x) == bool(y)
        if not _numeric(x) or not _numeric(y):
            return bool(type(x) == type(y) and x == y)
        if x == y:
            return True
        if np.isnan(x) and np.isnan(y):
            return True
        if not (np.isfinite(x) and np.isfinite(y)):
            return False
        return abs(x - y) <= self.atol + self.rtol * (abs(x) + abs(y))

    def _eq(self, x, y):
        return self._close(x, y)

    def _le(self, x, y):
        return bool(x <= y) or self._close(x, y)

    def _goal(self, conds, label):
        self.ngoals += 1
        if not all(bool(c) for c in conds):
            self.failures.append(label)

    exp = staticmethod(np.exp)
    log = staticmethod(np.log)
    sqrt = staticmethod(np.sqrt)
    abs = staticmethod(np.abs)
    maximum = staticmethod(np.maximum)
    minimum = staticmethod(np.minimum)
    where = staticmethod(np.where)
    pi = math.pi

    @staticmethod
    def ncdf(x):
        import scipy.special
        return scipy.special.ndtr(x)

    @staticmethod
    def npdf(x):
        return np.exp(-np.asarray(x) ** 2 / 2) / math.sqrt(2 * math.pi)

    def ite(self, c, x, y):
        return x if c else y

    def rng(self, tag=''):
        return ReplayRng(self, tag)

    def d(self, f, at, *ks):
        ks = ks or (0,)
        self.rtol, self.atol = 2e-4, 2e-5
        at = [float(x) for x in at]
        h0 = {1: 1e-3, 2: 4e-3}.get(len(ks), 1.6e-2)

        def part(x, ks):
            if not ks:
                return np.asarray(f(*x))
            k, r = ks[0], 0.
            h = h0 * max(1., abs(x[k]))
            if x[k] > 0:      # stay on the side of the point
                h = min(h, x[k] / 8)
            for s, w in ((-2, 1), (-1, -8), (1, 8), (2, -1)):
                y = list(x)
                y[k] = x[k] + s * h
                r = r + w * part(y, ks[1:])
            return r / (12 * h)
        return part(at, ks)[()]

    @contextlib.contextmanager
    def quadrature(self, f):
        import scipy.integrate
        real = scipy.integrate.quad
        mods = [(scipy.integrate.__dict__, 'quad')] + [
            (m.__dict__, k) for n, m in list(sys.modules.items())
            if n.startswith('sdepy.') and m is not None
            for k, v in list(m.__dict__.items()) if v is real]
        for g, k in mods:
            g[k] = f
        try:
            yield
        finally:
            for g, k in mods:
                g[k] = real

    def gauss(self, build):
        return conc_lin(self, build, 'NG')

    def lin(self, build, kinds):
        return conc_lin(self, build, kinds)

    def separated(self, ts):
        for i in range(len(ts)):
            for j in range(i):
                d = abs(ts[i] - ts[j])
                self.assume(d == 0 or d * 1e9 > abs(ts[i]) + abs(ts[j]))


# ------------------------------------------------------------------ noise

class _Noise(np.ndarray):
    """symbolic draws: conversion to floating point leaves them untouched"""

    def astype(self, dtype=None, **k):
        a = self.view(np.ndarray)
        if dtype is None or facade._dt(dtype) == object:
            return a.copy()
        return a.astype(dtype)

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **k):
        f = [x.view(np.ndarray) if isinstance(x, _Noise) else x
             for x in inputs]
        if out is not None:
            k['out'] = tuple(x.view(np.ndarray) if isinstance(x, _Noise)
                             else x for x in out)
        return getattr(ufunc, method)(*f, **k)


class _RngMixin:
    """Random generator interface over environment supplied base noise.
    Records every draw in self.log: (kind, array of base values, params)."""

    def _setup(self, env, tag):
        self.env, self.tag = env, tag
        self.log = []
        self.n = 0

    def _shape(self, size):
        if size is None:
            return ()
        if isinstance(size, (int, np.integer, Sym)):
            return (int(size),)
        return tuple(int(s) for s in size)

    def _base(self, kind, size, mk):
        shape = self._shape(size)
        a = np.empty(shape, dtype=object if self.env.sym else float)
        for i in np.ndindex(*shape):
            a[i] = mk('%s%s%d' % (self.tag, kind, self.n))
            self.n += 1
        return a

    def _out(self, a, size):
        return a[()] if size is None else a

    def _rnormal(self, size):
        a = self._base('N', size, lambda nm: self._gvalue(nm))
        self.log.append(('N', a, None))
        return a

    def _gvalue(self, nm):
        return self.env.real(nm, gen=(-2, 2))

    def standard_normal(self, size=None, dtype=None, out=None):
        return self._out(self._rnormal(size), size)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if size is None:
            size_ = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
        else:
            size_ = size
        a = self._rnormal(size_)
        r = loc + scale * a
        return self._out(np.asarray(r), size) if np.shape(r) == () and \
            size is None else self._noise(r)

    def _noise(self, r):
        return np.asarray(r).view(_Noise) if self.env.sym else r

    def standard_exponential(self, size=None, dtype=None, method=None,
                             out=None):
        a = self._base('X', size, lambda nm: self.env.real(
            nm, lo=0, gen=(0.015625, 2)))
        self.log.append(('X', a, None))
        return self._out(a, size)

    def exponential(self, scale=1.0, size=None):
        if size is None:
            size = np.shape(scale)
        return scale * self.standard_exponential(size)

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None:
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        a = self._base('U', size, lambda nm: self.env.real(
            nm, lo=0, hi=1))
        self.log.append(('U', a, None))
        return low + (high - low) * a

    def random(self, size=None, dtype=None, out=None):
        return self.uniform(0., 1., size)
    random_sample = random

    def poisson(self, lam=1.0, size=None):
        if size is None:
            size = np.shape(lam)
        a = self._base('P', size, lambda nm: self.env.int(
            nm, 0, self.env.pois_max))
        lam = np.broadcast_to(np.asarray(lam), a.shape)
        self._check_lam(lam)
        self.log.append(('P', a, lam))
        if not self.env.sym:
            return a.astype(int)
        return a

    def _check_lam(self, lam):
        for x in lam.reshape(-1):
            if bool(x < 0):
                raise ValueError('lam < 0 or lam contains NaNs')

    def binomial(self, n, p, size=None):
        if size is None:
            size = np.broadcast(np.asarray(n), np.asarray(p)).shape
        shape = self._shape(size)
        n = np.broadcast_to(np.asarray(n), shape)
        p = np.broadcast_to(np.asarray(p), shape)
        for x in n.reshape(-1):
            if bool(x < 0):
                raise ValueError('n < 0')
        for x in p.reshape(-1):
            if bool(x < 0) or bool(x > 1):
                raise ValueError('p < 0, p > 1 or p is NaN')
        a = np.empty(shape, dtype=object if self.env.sym else float)
        for i in np.ndindex(*shape):
            k = int(n[i])
            nm = '%sB%d' % (self.tag, self.n)
            self.n += 1
            a[i] = self.env.int(nm, 0, k) if k else 0
        self.log.append(('B', a, (n, p)))
        return a if self.env.sym else a.astype(int)

    def user(self, kind, size, par=None):
        """draws requested by test doubles"""
        a = self._base(kind, size, lambda nm: self._gvalue(nm))
        self.log.append((kind, a, par))
        return a

    def multivariate_normal(self, mean, cov, size=None, check_valid='warn',
                            tol=1e-8, *, method='svd'):
        mean, cov = np.asarray(mean), np.asarray(cov)
        M = mean.shape[0]
        if cov.shape != (M, M):
            raise ValueError('mean and cov must have same length')
        shape = self._shape(size) + (M,)
        a = self._base('G', shape, lambda nm: self._gvalue(nm))
        self.log.append(('G', a, cov))
        return self._noise(mean + a)

    def permutation(self, *a, **k):
        raise Unsupported('rng.permutation')

    def __deepcopy__(self, memo):
        return self


class SymRng(_RngMixin):
    def __init__(self, env, tag=''):
        self._setup(env, tag)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('rng.' + k)


class ReplayRng(_RngMixin, np.random.Generator):
    """a genuine numpy Generator (accepted by scipy.stats) whose draws are
    the noise of the counterexample"""

    def __new__(cls, *args, **kw):
        return np.random.Generator.__new__(cls)

    def __init__(self, env, tag=''):
        np.random.Generator.__init__(self, np.random.PCG64(0))
        self._setup(env, tag)


class BasisRng(ReplayRng):
    """base draws of the varied kinds take values supplied by position (zero
    by default): used to probe affine maps"""

    def __init__(self, env, vals, kinds, tag):
        ReplayRng.__init__(self, env, tag)
        self.vals, self.kinds, self.k = vals, kinds, 0

    def _base(self, kind, size, mk):
        if kind not in self.kinds:
            return ReplayRng._base(self, kind, size, mk)
        shape = self._shape(size)
        a = np.empty(shape, dtype=float)
        for i in np.ndindex(*shape):
            a[i] = self.vals.get(self.k, 0.)
            self.k += 1
            self.n += 1
        return a


class Affine:
    """affine function of base noise"""

    def __init__(self, env, mean, coef, log, kinds):
        # mean: array; coef: list (per flattened output) of {k: coefficient}
        self.env, self.mean, self.coef, self.log = env, mean, coef, log
        self.shape = mean.shape
        self.params = []      # of each draw
        self.kind = []
        for kind, a, par in log:
            if kind not in kinds:
                continue
            p = None if par is None or isinstance(par, tuple) or \
                kind == 'G' else np.broadcast_to(par, a.shape)
            for i in np.ndindex(a.shape):
                self.params.append(None if p is None else p[i])
                self.kind.append(kind)
        self.n = len(self.params)
        if set(kinds) == set('NG'):
            self.sigma, _ = _sigma_of(log)

    def row(self, i):
        """{draw: coefficient} of one output entry"""
        return self.coef[self._ix(i)]

    def _ix(self, i):
        return int(np.ravel_multi_index(i, self.shape)) if self.shape else 0

    def cov(self, i, j):
        a, b = self.coef[self._ix(i)], self.coef[self._ix(j)]
        s = 0
        for p, x in a.items():
            for q, y in b.items():
                c = self.sigma(p, q)
                if c is not None:
                    s = s + x * y * c
        return s


def _sigma_of(log):
    """covariance lookup between base noise positions"""
    blk = {}
    pos = 0
    for kind, a, par in log:
        if kind == 'N':
            for _ in range(a.size):
                blk[pos] = (pos, None, 0)
                pos += 1
        elif kind == 'G':
            M = a.shape[-1]
            for r in range(a.size // M if M else 0):
                for m in range(M):
                    blk[pos] = (('G', pos - m), par, m)
                    pos += 1
        else:
            raise Unsupported('non gaussian noise in a gaussian law')

    def sigma(p, q):
        bp, bq = blk[p], blk[q]
        if bp[0] != bq[0]:
            return None
        if bp[1] is None:
            return 1
        return bp[1][bp[2], bq[2]]
    return sigma, pos


def _tag(env):
    env.nz['law'] = env.nz.get('law', 0) + 1
    return 'law%d_' % env.nz['law']


def sym_lin(env, build, kinds):
    rng = SymRng(env, _tag(env))
    out = np.asarray(build(rng))
    noise = [z for kind, a, p in rng.log if kind in kinds
             for z in a.reshape(-1)]
    zero = {z.id: const(0) for z in noise}
    mean = np.empty(out.shape, dtype=object)
    coef = []
    for i in np.ndindex(*out.shape):
        x = out[i]
        if not isinstance(x, Sym):
            if facade._special_or_none(x):
                env.fail('non finite value')
            x = const(x)
        ids = {z.id for z in core.cone([x])}
        m = nf.subst(x, zero)
        d = {}
        lin = m
        for k, z in enumerate(noise):
            if z.id in ids:
                c = nf.subst(nf.diff(x, z), zero)
                if isinstance(c, Sym) and c.op == 'c' and c.a[0] == 0:
                    continue
                d[k] = c
                lin = lin + c * z
        env.eq(x, lin, 'value is an affine function of the draws')
        mean[i] = m
        coef.append(d)
    return Affine(env, mean, coef, rng.log, kinds)


def conc_lin(env, build, kinds):
    tag = _tag(env)
    r0 = BasisRng(env, {}, kinds, tag)
    out0 = np.asarray(build(r0), dtype=float)
    n = sum(a.size for kind, a, p in r0.log if kind in kinds)
    coef = [dict() for _ in range(out0.size)]
    mix = {}
    for k in range(n):
        rk = BasisRng(env, {k: 1.}, kinds, tag)
        ok = np.asarray(build(rk), dtype=float)
        if ok.shape != out0.shape:
            env.fail('value is an affine function of the draws')
            break
        d = (ok - out0).reshape(-1)
        for j in range(out0.size):
            if d[j] != 0:
                coef[j][k] = d[j]
        mix[k] = (k * 29 + 7) % 17 if set(kinds) & set('PB') else (
            (k * 29 + 7) % 17 - 8) / 5.
    rm = BasisRng(env, mix, kinds, tag)
    om = np.asarray(build(rm), dtype=float).reshape(-1)
    if om.size == out0.size:
        lin = [out0.reshape(-1)[j] + sum(c * mix.get(k, 0.)
                                         for k, c in coef[j].items())
               for j in range(out0.size)]
        env.eq(om, np.array(lin), 'value is an affine function of the draws')
    else:
        env.fail('value is an affine function of the draws')
    return Affine(env, out0, coef, r0.log, kinds)
