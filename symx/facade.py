"""Stand-ins for numpy / scipy names seen by the code under test while it is
executed symbolically. numpy itself runs for real on object arrays; only the
functions that numpy cannot apply to python objects (transcendental functions,
float allocation, sorting-free piecewise functions, histogram, interpolation,
distributions) are replaced, by their documented contract."""
import builtins
import contextlib
import math
import sys
import types
import warnings

import numpy as np
import scipy
import scipy.interpolate
import scipy.stats
import scipy.special
import scipy.integrate

from . import core
from .core import (Sym, SymBool, SymC, Unsupported, const, ite, _special,
                   TRUE, FALSE)

realfloat = float


def tosym(x):
    if isinstance(x, (Sym, SymC)):
        return x
    if isinstance(x, SymBool):
        return x._num()
    if isinstance(x, (complex, np.complexfloating)):
        return SymC.of(x)
    return const(x)


def is_sym(x):
    return isinstance(x, (Sym, SymBool, SymC))


def has_sym(*args):
    for a in args:
        if is_sym(a):
            return True
        if isinstance(a, np.ndarray):
            if a.dtype == object:
                return True
        elif isinstance(a, (list, tuple)):
            if has_sym(*a):
                return True
    return False


# ------------------------------------------------------------- elementwise

def _special_or_none(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(x)


def e_sqrt(x):
    if _special_or_none(x):
        return math.sqrt(x) if x == math.inf else float('nan')
    return tosym(x).sqrt()


def e_exp(x):
    if _special_or_none(x):
        return float('nan') if math.isnan(x) else (
            math.inf if x > 0 else const(0))
    return tosym(x).exp()


def e_log(x):
    if _special_or_none(x):
        return math.inf if x == math.inf else float('nan')
    return tosym(x).log()


def e_abs(x):
    if _special_or_none(x):
        return abs(x)
    return abs(tosym(x))


def e_sign(x):
    if _special_or_none(x):
        return float(np.sign(x))
    return tosym(x).sign()


def e_square(x):
    return x * x


def e_max(x, y):
    sx, sy = _special_or_none(x), _special_or_none(y)
    if sx or sy:
        if (sx and math.isnan(x)) or (sy and math.isnan(y)):
            return float('nan')
        if sx:
            return x if (x > 0) else y
        return y if (y > 0) else x
    return core.maximum(tosym(x), tosym(y))


def e_min(x, y):
    sx, sy = _special_or_none(x), _special_or_none(y)
    if sx or sy:
        if (sx and math.isnan(x)) or (sy and math.isnan(y)):
            return float('nan')
        if sx:
            return x if (x < 0) else y
        return y if (y < 0) else x
    return core.minimum(tosym(x), tosym(y))


def e_where(c, x, y):
    if isinstance(c, SymBool):
        if c is TRUE:
            return x
        if c is FALSE:
            return y
        if _special_or_none(x) or _special_or_none(y) or \
                isinstance(x, SymC) or isinstance(y, SymC):
            return x if bool(c) else y
        return ite(c, tosym(x), tosym(y))
    return x if c else y


def e_isnan(x):
    return np.bool_(isinstance(x, (float, np.floating)) and math.isnan(x))


def e_isinf(x):
    return np.bool_(isinstance(x, (float, np.floating)) and math.isinf(x))


def e_isfinite(x):
    return np.bool_(not _special_or_none(x))


def e_real(x):
    return x.real


def e_imag(x):
    return x.imag


def e_not(x):
    return (not x) if not isinstance(x, SymBool) else ~x


def _method(name, num):
    """elementwise function by the method of symbolic values of this name"""
    def f(x):
        if _special_or_none(x):
            with np.errstate(all='ignore'):
                return float(num(x))
        return getattr(tosym(x), name)()
    f.__name__ = name
    return f


def e_floor(x):
    return const(math.floor(x)) if not isinstance(x, Sym) else x.floor()


def e_ceil(x):
    return const(math.ceil(x)) if not isinstance(x, Sym) else x.ceil()


def e_trunc(x):
    x = tosym(x)
    return x.floor() if bool(core.le(const(0), x)) else x.ceil()


def e_cbrt(x):
    x = tosym(x)
    if bool(core.le(const(0), x)):
        return x ** core.Fraction(1, 3)
    return -((-x) ** core.Fraction(1, 3))


def e_hypot(x, y):
    return e_sqrt(x * x + y * y)


def e_heaviside(x, y):
    x = tosym(x)
    return core.ite(core.lt(x, const(0)), const(0),
                    core.ite(core.lt(const(0), x), const(1), tosym(y)))


def e_signbit(x):
    return np.signbit(x) if _special_or_none(x) else core.lt(
        tosym(x), const(0))


def e_copysign(x, y):
    x = e_abs(x)
    return core.ite(core.lt(tosym(y), const(0)), tosym(-x), tosym(x))


def e_isposinf(x):
    return np.bool_(_special_or_none(x) and x == math.inf)


def e_isneginf(x):
    return np.bool_(_special_or_none(x) and x == -math.inf)


def e_logaddexp(x, y):
    return e_log(e_exp(x) + e_exp(y))


def e_power(x, y):
    if _special_or_none(x) or _special_or_none(y):
        with np.errstate(all='ignore'):
            return float(np.power(float(x), float(y)))
    return (x if isinstance(x, SymC) else tosym(x)) ** y


def e_erfc(x):
    return 1 - e_erf(x)


def e_log_ndtr(x):
    return e_log(e_ncdf(x))


def e_xlogy(x, y):
    x = tosym(x)
    if x.op == 'c' and x.a[0] == 0:
        return const(0)
    if x.op != 'c' and bool(core.eq(x, const(0))):
        return const(0)
    return x * e_log(y)


def e_ive(nu, x):
    x = tosym(x)
    return e_iv(nu, x) * e_exp(-abs(x))


def e_ncdf(x):
    if _special_or_none(x):
        return float('nan') if math.isnan(x) else (
            const(1) if x > 0 else const(0))
    x = tosym(x)
    if x.op == 'c' and x.a[0] == 0:
        return const(core.Fraction(1, 2))
    return core.fn('ncdf', x)


def e_npdf(x):
    if _special_or_none(x):
        return float('nan') if math.isnan(x) else const(0)
    from . import nf
    return nf.npdf(tosym(x))


def e_erf(x):
    if _special_or_none(x):
        return float('nan') if math.isnan(x) else const(1 if x > 0 else -1)
    return 2 * e_ncdf(tosym(x) * const(2).sqrt()) - 1


def e_iv(nu, x):
    return core.fn('iv', tosym(nu), tosym(x))


def e_isclose(a, b, rtol, atol):
    if _special_or_none(a) or _special_or_none(b):
        return bool(np.isclose(float(a) if not is_sym(a) else 0., float(b)
                               if not is_sym(b) else 0.)) and not (
            is_sym(a) or is_sym(b))
    a, b = tosym(a), tosym(b)
    return core.le(abs(a - b), tosym(atol) + tosym(rtol) * abs(b))


class _UF:
    """elementwise function for object arrays with ufunc call conventions
    (out=, where is unsupported), preserving ndarray subclasses"""

    def __init__(self, f, nin, real, always=True, boolean=False):
        self.u = np.frompyfunc(f, nin, 1)
        self.real = real
        self.always = always
        self.boolean = boolean
        self.nin = nin
        self.__name__ = getattr(real, '__name__', 'f')

    def __call__(self, *args, **kw):
        out = kw.pop('out', None)
        kw.pop('dtype', None) if has_sym(*args) or self.always else None
        if len(args) > self.nin:
            out = args[self.nin]
            args = args[:self.nin]
        if isinstance(out, tuple):
            out = out[0]
        isobj = has_sym(*args) or (out is not None and has_sym(out))
        if not isobj and not self.always:
            if out is not None:
                kw['out'] = out
            return self.real(*args, **kw)
        if not isobj and out is not None:
            # numeric in-place (e.g. concrete float buffers)
            return self.real(*args, out=out, **kw)
        where = kw.pop('where', True)
        if kw:
            raise Unsupported('ufunc kwargs %r' % sorted(kw))
        if out is not None:
            if where is not True:
                return self.u(*args, out=out, where=where)
            return self.u(*args, out=out)
        args = tuple(a if isinstance(a, np.ndarray) or is_sym(a)
                     or np.isscalar(a) else np.asarray(a) for a in args)
        r = self.u(*args)
        if self.boolean and isinstance(r, np.ndarray) and not any(
                isinstance(z, SymBool) for z in r.flat):
            r = r.astype(bool)
        return r

    def __getattr__(self, k):
        if k == 'reduce':
            def red(a, axis=0, **kw):
                a = np.asarray(a)
                return self.u.reduce(a, axis=axis, **{
                    k: v for k, v in kw.items() if k in ('keepdims',)})
            return red
        if k == 'accumulate':
            return lambda a, axis=0: self.u.accumulate(np.asarray(a),
                                                       axis=axis,
                                                       dtype=object)
        if k == 'outer':
            return self.u.outer
        raise AttributeError(k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, realfloat)

    def __subclasscheck__(cls, c):
        return issubclass(c, realfloat)

    def __eq__(cls, o):
        return o is cls or o is realfloat

    def __hash__(cls):
        return hash(realfloat)

    def __call__(cls, x=0.0):
        if is_sym(x):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return x.reshape(-1)[0]
        return realfloat(x)


class symfloat(metaclass=_FloatMeta):
    """shadows `float` in the modules under test: as a dtype it means object,
    as a conversion it leaves symbolic values untouched"""
    fromhex = realfloat.fromhex


def _dt(dtype, default=object):
    """dtype translation: floating -> object"""
    if dtype is None:
        return default
    if dtype is symfloat or dtype is realfloat:
        return object
    d = np.dtype(dtype)
    if d.kind in 'fc':
        return object
    return d


class _Uninit:
    n = 0


def _fill(shape, dtype, v):
    if isinstance(shape, (Sym, SymBool)):
        shape = int(shape)
    a = np.empty(shape, dtype=dtype)
    if dtype == object:
        a.fill(v)
    else:
        a[...] = v
    return a


def f_zeros(shape, dtype=None, order='C', **k):
    d = _dt(dtype)
    return _fill(shape, d, const(0)) if d == object else np.zeros(shape, d)


def f_ones(shape, dtype=None, order='C', **k):
    d = _dt(dtype)
    return _fill(shape, d, const(1)) if d == object else np.ones(shape, d)


def f_empty(shape, dtype=None, order='C', **k):
    d = _dt(dtype)
    if d == object:
        return _fill(shape, d, core.var('uninitialized'))
    return np.zeros(shape, d) - 987654 if np.dtype(d).kind == 'i' \
        else np.empty(shape, d)


def _elem(v):
    if is_sym(v) or _special_or_none(v):
        return v
    return const(v)


def f_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None:
        fv = np.asarray(fill_value)
        d = object if fv.dtype.kind in 'fO' else fv.dtype
    else:
        d = _dt(dtype)
    if d == object:
        fv = np.asarray(fill_value)
        if fv.ndim == 0:
            v = fv[()]
            return _fill(shape, d, _elem(v))
        a = _fill(shape, d, const(0))
        a[...] = fill_value
        return a
    return np.full(shape, fill_value, d)


def _like(f):
    def g(a, *args, dtype=None, shape=None, **k):
        a = np.asarray(a)
        d = a.dtype if dtype is None else dtype
        return f(a.shape if shape is None else shape, *args, dtype=d)
    return g


def f_asarray(a, dtype=None, **k):
    if dtype is not None:
        dtype = _dt(dtype)
    k.pop('order', None)
    return np.asarray(a, dtype=dtype)


def f_asanyarray(a, dtype=None, **k):
    if dtype is not None:
        dtype = _dt(dtype)
    return np.asanyarray(a, dtype=dtype)


def f_array(a, dtype=None, **k):
    if dtype is not None:
        dtype = _dt(dtype)
    return np.array(a, dtype=dtype, **k)


_where = np.frompyfunc(e_where, 3, 1)


def f_where(c, *args):
    if not args:
        return np.where(c)
    x, y = args
    if has_sym(c, x, y):
        if isinstance(c, np.ndarray) or isinstance(x, np.ndarray) or \
                isinstance(y, np.ndarray):
            r = _where(c, x, y)
            if not isinstance(r, np.ndarray):
                r = core._box(r)
            return r
        return core._box(e_where(c, x, y))
    return np.where(c, x, y)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym(a, b, rtol, atol):
        return np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=equal_nan)
    r = np.frompyfunc(e_isclose, 4, 1)(a, b, rtol, atol)
    return r


def f_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    r = f_isclose(a, b, rtol, atol)
    return bool(np.all(r))


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None,
               axis=0):
    if not has_sym(start, stop):
        if _dt(dtype) == object and not retstep:
            return np.linspace(start, stop, num, endpoint=endpoint).astype(
                object)
        return np.linspace(start, stop, num, endpoint=endpoint,
                           retstep=retstep, dtype=dtype)
    num = int(num)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    step = (stop - start) / div if div > 0 else float('nan')
    for i in range(num):
        out[i] = start + (stop - start) * i / div if div > 0 else start
    if endpoint and num > 1:
        out[-1] = tosym(stop) + 0
    if num:
        out[0] = tosym(out[0]) + 0
    return (out, step) if retstep else out


def f_arange(*args, **k):
    if has_sym(*args):
        raise Unsupported('arange on symbolic values')
    if 'dtype' in k:
        k['dtype'] = _dt(k['dtype'])
    return np.arange(*args, **k)


def f_clip(a, lo, hi, out=None, **k):
    if not has_sym(a, lo, hi):
        return np.clip(a, lo, hi, out=out, **k)
    r = a
    if lo is not None:
        r = NPO.maximum(r, lo)
    if hi is not None:
        r = NPO.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def f_fromiter(it, dtype, count=-1, **k):
    d = _dt(dtype)
    if d == object:
        z = list(it)
        out = np.empty(len(z), dtype=object)
        for i, y in enumerate(z):
            out[i] = y
        return out
    return np.fromiter(it, d, count)


def f_finfo(d):
    return np.finfo(realfloat)


def _amin_reduce(f):
    def g(a, axis=None, out=None, keepdims=False, **k):
        a = np.asarray(a)
        if a.dtype != object:
            return f.real.reduce(a, axis=axis, keepdims=keepdims)
        return f.u.reduce(a, axis=axis, keepdims=keepdims)
    return g


def f_histogram(a, bins=10, range=None, density=None, weights=None):
    a = np.asarray(a)
    if not has_sym(a, bins) and not (range is not None and has_sym(*range)):
        return np.histogram(a, bins=bins, range=range, density=density,
                            weights=weights)
    if weights is not None:
        raise Unsupported('histogram weights')
    a = a.ravel()
    if isinstance(bins, str):
        raise Unsupported('histogram bins=%r' % bins)
    if np.ndim(bins) == 0:
        nb = int(bins)
        if range is not None:
            lo, hi = range
        else:
            if a.size == 0:
                lo, hi = 0., 1.
            else:
                lo = hi = a[0]
                for z in a[1:]:
                    if z < lo:
                        lo = z
                    if z > hi:
                        hi = z
        if lo == hi:
            lo, hi = lo - const(1) / 2, hi + const(1) / 2
        edges = f_linspace(tosym(lo), tosym(hi), nb + 1)
    else:
        edges = np.asarray(bins)
        nb = edges.size - 1
        for i in builtins.range(nb):
            if edges[i] > edges[i + 1]:
                raise ValueError('`bins` must increase monotonically, when '
                                 'an array')
    counts = np.zeros(nb, dtype=np.intp)
    for z in a:
        if _special_or_none(z):
            continue
        if z < edges[0]:
            continue
        for i in builtins.range(nb):
            last = i == nb - 1
            if (z <= edges[i + 1]) if last else (z < edges[i + 1]):
                counts[i] += 1
                break
    if density:
        return counts / counts.sum() / np.diff(edges), edges
    return counts, edges


def f_interp(x, xp, fp, left=None, right=None):
    xp, fp = np.asarray(xp), np.asarray(fp)
    f = interp1d(xp, fp, kind='linear', bounds_error=False,
                 fill_value=(fp[0] if left is None else left,
                             fp[-1] if right is None else right))
    return f(x)


def f_inv(a):
    a = np.asarray(a)
    if a.dtype != object:
        return np.linalg.inv(a)
    n = a.shape[-1]
    if a.ndim != 2:
        raise Unsupported('inv of stacked matrices')
    if n == 1:
        out = np.empty((1, 1), dtype=object)
        out[0, 0] = 1 / tosym(a[0, 0])
        return out
    det = _det(a)
    out = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            m = np.delete(np.delete(a, j, 0), i, 1)
            out[i, j] = (-1) ** (i + j) * _det(m) / det
    return out


def _det(a):
    n = a.shape[0]
    if n == 1:
        return tosym(a[0, 0])
    s = const(0)
    for j in range(n):
        m = np.delete(np.delete(a, 0, 0), j, 1)
        s = s + (-1) ** j * a[0, j] * _det(m)
    return s


def f_det(a):
    a = np.asarray(a)
    return np.linalg.det(a) if a.dtype != object else _det(a)


def f_solve(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype != object and b.dtype != object:
        return np.linalg.solve(a, b)
    return f_inv(a.astype(object)) @ b


def f_cholesky(a):
    a = np.asarray(a)
    if a.dtype != object:
        return np.linalg.cholesky(a)
    n = a.shape[0]
    L = _fill((n, n), object, const(0))
    for i in range(n):
        for j in range(i + 1):
            s = tosym(a[i, j])
            for k in range(j):
                s = s - L[i, k] * L[j, k]
            if i == j:
                if not bool(s > 0):
                    raise np.linalg.LinAlgError('Matrix is not positive '
                                                'definite')
                L[i, j] = s.sqrt()
            else:
                L[i, j] = s / L[j, j]
    return L


def f_einsum(spec, *ops, **k):
    if not has_sym(*ops):
        return np.einsum(spec, *ops, **k)
    return np.einsum(spec, *[np.asarray(o).astype(object) for o in ops], **k)


def f_real(x):
    if has_sym(x):
        return np.frompyfunc(e_real, 1, 1)(x)
    return np.real(x)


def f_imag(x):
    if has_sym(x):
        return np.frompyfunc(e_imag, 1, 1)(x)
    return np.imag(x)


def f_unique(a, **k):
    return np.unique(np.asarray(a), **k)


class _Proxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self.__dict__['_real'], k)


uf = {
    'sqrt': _UF(e_sqrt, 1, np.sqrt), 'exp': _UF(e_exp, 1, np.exp),
    'log': _UF(e_log, 1, np.log),
    'abs': _UF(e_abs, 1, np.abs, False),
    'absolute': _UF(e_abs, 1, np.abs, False),
    'fabs': _UF(e_abs, 1, np.fabs, False),
    'sign': _UF(e_sign, 1, np.sign, False),
    'square': _UF(e_square, 1, np.square, False),
    'maximum': _UF(e_max, 2, np.maximum, False),
    'minimum': _UF(e_min, 2, np.minimum, False),
    'fmax': _UF(e_max, 2, np.fmax, False),
    'fmin': _UF(e_min, 2, np.fmin, False),
    'isnan': _UF(e_isnan, 1, np.isnan, False, True),
    'isinf': _UF(e_isinf, 1, np.isinf, False, True),
    'isfinite': _UF(e_isfinite, 1, np.isfinite, False, True),
    'logical_not': _UF(e_not, 1, np.logical_not, False, True),
    'floor': _UF(e_floor, 1, np.floor, False),
    'ceil': _UF(e_ceil, 1, np.ceil, False),
    'trunc': _UF(e_trunc, 1, np.trunc, False),
    'fix': _UF(e_trunc, 1, np.fix, False),
    'cbrt': _UF(e_cbrt, 1, np.cbrt, False),
    'hypot': _UF(e_hypot, 2, np.hypot, False),
    'heaviside': _UF(e_heaviside, 2, np.heaviside, False),
    'signbit': _UF(e_signbit, 1, np.signbit, False, True),
    'isposinf': _UF(e_isposinf, 1, np.isposinf, False, True),
    'isneginf': _UF(e_isneginf, 1, np.isneginf, False, True),
    'copysign': _UF(e_copysign, 2, np.copysign, False),
    'logaddexp': _UF(e_logaddexp, 2, np.logaddexp, False),
    'float_power': _UF(e_power, 2, np.float_power, False),
}

for _k in ('expm1', 'log1p', 'exp2', 'log2', 'log10', 'cosh', 'sinh', 'tanh',
           'cos', 'sin', 'tan', 'reciprocal'):
    uf[_k] = _UF(_method(_k, getattr(np, _k)), 1, getattr(np, _k))


def _nodtype(f):
    """reductions over symbolic values ignore a floating point dtype"""
    def g(a, *args, **k):
        if 'dtype' in k and has_sym(a):
            k.pop('dtype')
        return f(a, *args, **k)
    g.__name__ = getattr(f, '__name__', 'f')
    return g


def f_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False):
    if not has_sym(a):
        return np.std(a, axis=axis, dtype=dtype, out=out, ddof=ddof,
                      keepdims=keepdims)
    r = uf['sqrt'](np.var(a, axis=axis, ddof=ddof, keepdims=keepdims))
    if out is None:
        return r
    out[...] = r
    return out


def f_digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return np.digitize(x, bins, right)
    bins = np.asarray(bins)
    if len(bins) > 1 and bool(bins[0] > bins[-1]):
        raise Unsupported('digitize with decreasing bins')
    return np.searchsorted(bins, x, side='left' if right else 'right')


def f_bincount(x, weights=None, minlength=0):
    if not has_sym(weights):
        return np.bincount(x, weights, minlength)
    x, w = np.asarray(x), np.asarray(weights)
    out = np.array([const(0)] * max(minlength, x.max() + 1 if x.size else 0),
                   dtype=object)
    for i, v in zip(x, w):
        out[i] = out[i] + v
    return out


_lin = _Proxy(np.linalg, dict(inv=f_inv, det=f_det, solve=f_solve,
                              cholesky=f_cholesky))

over = dict(uf)
over.update({k: _nodtype(getattr(np, k)) for k in (
    'sum', 'mean', 'prod', 'cumsum', 'cumprod', 'var')})
over.update(std=f_std, digitize=f_digitize, bincount=f_bincount)
over.update(
    zeros=f_zeros, ones=f_ones, empty=f_empty, full=f_full,
    zeros_like=_like(f_zeros), ones_like=_like(f_ones),
    empty_like=_like(f_empty), full_like=_like(f_full),
    asarray=f_asarray, array=f_array, asanyarray=f_asanyarray,
    where=f_where, isclose=f_isclose, allclose=f_allclose,
    linspace=f_linspace, arange=f_arange, clip=f_clip, fromiter=f_fromiter,
    finfo=f_finfo, histogram=f_histogram, interp=f_interp, einsum=f_einsum,
    real=f_real, imag=f_imag, linalg=_lin, float64=symfloat, pi=None,
    unique=f_unique, double=symfloat)


class _NP(_Proxy):
    @property
    def pi(self):
        return core.pi()


over.pop('pi')
NPO = _NP(np, over)


# -------------------------------------------------------------- scipy stubs

class interp1d:
    """scipy.interpolate.interp1d along axis 0 or last, kinds linear,
    nearest, previous, next, zero; sorted abscissae"""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True,
                 bounds_error=None, fill_value=np.nan, assume_sorted=False):
        x, y = np.asarray(x), np.asarray(y)
        if kind not in ('linear', 'nearest', 'previous', 'next', 'zero',
                        'slinear'):
            raise Unsupported('interp1d kind %r' % (kind,))
        if x.ndim != 1:
            raise ValueError('the x array must have exactly one dimension.')
        if y.dtype.kind in 'biu':   # integer values are converted
            y = y.astype(np.int64).astype(object)
        y = np.moveaxis(y, axis, 0)
        if y.shape[0] != x.size:
            raise ValueError('x and y arrays must be equal in length along '
                             'interpolation axis.')
        if not assume_sorted:
            ind = sorted(range(x.size), key=_SortKey(x))
            x, y = x[ind], y[ind]
        self.x, self.y, self.kind, self.axis = x, y, kind, axis
        self.bounds_error, self.fill_value = bounds_error, fill_value
        if isinstance(fill_value, str):
            if fill_value == 'extrapolate':
                self.extrap = True
            else:
                raise ValueError(fill_value)
        else:
            self.extrap = False

    def _one(self, s):
        x, y, n = self.x, self.y, self.x.size
        if not self.extrap:
            fv = self.fill_value
            lo, hi = fv if isinstance(fv, tuple) and len(fv) == 2 else (fv,
                                                                        fv)
            if s < x[0]:
                if self.bounds_error:
                    raise ValueError('below range')
                return np.broadcast_to(np.asarray(lo), y.shape[1:])
            if s > x[-1]:
                if self.bounds_error:
                    raise ValueError('above range')
                return np.broadcast_to(np.asarray(hi), y.shape[1:])
        k = self.kind
        if k in ('linear', 'slinear'):
            i = 0
            while i < n and x[i] < s:
                i += 1
            i = min(max(i, 1), n - 1)
            h = x[i] - x[i - 1]
            if h == 0:
                raise Unsupported('interpolation over coincident abscissae')
            return y[i - 1] + (y[i] - y[i - 1]) * ((s - x[i - 1]) / h)
        if k == 'nearest':
            i = 0
            while i < n - 1 and (x[i] + x[i + 1]) / 2 < s:
                i += 1
            return y[i]
        if k in ('previous', 'zero'):
            i = 0
            while i < n - 1 and x[i + 1] <= s:
                i += 1
            return y[i]
        if k == 'next':
            i = 0
            while i < n - 1 and x[i] < s:
                i += 1
            return y[i]

    def __call__(self, s):
        s = np.asarray(s)
        out = np.empty(s.shape + self.y.shape[1:], dtype=object)
        for i in np.ndindex(s.shape):
            r = self._one(s[i])
            out[i] = r[()] if isinstance(r, np.ndarray) else r
        if self.axis not in (0,) and out.ndim > s.ndim:
            if self.axis in (-1, self.y.ndim - 1):
                for _ in range(s.ndim):
                    out = np.moveaxis(out, 0, -1)
            else:
                raise Unsupported('interp1d axis')
        return out


class _SortKey:
    def __init__(self, x):
        self.x = x

    def __call__(self, i):
        import functools
        x = self.x
        return functools.cmp_to_key(
            lambda a, b: -1 if x[a] < x[b] else (1 if x[b] < x[a] else 0))(i)


def _bc(*args):
    return np.broadcast_arrays(*[np.asarray(a) for a in args])


class _Dist:
    """location-scale family: X = loc + scale * Z"""

    def __init__(self, name, draw, mean, var, pdf=None, cdf=None):
        self.name, self.draw = name, draw
        # plain numbers: terms must not outlive a scenario
        self._mean, self._var = mean, var
        self._pdf, self._cdf = pdf, cdf

    def __call__(self, loc=0, scale=1):
        return _Frozen(self, loc, scale)

    def pdf(self, x, loc=0, scale=1):
        x, loc, scale = _bc(x, loc, scale)
        z = (x - loc) / scale
        return _UF(self._pdf, 1, None)(z) / scale

    def cdf(self, x, loc=0, scale=1):
        x, loc, scale = _bc(x, loc, scale)
        z = (x - loc) / scale
        return _UF(self._cdf, 1, None)(z)

    def sf(self, x, loc=0, scale=1):
        return 1 - self.cdf(x, loc, scale)

    def logpdf(self, x, loc=0, scale=1):
        return NPO.log(self.pdf(x, loc, scale))

    def logcdf(self, x, loc=0, scale=1):
        return NPO.log(self.cdf(x, loc, scale))

    def rvs(self, loc=0, scale=1, size=None, random_state=None):
        if random_state is None:
            raise Unsupported('rvs without a random state')
        z = self.draw(random_state, size)
        return loc + scale * z

    def mean(self, loc=0, scale=1):
        return loc + scale * const(self._mean)

    def var(self, loc=0, scale=1):
        return scale * scale * const(self._var)

    def std(self, loc=0, scale=1):
        return NPO.sqrt(self.var(loc, scale))


class _Frozen:
    def __init__(self, dist, loc, scale):
        self.dist, self.loc, self.scale = dist, loc, scale
        self.kwds = dict(loc=loc, scale=scale)
        self.args = ()

    def rvs(self, size=None, random_state=None):
        return self.dist.rvs(self.loc, self.scale, size, random_state)

    def pdf(self, x):
        return self.dist.pdf(x, self.loc, self.scale)

    def cdf(self, x):
        return self.dist.cdf(x, self.loc, self.scale)

    def mean(self):
        return self.dist.mean(self.loc, self.scale)

    def var(self):
        return self.dist.var(self.loc, self.scale)

    def std(self):
        return self.dist.std(self.loc, self.scale)


def _u01(z):
    return e_where(core.band(core.le(const(0), tosym(z)),
                             core.le(tosym(z), const(1))), const(1), const(0))


norm = _Dist('norm', lambda r, s: r.standard_normal(s), 0, 1,
             e_npdf, e_ncdf)
uniform = _Dist('uniform', lambda r, s: r.uniform(0.0, 1.0, s),
                core.Fraction(1, 2), core.Fraction(1, 12),
                _u01, lambda z: core.minimum(core.maximum(
                    tosym(z), const(0)), const(1)))
expon = _Dist('expon', lambda r, s: r.standard_exponential(s), 1, 1,
              lambda z: (-tosym(z)).exp(), lambda z: 1 - (-tosym(z)).exp())


class _Lognorm:
    """scipy.stats.lognorm(s, loc=0, scale)"""

    @staticmethod
    def _pdf1(x, s, scale):
        x, s, scale = tosym(x), tosym(s), tosym(scale)
        if not bool(x > 0):
            return const(0)
        z = (x / scale).log() / s
        return e_npdf(z) / (s * x)

    @staticmethod
    def _cdf1(x, s, scale):
        x, s, scale = tosym(x), tosym(s), tosym(scale)
        if not bool(x > 0):
            return const(0)
        return e_ncdf((x / scale).log() / s)

    def pdf(self, x, s, loc=0, scale=1):
        x, s, loc, scale = _bc(x, s, loc, scale)
        return np.frompyfunc(self._pdf1, 3, 1)(x - loc, s, scale)

    def cdf(self, x, s, loc=0, scale=1):
        x, s, loc, scale = _bc(x, s, loc, scale)
        return np.frompyfunc(self._cdf1, 3, 1)(x - loc, s, scale)


class _Ncx2:
    """scipy.stats.ncx2"""

    @staticmethod
    def _pdf1(x, df, nc):
        x, df, nc = tosym(x), tosym(df), tosym(nc)
        if not bool(x > 0):
            return const(0)
        return (-(x + nc) / 2).exp() / 2 * (x / nc) ** (df / 4 - .5) * e_iv(
            df / 2 - 1, (nc * x).sqrt())

    def pdf(self, x, df, nc, loc=0, scale=1):
        x, df, nc, loc, scale = _bc(x, df, nc, loc, scale)
        return np.frompyfunc(self._pdf1, 3, 1)((x - loc) / scale, df,
                                               nc) / scale


class Quad:
    """integrals: fresh symbols, unless a stand-in is given"""
    calls = []
    hook = None

    @classmethod
    def quad(cls, f, a, b, args=(), **k):
        if cls.hook is not None:
            return cls.hook(f, a, b, args=args, **k)
        i = len(cls.calls)
        v = core.var('quad%d' % i)
        cls.calls.append((f, a, b, v))
        return v, const(0)


_stats = _Proxy(scipy.stats, dict(norm=norm, uniform=uniform, expon=expon,
                                  lognorm=_Lognorm(), ncx2=_Ncx2()))
_interp = _Proxy(scipy.interpolate, dict(interp1d=interp1d))
_special = _Proxy(scipy.special, dict(
    erf=_UF(e_erf, 1, scipy.special.erf),
    ndtr=_UF(e_ncdf, 1, scipy.special.ndtr),
    erfc=_UF(e_erfc, 1, scipy.special.erfc, False),
    expm1=uf['expm1'], log1p=uf['log1p'], exp2=uf['exp2'],
    log_ndtr=_UF(e_log_ndtr, 1, scipy.special.log_ndtr, False),
    xlogy=_UF(e_xlogy, 2, scipy.special.xlogy, False),
    ive=_UF(e_ive, 2, scipy.special.ive, False),
    iv=np.frompyfunc(e_iv, 2, 1)))
_integ = _Proxy(scipy.integrate, dict(quad=Quad.quad))
SPO = _Proxy(scipy, dict(stats=_stats, interpolate=_interp, special=_special,
                         integrate=_integ))


# --------------------------------------------------------------- patching

def _replacements():
    rep = {id(np): NPO, id(scipy): SPO, id(scipy.stats): _stats,
           id(scipy.interpolate): _interp, id(scipy.special): _special,
           id(scipy.integrate): _integ, id(np.linalg): _lin}
    for k, v in over.items():
        r = getattr(np, k, None)
        if r is not None and k not in ('float64', 'double'):
            rep[id(r)] = v
    rep[id(scipy.interpolate.interp1d)] = interp1d
    rep[id(scipy.stats.norm)] = norm
    rep[id(scipy.stats.uniform)] = uniform
    rep[id(scipy.stats.expon)] = expon
    rep[id(scipy.stats.lognorm)] = _stats.lognorm
    rep[id(scipy.special.erf)] = _special.erf
    rep[id(scipy.special.iv)] = _special.iv
    rep[id(scipy.integrate.quad)] = Quad.quad
    for k in ('erfc', 'log_ndtr', 'xlogy', 'ive', 'ndtr'):
        rep[id(getattr(scipy.special, k))] = getattr(_special, k)
    mm = dict(
        sqrt=lambda x: e_sqrt(x), exp=lambda x: e_exp(x),
        log=lambda x, *b: e_log(x) / e_log(b[0]) if b else e_log(x),
        fabs=lambda x: e_abs(x), isnan=lambda x: e_isnan(x),
        isinf=lambda x: e_isinf(x), isfinite=lambda x: e_isfinite(x),
        erf=lambda x: e_erf(x), erfc=lambda x: e_erfc(x),
        pow=lambda x, y: e_power(x, y), hypot=lambda *x: e_sqrt(
            sum(z * z for z in x)),
        copysign=lambda x, y: e_copysign(x, y),
        fsum=lambda x: sum(x), ceil=lambda x: math.ceil(x),
        isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.: bool(
            e_abs(a - b) <= abs_tol) or bool(
            e_abs(a - b) <= rel_tol * core.maximum(
                tosym(e_abs(a)), tosym(e_abs(b)))))
    for k in ('expm1', 'log1p', 'log2', 'log10', 'cosh', 'sinh', 'tanh',
              'cos', 'sin', 'tan'):
        mm[k] = _method(k, getattr(np, k))
    for k, f in mm.items():
        # names imported from math (from math import exp)
        rep[id(getattr(math, k))] = f
    rep[id(math)] = _Proxy(math, mm)
    return rep


_rep = None


@contextlib.contextmanager
def patched():
    """patch the globals of every loaded sdepy module (tests excluded)"""
    global _rep
    if _rep is None:
        _rep = _replacements()
    saved = []
    Quad.calls = []
    for name, mod in list(sys.modules.items()):
        if not (name == 'sdepy' or name.startswith('sdepy.')) or \
                '.tests' in name or mod is None:
            continue
        g = mod.__dict__
        for k, v in list(g.items()):
            r = _rep.get(id(v))
            if r is not None and not k.startswith('__'):
                saved.append((g, k, True, v))
                g[k] = r
        saved.append((g, 'float', 'float' in g, g.get('float')))
        g['float'] = symfloat
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            yield
    finally:
        for g, k, had, v in reversed(saved):
            if had:
                g[k] = v
            else:
                g.pop(k, None)
