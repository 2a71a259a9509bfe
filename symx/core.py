"""Symbolic scalars: hash-consed DAG of real (and boolean) terms.

`Sym` instances live inside numpy object arrays, so that the real code in
/repo is executed by the real CPython and the real numpy on symbolic data.
Semantics: exact real arithmetic (python floats are read as the exact
rational they denote).
"""
import itertools
import math
import numbers
from fractions import Fraction

import numpy as np


class Unsupported(BaseException):
    """The encoding cannot represent an operation: inconclusive, no verdict."""


class PathAbort(BaseException):
    """The current path is infeasible / excluded by an assumption."""


_table = {}
_next_id = itertools.count()     # never restarted: a term outliving
                                  # reset_table() cannot clash


class ENG:
    """Holder of the active engine (set by engine.py)."""
    cur = None


def _intern(cls, op, a, extra=None):
    key = (cls is SymBool, op) + tuple(
        x.id if isinstance(x, (Sym, SymBool)) else ('#', x) for x in a)
    n = _table.get(key)
    if n is None:
        n = object.__new__(cls)
        n.op, n.a = op, a
        n.id = next(_next_id)
        n.flags = _flags(op, a) if cls is Sym else 0
        _table[key] = n
    return n


def reset_table():
    _table.clear()
    _wrapcache.clear()


_wrapcache = {}

# flags: 1 = > 0, 2 = >= 0, 4 = integer valued, 8 = < 0, 16 = <= 0
POS, NN, INT, NEG, NP_ = 1, 2, 4, 8, 16


def _flags(op, a):
    if op == 'c':
        c = a[0]
        f = 0
        if c > 0:
            f |= POS | NN
        elif c < 0:
            f |= NEG | NP_
        else:
            f |= NN | NP_
        if c.denominator == 1:
            f |= INT
        return f
    if op == 'v':
        return a[1]
    if op == '+':
        x, y = a[0].flags, a[1].flags
        f = x & y & INT
        if x & NN and y & NN:
            f |= NN
            if (x | y) & POS:
                f |= POS
        if x & NP_ and y & NP_:
            f |= NP_
            if (x | y) & NEG:
                f |= NEG
        return f
    if op == '*':
        x, y = a[0].flags, a[1].flags
        f = x & y & INT
        if a[0] is a[1]:
            f |= NN
        if (x & NN and y & NN) or (x & NP_ and y & NP_):
            f |= NN
        if (x & NN and y & NP_) or (x & NP_ and y & NN):
            f |= NP_
        if (x & POS and y & POS) or (x & NEG and y & NEG):
            f |= POS | NN
        if (x & POS and y & NEG) or (x & NEG and y & POS):
            f |= NEG | NP_
        if a[0] is a[1] and (x & (POS | NEG)):
            f |= POS
        return f
    if op == '/':
        x, y = a[0].flags, a[1].flags
        f = 0
        if (x & NN and y & POS) or (x & NP_ and y & NEG):
            f |= NN
        if (x & NN and y & NEG) or (x & NP_ and y & POS):
            f |= NP_
        if (x & POS and y & POS) or (x & NEG and y & NEG):
            f |= POS | NN
        if (x & POS and y & NEG) or (x & NEG and y & POS):
            f |= NEG | NP_
        return f
    if op == '^':
        x, n = a[0].flags, a[1]
        f = x & INT
        if n % 2 == 0:
            f |= NN
            if x & (POS | NEG):
                f |= POS
        else:
            f |= x & (POS | NN | NEG | NP_)
        return f
    if op == 'ite':
        return a[1].flags & a[2].flags
    if op == 'exp':
        return POS | NN
    if op == 'sqrt':
        return NN | (a[0].flags & POS)
    if op == 'ncdf':
        return POS | NN
    if op == 'iv':
        return (POS | NN) if a[1].flags & POS else 0
    if op == 'uf':
        return (POS | NN) if a[0][1] == 'pos' else (
            (POS | NN | INT) if a[0][1] == 'posint' else 0)
    return 0


_rationals = {}


def _rational(c):
    """exact value of a float, or the ratio of small integers it is the
    rounding of (the float 0.1 reads as 1/10)"""
    r = _rationals.get(c)
    if r is None:
        r = Fraction(c)
        if r.denominator > 1 << 20:
            q = r.limit_denominator(4000)
            if abs(q - r) * (1 << 51) <= abs(r):
                r = q
        if len(_rationals) < 100000:
            _rationals[c] = r
    return r


def const(c):
    if isinstance(c, Sym):
        return c
    if isinstance(c, bool) or isinstance(c, np.bool_):
        c = int(c)
    if isinstance(c, (float, np.floating)):
        c = float(c)
        if not math.isfinite(c):
            raise Unsupported('const(%r)' % c)
        c = _rational(c)
    elif isinstance(c, (int, np.integer)):
        c = Fraction(int(c))
    elif not isinstance(c, Fraction):
        raise Unsupported('const of %r' % type(c))
    return _intern(Sym, 'c', (c,))


def var(name, flags=0):
    return _intern(Sym, 'v', (name, flags))


def isconst(x):
    return x.op == 'c'


def add(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a[0] + y.a[0])
        x, y = y, x
    if y.op == 'c':
        if y.a[0] == 0:
            return x
        if x.op == '+' and x.a[1].op == 'c':
            return add(x.a[0], const(x.a[1].a[0] + y.a[0]))
        return _intern(Sym, '+', (x, y))
    if x is y:
        return mul(const(2), x)
    # x + (-1*x)
    if _negof(x) is y or _negof(y) is x:
        return const(0)
    # cancellation of one addend: (u + v) - v, and u + (v - u)
    for p, q in ((x, y), (y, x)):
        if p.op == '+':
            nq = _negof(q)
            if nq is None:
                nq = mul(const(-1), q)
            if p.a[0] is nq:
                return p.a[1]
            if p.a[1] is nq:
                return p.a[0]
    if x.id > y.id:
        x, y = y, x
    return _intern(Sym, '+', (x, y))


def _negof(x):
    if x.op == '*' and x.a[0].op == 'c' and x.a[0].a[0] == -1:
        return x.a[1]
    return None


def neg(x):
    return mul(const(-1), x)


def sub(x, y):
    if x is y:
        return const(0)
    return add(x, neg(y))


def mul(x, y):
    if x.op == 'c':
        if y.op == 'c':
            return const(x.a[0] * y.a[0])
    elif y.op == 'c':
        x, y = y, x
    if x.op == 'c':
        c = x.a[0]
        if c == 0:
            return x
        if c == 1:
            return y
        if y.op == '*' and y.a[0].op == 'c':
            return mul(const(c * y.a[0].a[0]), y.a[1])
        if y.op == 'ite' and y.a[1].op == 'c' and y.a[2].op == 'c':
            return ite(y.a[0], mul(x, y.a[1]), mul(x, y.a[2]))
        if y.op == '+' and c == -1:
            return add(mul(x, y.a[0]), mul(x, y.a[1]))
        return _intern(Sym, '*', (x, y))
    # pull constants out
    if x.op == '*' and x.a[0].op == 'c':
        return mul(x.a[0], mul(x.a[1], y))
    if y.op == '*' and y.a[0].op == 'c':
        return mul(y.a[0], mul(x, y.a[1]))
    if x.id > y.id:
        x, y = y, x
    return _intern(Sym, '*', (x, y))


def div_raw(x, y):
    """x / y, y known to be nonzero."""
    if y.op == 'c':
        return mul(const(1 / y.a[0]), x)
    if x is y:
        return const(1)
    if x.op == 'c' and x.a[0] == 0:
        return x
    return _intern(Sym, '/', (x, y))


def powi(x, n):
    if n == 0:
        return const(1)
    if n == 1:
        return x
    if n < 0:
        return div_raw(const(1), powi(x, -n))
    if x.op == 'c':
        return const(x.a[0] ** n)
    if n == 2:
        return mul(x, x)
    return _intern(Sym, '^', (x, n))


def ite(c, x, y):
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if x is y:
        return x
    if c.op == 'not':
        return ite(c.a[0], y, x)
    return _intern(Sym, 'ite', (c, x, y))


def fn(name, *args):
    return _intern(Sym, name, tuple(args))


# --------------------------------------------------------------- booleans

def bconst(b):
    return TRUE if b else FALSE


def lt(x, y):
    d = sub(x, y)
    if d.op == 'c':
        return bconst(d.a[0] < 0)
    if d.flags & NEG:
        return TRUE
    if d.flags & NN:
        return FALSE
    return _intern(SymBool, 'lt', (x, y))


def le(x, y):
    return bnot(lt(y, x))


def eq(x, y):
    d = sub(x, y)
    if d.op == 'c':
        return bconst(d.a[0] == 0)
    if d.flags & (NEG | POS):
        return FALSE
    if x.id > y.id:
        x, y = y, x
    return _intern(SymBool, 'eq', (x, y))


def bnot(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    return _intern(SymBool, 'not', (b,))


def band(*bs):
    out = []
    for b in bs:
        if b is FALSE:
            return FALSE
        if b is not TRUE and not any(b is o for o in out):
            out.append(b)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _intern(SymBool, 'and', tuple(out))


def bor(*bs):
    return bnot(band(*[bnot(b) for b in bs]))


# ------------------------------------------------------------ class SymBool

class SymBool:
    __slots__ = ('op', 'a', 'id', 'flags')
    __array_priority__ = -1

    def __bool__(self):
        if self is TRUE:
            return True
        if self is FALSE:
            return False
        return ENG.cur.branch(self)

    def __hash__(self):
        return self.id

    def __invert__(self):
        return bnot(self)

    def _b(o):
        if isinstance(o, SymBool):
            return o
        if isinstance(o, (bool, np.bool_)):
            return bconst(bool(o))
        return None

    def __and__(self, o):
        o = SymBool._b(o)
        return NotImplemented if o is None else band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = SymBool._b(o)
        return NotImplemented if o is None else bor(self, o)
    __ror__ = __or__

    def _num(self):
        return ite(self, const(1), const(0))

    def __eq__(self, o):
        b = SymBool._b(o)
        if b is not None:
            return bor(band(self, b), band(bnot(self), bnot(b)))
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._num() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r) \
            if isinstance(r, SymBool) else not r

    def __add__(self, o):
        return self._num() + o

    def __radd__(self, o):
        return o + self._num()

    def __sub__(self, o):
        return self._num() - o

    def __mul__(self, o):
        return self._num() * o
    __rmul__ = __mul__

    def __neg__(self):
        return -self._num()

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __repr__(self):
        return 'B<%s>' % show(self)

    def all(self, *a, **k):
        return self

    def any(self, *a, **k):
        return self

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in _DELEGATED:
            return getattr(_box(self), k)
        raise AttributeError(k)


TRUE = object.__new__(SymBool)
FALSE = object.__new__(SymBool)
TRUE.op, TRUE.a, TRUE.id, TRUE.flags = 'T', (), -1, 0
FALSE.op, FALSE.a, FALSE.id, FALSE.flags = 'F', (), -2, 0


def _box(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


_DELEGATED = {
    'shape', 'ndim', 'size', 'dtype', 'reshape', 'astype', 'sum', 'mean',
    'max', 'min', 'flatten', 'ravel', 'copy', 'item', 'T', 'transpose',
    'squeeze', 'tolist', 'std', 'var', 'cumsum', 'view', 'repeat', 'prod',
    'swapaxes', 'fill', 'nonzero', 'take', 'clip', 'all', 'any', 'flat'}


# ---------------------------------------------------------------- class Sym

def _isnum(o):
    return isinstance(o, (int, float, Fraction, np.integer, np.floating,
                          np.bool_))


def _special(o):
    """inf or nan python/numpy float"""
    return isinstance(o, (float, np.floating)) and not math.isfinite(o)


def sgn(x):
    """Concrete sign of a symbolic value: forks when undetermined."""
    f = x.flags
    if f & POS:
        return 1
    if f & NEG:
        return -1
    if bool(lt(const(0), x)):
        return 1
    if bool(lt(x, const(0))):
        return -1
    return 0


def nonzero(x):
    """True iff x != 0: forks when undetermined."""
    if x.flags & (POS | NEG):
        return True
    if x.op == 'c':
        return x.a[0] != 0
    return not bool(eq(x, const(0)))


def sdiv(x, y):
    if y.op == 'c' and y.a[0] == 0 or not nonzero(y):
        s = sgn(x)
        return float('nan') if s == 0 else s * float('inf')
    return div_raw(x, y)


def sqrt_(x):
    if x.op == 'c':
        c = x.a[0]
        if c < 0:
            return float('nan')
        rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if rn * rn == c.numerator and rd * rd == c.denominator:
            return const(Fraction(rn, rd))
        return fn('sqrt', x)
    if x.flags & NN or not bool(lt(x, const(0))):
        return fn('sqrt', x)
    return float('nan')


def log_(x):
    if x.op == 'c':
        c = x.a[0]
        if c == 1:
            return const(0)
        if c == 0:
            return float('-inf')
        if c < 0:
            return float('nan')
        return fn('log', x)
    if x.flags & POS or bool(lt(const(0), x)):
        if x.op == 'exp':
            return x.a[0]
        return fn('log', x)
    if bool(lt(x, const(0))):
        return float('nan')
    return float('-inf')


def exp_(x):
    if x.op == 'c' and x.a[0] == 0:
        return const(1)
    if x.op == 'log':
        return x.a[0]
    return fn('exp', x)


def pow_(x, y):
    if y.op == 'c':
        e = y.a[0]
        if e.denominator == 1:
            n = int(e)
            if n >= 0:
                return powi(x, n)
            return sdiv(const(1), powi(x, -n))
        if e.denominator == 2:
            r = sqrt_(x)
            if not isinstance(r, Sym):
                return r
            n = int(e.numerator)
            if n > 0:
                return powi(r, n)
            return sdiv(const(1), powi(r, -n))
    # general real power: positive base
    if x.flags & POS or bool(lt(const(0), x)):
        lx = log_(x)
        return exp_(mul(y, lx))
    raise Unsupported('power with non positive base')


class Sym:
    __slots__ = ('op', 'a', 'id', 'flags')
    __array_priority__ = -1

    def _c(o):
        if isinstance(o, Sym):
            return o
        if isinstance(o, SymBool):
            return o._num()
        if _isnum(o):
            return const(o)
        return None

    def __hash__(self):
        # equal values must have equal hashes (sets and dictionaries of
        # symbolic values compare them, and fork)
        return 0

    # -- arithmetics
    def __add__(self, o):
        if _special(o):
            return float(o)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return SymC(self, const(0)) + o
            return NotImplemented
        return add(self, c)
    __radd__ = __add__

    def __sub__(self, o):
        if _special(o):
            return -float(o)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return SymC(self, const(0)) - o
            return NotImplemented
        return sub(self, c)

    def __rsub__(self, o):
        if _special(o):
            return float(o)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return o - SymC(self, const(0))
            return NotImplemented
        return sub(c, self)

    def __mul__(self, o):
        if _special(o):
            if math.isnan(o):
                return float('nan')
            s = sgn(self)
            return float('nan') if s == 0 else s * float(o)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return SymC(self, const(0)) * o
            return NotImplemented
        return mul(self, c)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if _special(o):
            return float('nan') if math.isnan(o) else const(0)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return SymC(self, const(0)) / o
            return NotImplemented
        return sdiv(self, c)

    def __rtruediv__(self, o):
        if _special(o):
            if math.isnan(o):
                return float('nan')
            s = sgn(self)
            return (s or 1) * float(o)
        c = Sym._c(o)
        if c is None:
            if isinstance(o, complex):
                return o / SymC(self, const(0))
            return NotImplemented
        return sdiv(c, self)

    def __floordiv__(self, o):
        return math.floor(self / o)

    def __pow__(self, o):
        c = Sym._c(o)
        if c is None:
            return NotImplemented
        return pow_(self, c)

    def __rpow__(self, o):
        c = Sym._c(o)
        if c is None:
            return NotImplemented
        return pow_(c, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.flags & NN:
            return self
        if self.flags & NP_:
            return neg(self)
        return ite(lt(self, const(0)), neg(self), self)

    # -- comparisons
    def _cmp(self, o, f, nanval, infpos, infneg):
        if _special(o):
            if math.isnan(o):
                return nanval
            return infpos if o > 0 else infneg
        c = Sym._c(o)
        if c is None:
            return NotImplemented
        return f(self, c)

    def __lt__(self, o):
        return self._cmp(o, lt, False, True, False)

    def __le__(self, o):
        return self._cmp(o, le, False, True, False)

    def __gt__(self, o):
        return self._cmp(o, lambda x, y: lt(y, x), False, False, True)

    def __ge__(self, o):
        return self._cmp(o, lambda x, y: le(y, x), False, False, True)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        if isinstance(o, SymC):
            return NotImplemented
        return self._cmp(o, eq, False, False, False)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        if isinstance(o, SymC):
            return NotImplemented
        return self._cmp(o, lambda x, y: bnot(eq(x, y)), True, True, True)

    def __bool__(self):
        return nonzero(self)

    # -- conversions
    def __int__(self):
        return ENG.cur.concretize(self)

    def __index__(self):
        if not self.flags & INT:
            raise TypeError('only integers can be interpreted as an index')
        return ENG.cur.concretize(self)

    def __trunc__(self):
        return ENG.cur.concretize(self)

    def __float__(self):
        if self.op == 'c':
            return float(self.a[0])
        raise Unsupported('float() of a symbolic value')

    def __complex__(self):
        return complex(float(self))

    # -- methods called by numpy ufuncs on object arrays
    def sqrt(self):
        return sqrt_(self)

    def exp(self):
        return exp_(self)

    def log(self):
        return log_(self)

    def square(self):
        return mul(self, self)

    def expm1(self):
        return sub(exp_(self), const(1))

    def log1p(self):
        return log_(add(self, const(1)))

    def exp2(self):
        return exp_(mul(self, log_(const(2))))

    def log2(self):
        r = log_(self)
        return sdiv(r, log_(const(2))) if isinstance(r, Sym) else r

    def log10(self):
        r = log_(self)
        return sdiv(r, log_(const(10))) if isinstance(r, Sym) else r

    def cosh(self):
        return mul(add(exp_(self), exp_(neg(self))), const(Fraction(1, 2)))

    def sinh(self):
        return mul(sub(exp_(self), exp_(neg(self))), const(Fraction(1, 2)))

    def tanh(self):
        a, b = exp_(self), exp_(neg(self))
        return sdiv(sub(a, b), add(a, b))

    def cos(self):
        return cos_(self)

    def sin(self):
        return sin_(self)

    def tan(self):
        return sdiv(sin_(self), cos_(self))

    def hypot(self, o):
        return sqrt_(add(mul(self, self), mul(o, o)))

    def reciprocal(self):
        return sdiv(const(1), self)

    def __floordiv__(self, o):
        return _sfloor(self / o)

    def __rfloordiv__(self, o):
        return _sfloor(o / self)

    def __mod__(self, o):
        return self - _sfloor(self / o) * o

    def __rmod__(self, o):
        return o - _sfloor(o / self) * self

    def __divmod__(self, o):
        q = _sfloor(self / o)
        return q, self - q * o

    def __floor__(self):
        return _sfloor(self)

    def floor(self):
        return _sfloor(self)

    def __ceil__(self):
        return neg(_sfloor(neg(self)))

    def ceil(self):
        return neg(_sfloor(neg(self)))

    def conjugate(self):
        return self
    conj = conjugate

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    def sign(self):
        return ite(lt(const(0), self), const(1),
                   ite(lt(self, const(0)), const(-1), const(0)))

    def isnan(self):
        return False

    # -- behave as a numpy scalar
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in _DELEGATED:
            return getattr(_box(self), k)
        raise AttributeError(k)

    def __getitem__(self, i):
        return _box(self)[i]

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return show(self, 160)

    def __format__(self, spec):
        return repr(self)


numbers.Number.register(Sym)


class SymC:
    """complex symbolic value, as (re, im)"""
    __slots__ = ('re', 'im')
    __array_priority__ = -1

    def __init__(self, re, im):
        self.re = re if isinstance(re, Sym) else const(re)
        self.im = im if isinstance(im, Sym) else const(im)

    @staticmethod
    def of(o):
        if isinstance(o, SymC):
            return o
        if isinstance(o, Sym):
            return SymC(o, const(0))
        if isinstance(o, (complex, np.complexfloating)):
            return SymC(const(o.real), const(o.imag))
        if _isnum(o):
            return SymC(const(o), const(0))
        return None

    def __add__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(add(self.re, o.re), add(self.im, o.im))
    __radd__ = __add__

    def __neg__(self):
        return SymC(neg(self.re), neg(self.im))

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(sub(self.re, o.re), sub(self.im, o.im))

    def __rsub__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(sub(o.re, self.re), sub(o.im, self.im))

    def __mul__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return SymC(sub(mul(self.re, o.re), mul(self.im, o.im)),
                    add(mul(self.re, o.im), mul(self.im, o.re)))
    __rmul__ = __mul__

    def _inv(self):
        if self.im.op == 'c' and self.im.a[0] == 0:
            return SymC(sdiv(const(1), self.re), const(0))
        d = add(mul(self.re, self.re), mul(self.im, self.im))
        return SymC(sdiv(self.re, d), sdiv(neg(self.im), d))

    def __truediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return self * o._inv()

    def __rtruediv__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return o * self._inv()

    def __pow__(self, n):
        n = Sym._c(n)
        if n is None or n.op != 'c' or n.a[0].denominator != 1:
            raise Unsupported('complex power')
        n = int(n.a[0])
        r = SymC(const(1), const(0))
        for _ in range(abs(n)):
            r = r * self
        return r if n >= 0 else r._inv()

    def __eq__(self, o):
        o = SymC.of(o)
        if o is None:
            return NotImplemented
        return band(eq(self.re, o.re), eq(self.im, o.im))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else bnot(r)

    __hash__ = None

    def conjugate(self):
        return SymC(self.re, neg(self.im))
    conj = conjugate

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im

    def _isreal(self):
        return self.im.op == 'c' and self.im.a[0] == 0

    def exp(self):
        e = exp_(self.re)
        if self._isreal():
            return SymC(e, const(0))
        c, s = cos_(self.im), sin_(self.im)
        return SymC(mul(e, c), mul(e, s))

    def sqrt(self):
        if self._isreal():
            r = sqrt_(self.re)
            if isinstance(r, Sym):
                return SymC(r, const(0))
            return SymC(const(0), sqrt_(neg(self.re)))
        raise Unsupported('complex sqrt off the real axis')

    def log(self):
        if self._isreal():
            r = log_(self.re)
            if isinstance(r, Sym):
                return SymC(r, const(0))
        raise Unsupported('complex log off the positive real axis')

    def __abs__(self):
        return sqrt_(add(mul(self.re, self.re), mul(self.im, self.im)))

    def __repr__(self):
        return '(%s + i*%s)' % (show(self.re, 80), show(self.im, 80))

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in _DELEGATED:
            return getattr(_box(self), k)
        raise AttributeError(k)


numbers.Number.register(SymC)


def _sfloor(x):
    if not isinstance(x, Sym):
        raise Unsupported('floor of a non real value')
    if x.op == 'c':
        return const(x.a[0].numerator // x.a[0].denominator)
    k = ENG.cur.concretize(x)     # truncation
    if bool(lt(x, const(k))):
        k -= 1
    return const(k)


def _lead_neg(x):
    """syntactic sign normalization for odd/even functions"""
    return x.op == '*' and x.a[0].op == 'c' and x.a[0].a[0] < 0


def cos_(x):
    if x.op == 'c' and x.a[0] == 0:
        return const(1)
    return fn('cos', x)


def sin_(x):
    if x.op == 'c' and x.a[0] == 0:
        return const(0)
    return fn('sin', x)


def maximum(x, y):
    d = sub(x, y)
    if d.flags & NN:
        return x
    if d.flags & NP_:
        return y
    return ite(lt(x, y), y, x)


def minimum(x, y):
    d = sub(x, y)
    if d.flags & NN:
        return y
    if d.flags & NP_:
        return x
    return ite(lt(y, x), y, x)


PI = None


def pi():
    return var('PI', POS | NN)


# ------------------------------------------------------------------- output

def show(x, limit=400):
    out = []
    budget = [limit]

    def rec(n, depth):
        if budget[0] <= 0:
            return '..'
        budget[0] -= 4
        if isinstance(n, (Sym, SymBool)):
            if n.op == 'c':
                s = str(n.a[0])
                if len(s) > 14:
                    s = '%.6g' % float(n.a[0])
                return s
            if n.op == 'v':
                return n.a[0]
            if n.op in ('+', '*', '/'):
                return '(%s %s %s)' % (rec(n.a[0], depth + 1), n.op,
                                       rec(n.a[1], depth + 1))
            if n.op == '^':
                return '%s^%d' % (rec(n.a[0], depth + 1), n.a[1])
            if n.op == 'uf':
                return '%s(%s)' % (n.a[0][0], ', '.join(
                    rec(z, depth + 1) for z in n.a[1:]))
            return '%s(%s)' % (n.op, ', '.join(
                rec(z, depth + 1) for z in n.a))
        return str(n)
    return rec(x, 0)


# --------------------------------------------------------- float evaluation

def ufval(name, kind, args):
    """Generic smooth stand-in for an uninterpreted function, used to
    evaluate and replay candidate counterexamples."""
    h = 0
    for ch in name:
        h = (h * 131 + ord(ch)) % 1000003
    s = 0.
    for i, a in enumerate(args):
        k = 0.7 + ((h // (7 + i)) % 97) / 97.
        p = ((h // (3 + 2 * i)) % 89) / 89. * 3
        s = s + math.sin(k * a + p) + 0.3 * math.cos(1.9 * k * a * (i + 1))
    b = ((h // 11) % 53) / 53.
    if kind == 'pos':
        return 0.35 + 0.4 * b + 0.3 * (1 + math.sin(1.3 * s))
    return 0.4 * s + b - 0.4


def feval(roots, env, ufs=None):
    """Evaluate nodes in floats; env: name -> number. Returns dict id->val"""
    import scipy.special as sp
    val = {}
    stack = list(roots)
    while stack:
        n = stack[-1]
        if n.id in val:
            stack.pop()
            continue
        if n is TRUE:
            val[n.id] = True
            continue
        if n is FALSE:
            val[n.id] = False
            continue
        kids = [z for z in n.a if isinstance(z, (Sym, SymBool))]
        todo = [z for z in kids if z.id not in val]
        if todo:
            stack.extend(todo)
            continue
        v = [val[z.id] for z in kids]
        op = n.op
        try:
            if op == 'c':
                r = n.a[0].numerator / n.a[0].denominator
            elif op == 'v':
                r = math.pi if n.a[0] == 'PI' else float(env[n.a[0]])
            elif op == '+':
                r = v[0] + v[1]
            elif op == '*':
                r = v[0] * v[1]
            elif op == '/':
                r = v[0] / v[1]
            elif op == '^':
                r = v[0] ** n.a[1]
            elif op == 'ite':
                r = v[1] if v[0] else v[2]
            elif op == 'exp':
                r = math.exp(v[0])
            elif op == 'log':
                r = math.log(v[0])
            elif op == 'sqrt':
                r = math.sqrt(v[0])
            elif op == 'ncdf':
                r = float(sp.ndtr(v[0]))
            elif op == 'sin':
                r = math.sin(v[0])
            elif op == 'cos':
                r = math.cos(v[0])
            elif op == 'iv':
                r = float(sp.iv(v[0], v[1]))
            elif op == 'uf':
                r = ufval(n.a[0][0], n.a[0][1], v)
            elif op == 'lt':
                r = v[0] < v[1]
            elif op == 'eq':
                r = v[0] == v[1] or abs(v[0] - v[1]) <= 1e-12 * (
                    abs(v[0]) + abs(v[1]))
            elif op == 'not':
                r = not v[0]
            elif op == 'and':
                r = all(v)
            else:
                raise Unsupported('feval ' + op)
        except (ZeroDivisionError, ValueError, OverflowError):
            r = float('nan')
        val[n.id] = r
        stack.pop()
    return val


def cone(roots):
    """all nodes reachable from roots, children first"""
    seen, out = set(), []
    stack = [(r, False) for r in roots]
    while stack:
        n, done = stack.pop()
        if done:
            out.append(n)
            continue
        if n.id in seen:
            continue
        seen.add(n.id)
        stack.append((n, True))
        for z in n.a:
            if isinstance(z, (Sym, SymBool)) and z.id not in seen:
                stack.append((z, False))
    return out
