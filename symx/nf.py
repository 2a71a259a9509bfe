"""Normal forms (rational functions over algebraic / transcendental atoms),
symbolic differentiation, and translation of terms to z3."""
import heapq
import math
from fractions import Fraction as Fr

import z3

from . import core
from .core import (Sym, SymBool, Unsupported, POS, NN, INT, TRUE, FALSE,
                   const, add, mul, sub, neg, div_raw, powi, ite, fn)

# ---------------------------------------------------------------- atoms
_atom_ids = {}
_atoms = []      # info dicts


class Atom:
    __slots__ = ('key', 'id', 'pos', 'kind', 'data')


def atom(key, pos, data=None):
    a = _atom_ids.get(key)
    if a is None:
        a = Atom()
        a.key, a.pos, a.kind, a.data = key, pos, key[0], data
        a.id = len(_atoms)
        _atoms.append(a)
        _atom_ids[key] = a
    return a


_nfc = {}


def reset():
    _atom_ids.clear()
    del _atoms[:]
    _nfc.clear()


# polynomials: dict mono -> Fraction ; mono: tuple of (atom id, exponent)
ONE = ()


def pconst(c):
    return {ONE: Fr(c)} if c else {}


def patom(a, e=1):
    return {((a.id, Fr(e)),): Fr(1)}


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        c = r.get(m, 0) + k * c
        if c:
            r[m] = c
        else:
            r.pop(m, None)
    return r


def mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for a, e in n:
        e2 = d.get(a, 0) + e
        if e2:
            d[a] = e2
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


class TooBig(Exception):
    pass


LIMIT = 20000


def pmul(p, q):
    if len(p) * len(q) > LIMIT * 4:
        raise TooBig()
    r = {}
    red = False
    for m, c in p.items():
        for n, d in q.items():
            k = mmul(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    for m in r:
        for a, e in m:
            k = _atoms[a].kind
            if (k == 'S' and e >= 2) or \
                    (k == 'p' and not (0 <= e < 1)):
                red = True
                break
        if red:
            break
    return preduce(r) if red else r


def preduce(p):
    """reduce even powers of square root atoms, integer powers of primes"""
    out = {}
    for m, c in p.items():
        extra = None
        mm = []
        for a, e in m:
            A = _atoms[a]
            if A.kind == 'p':
                n = e.numerator // e.denominator   # floor
                c = c * Fr(A.key[1]) ** n
                e = e - n
                if e:
                    mm.append((a, e))
            elif A.kind == 'S' and e >= 2 and A.data[1] == {ONE: Fr(1)}:
                n = int(e) // 2
                q = A.data[0]
                t = ppow(q, n)
                extra = t if extra is None else pmul(extra, t)
                if e - 2 * n:
                    mm.append((a, e - 2 * n))
            else:
                mm.append((a, e))
        t = {tuple(mm): c}
        if extra is not None:
            t = pmul(t, extra)
        out = padd(out, t)
    return out


def ppow(p, n):
    r = pconst(1)
    for _ in range(n):
        r = pmul(r, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def ismono(p):
    return len(p) == 1


def mpos(m):
    return all(_atoms[a].pos for a, e in m)


def ppos(p):
    """syntactically positive polynomial"""
    return bool(p) and all(c > 0 and mpos(m) for m, c in p.items())


def minv(m):
    return tuple((a, -e) for a, e in m)


def rat(num, den):
    """normalized rational function"""
    if not num:
        return ({}, pconst(1))
    if ismono(den):
        (m, c), = den.items()
        if m == ONE and c == 1:
            return (num, den)
        return (preduce_any({mmul(k, minv(m)): v / c
                             for k, v in num.items()}), pconst(1))
    # normalize: take out common monomial content of den, leading coeff 1
    cm = content(den)
    lead = den[min(den)]
    if cm or lead != 1:
        im = minv(cm)
        den2 = {mmul(k, im): v / lead for k, v in den.items()}
        num = preduce_any({mmul(k, im): v / lead for k, v in num.items()})
        den = den2
    if len(num) == len(den):
        # proportional ?
        k0 = min(num)
        d0 = min(den)
        im = mmul(k0, minv(d0))
        r = num[k0] / den[d0]
        if all(num.get(mmul(m, im)) == c * r for m, c in den.items()):
            return (preduce_any({im: r}), pconst(1))
    q = pdivexact(num, den)
    if q is not None:
        return (q, pconst(1))
    return (num, den)


def preduce_any(p):
    for m in p:
        for a, e in m:
            k = _atoms[a].kind
            if (k == 'S' and e >= 2) or (k == 'p' and not 0 <= e < 1):
                return preduce(p)
    return p


_P = (1 << 61) - 1   # a prime


def _divides_mod(num, den, n):
    """False if den does not divide num (Laurent polynomials with vectors of
    integer exponents), from their images in one variable over a prime field,
    the other variables having fixed values"""
    try:
        cn = {v: c.numerator * pow(c.denominator, -1, _P) % _P
              for v, c in num.items()}
        cd = {v: c.numerator * pow(c.denominator, -1, _P) % _P
              for v, c in den.items()}
    except ValueError:
        return True
    hi = [max(v[i] for v in den) for i in range(n)]
    lo = [min(v[i] for v in den) for i in range(n)]
    for i in range(n):
        a = max(v[i] for v in num) - min(v[i] for v in num)
        if a < hi[i] - lo[i]:
            return False
    main = [i for i in range(n) if hi[i] > lo[i]]
    if not main:
        return True
    i0 = min(main, key=lambda i: hi[i] - lo[i])
    base = [pow(3 + 2 * i, 12345 + 77 * i, _P) for i in range(n)]
    memo = {}

    def image(p):
        out = {}
        for v, c in p.items():
            for i, e in enumerate(v):
                if e and i != i0:
                    w = memo.get((i, e))
                    if w is None:
                        w = memo[i, e] = pow(base[i], e, _P)
                    c = c * w % _P
            out[v[i0]] = (out.get(v[i0], 0) + c) % _P
        out = {e: c for e, c in out.items() if c}
        if not out:
            return None
        m = min(out)
        r = [0] * (max(out) - m + 1)
        for e, c in out.items():
            r[e - m] = c
        return r
    x, y = image(cn), image(cd)
    if y is None or x is None:
        return True
    if len(y) > 2000 or len(x) > 5000:
        return True
    iv = pow(y[-1], -1, _P)
    for k in range(len(x) - 1, len(y) - 2, -1):
        c = x[k] * iv % _P
        if c:
            for j, d in enumerate(y):
                x[k - len(y) + 1 + j] -= c * d
            for j in range(k - len(y) + 1, k):
                x[j] %= _P
        x[k] = 0
    return not any(x[:len(y) - 1])


def pdivexact(num, den, limit=1500):
    """exact multivariate division (returns None when not exact)"""
    if len(num) < len(den) or len(num) > limit:
        return None
    for m in den:
        for a, e in m:
            if _atoms[a].kind in ('S', 'p'):
                return None
    # compare vectors of exponents (times a common denominator)
    scale = {}
    for p in (num, den):
        for m in p:
            for a, e in m:
                scale[a] = math.lcm(scale.get(a, 1), e.denominator)
    atoms = sorted(scale)
    n = len(atoms)
    idx = {a: i for i, a in enumerate(atoms)}

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[idx[a]] = e.numerator * (scale[a] // e.denominator)
        return tuple(v)
    r = {vec(m): c for m, c in num.items()}
    d = {vec(m): c for m, c in den.items()}
    if not _divides_mod(r, d, n):
        return None
    lead = max(d)
    lc = d[lead]
    rest = [(v, c) for v, c in d.items() if v != lead]
    heap = [tuple(-e for e in v) for v in r]
    heapq.heapify(heap)
    q = {}
    steps = 0
    while heap:
        m = tuple(-e for e in heapq.heappop(heap))
        c = r.pop(m, None)
        if c is None:
            continue
        steps += 1
        if steps > 3 * len(num) + 5:
            return None
        k = tuple(i - j for i, j in zip(m, lead))
        c = c / lc
        if k in q:
            return None
        q[k] = c
        for dm, dc in rest:
            t = tuple(i + j for i, j in zip(dm, k))
            o = r.get(t)
            if o is None:
                r[t] = -dc * c
                heapq.heappush(heap, tuple(-e for e in t))
            else:
                o = o - dc * c
                if o:
                    r[t] = o
                else:
                    del r[t]
    # validity: quotient reproduces num when no reductions are triggered
    out = {}
    for v, c in q.items():
        for i, e in enumerate(v):
            if e and _atoms[atoms[i]].kind in ('S', 'p'):
                return None
        out[tuple((atoms[i], Fr(e, scale[atoms[i]]))
                  for i, e in enumerate(v) if e)] = c
    return out


def content(p):
    """monomial with the minimum exponents (of atoms in any monomial)"""
    it = iter(p)
    first = dict(next(it))
    mn = dict(first)
    for m in it:
        d = dict(m)
        for a in list(mn):
            mn[a] = min(mn[a], d.get(a, Fr(0)))
        for a, e in d.items():
            if a not in mn:
                mn[a] = min(Fr(0), e)
    return tuple(sorted((a, e) for a, e in mn.items() if e))


def radd(x, y, k=1):
    n1, d1 = x
    n2, d2 = y
    if d1 == d2:
        return rat(padd(n1, n2, k), d1)
    if d1 == {ONE: Fr(1)}:
        return rat(padd(pmul(n1, d2), n2, k), d2)
    if d2 == {ONE: Fr(1)}:
        return rat(padd(n1, pmul(n2, d1), k), d1)
    return rat(padd(pmul(n1, d2), pmul(n2, d1), k), pmul(d1, d2))


def rmul(x, y):
    n1, d1 = x
    n2, d2 = y
    if n1 == d2:
        return rat(n2, d1)
    if n2 == d1:
        return rat(n1, d2)
    one = {ONE: Fr(1)}
    if d1 == one and d2 == one:
        return (pmul(n1, n2), one)
    return rat(pmul(n1, n2), pmul(d1, d2))


def rdiv(x, y):
    n2, d2 = y
    if not n2:
        raise TooBig()
    return rmul(x, rat(d2, n2))


def rkey(r):
    return (pkey(r[0]), pkey(r[1]))


def rconst(c):
    return (pconst(c), pconst(1))


def _primes(n):
    out = {}
    p = 2
    while p * p <= n and p < 1000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def const_root(c, q):
    """c > 0 Fraction; c**q as a polynomial over prime atoms"""
    m = {}
    k = Fr(1)
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for p, e in _primes(n).items():
            x = Fr(e * sgn) * q
            i = x.numerator // x.denominator
            k *= Fr(p) ** i
            x -= i
            if x:
                m[atom(('p', p), True).id] = x
    return {tuple(sorted(m.items())): k}


def split_content(p):
    """p = c * m * P with c > 0, m a monomial of positive atoms, P primitive"""
    cm = tuple((a, e) for a, e in content(p) if _atoms[a].pos)
    im = minv(cm)
    q = {mmul(k, im): v for k, v in p.items()}
    lead = abs(q[min(q)])
    q = {k: v / lead for k, v in q.items()}
    return lead, cm, q


def nf(n):
    r = _nfc.get(n.id)
    if r is not None:
        return r
    for z in core.cone([n]):
        if isinstance(z, Sym) and z.id not in _nfc:
            if z.op in ('ite',):
                a = atom(('I', z.id), bool(z.flags & POS), z)
                _nfc[z.id] = (patom(a), pconst(1))
            else:
                _nfc[z.id] = _nf1(z)
    return _nfc[n.id]


def _nf1(z):
    op, a = z.op, z.a
    if op == 'c':
        return rconst(a[0])
    if op == 'v':
        return (patom(atom(('v', a[0]), bool(a[1] & POS), z)), pconst(1))
    if op == '+':
        return radd(_nfc[a[0].id], _nfc[a[1].id])
    if op == '*':
        return rmul(_nfc[a[0].id], _nfc[a[1].id])
    if op == '/':
        return rdiv(_nfc[a[0].id], _nfc[a[1].id])
    if op == '^':
        b = _nfc[a[0].id]
        return rat(ppow(b[0], a[1]), ppow(b[1], a[1]))
    if op == 'sqrt':
        return nf_sqrt(_nfc[a[0].id])
    if op == 'exp':
        return nf_exp(_nfc[a[0].id])
    if op == 'log':
        return nf_log(_nfc[a[0].id])
    if op in ('ncdf', 'sin', 'cos'):
        return nf_parity(op, _nfc[a[0].id])
    if op == 'iv':
        k = ('F', 'iv', rkey(_nfc[a[0].id]), rkey(_nfc[a[1].id]))
        return (patom(atom(k, bool(z.flags & POS), z)), pconst(1))
    if op == 'uf':
        k = ('F', 'uf', a[0]) + tuple(rkey(_nfc[y.id]) for y in a[1:])
        return (patom(atom(k, bool(z.flags & POS), z)), pconst(1))
    raise Unsupported('nf ' + op)


def nf_parity(op, r):
    if not r[0]:
        return rconst({'ncdf': Fr(1, 2), 'sin': 0, 'cos': 1}[op])
    lead = r[0][min(r[0])]
    flip = lead < 0
    if flip:
        r = ({m: -c for m, c in r[0].items()}, r[1])
    a = atom(('F', op, rkey(r)), op == 'ncdf', r)
    res = (patom(a), pconst(1))
    if flip:
        if op == 'ncdf':
            return radd(rconst(1), res, -1)
        if op == 'sin':
            return (padd({}, res[0], -1), res[1])
    return res


def nf_sqrt(r):
    num, den = r
    if not num:
        return rconst(0)
    if den != {ONE: Fr(1)}:
        if ppos(den):
            return rmul(nf_sqrt((pmul(num, den), pconst(1))),
                        rat(pconst(1), den))
        a = atom(('S', pkey(num), pkey(den)), False, (num, den))
        return (patom(a), pconst(1))
    c, m, P = split_content(num)
    res = const_root(c, Fr(1, 2))
    res = pmul(res, {tuple((a, e / 2) for a, e in m): Fr(1)})
    if P != {ONE: Fr(1)}:
        a = atom(('S', pkey(P), pkey(pconst(1))), ppos(P), (P, pconst(1)))
        res = pmul(res, patom(a))
    return (res, pconst(1))


def nf_exp(r):
    num, den = r
    if not num:
        return rconst(1)
    if den != {ONE: Fr(1)}:
        lead = num[min(num)]
        base = ({m: c / lead for m, c in num.items()}, den)
        a = atom(('E', rkey(base)), True, base)
        return (patom(a, lead), pconst(1))
    res = rconst(1)
    mono = {}
    for m, c in num.items():
        if len(m) == 1 and m[0][1] == 1 and _atoms[m[0][0]].kind == 'L':
            L = _atoms[m[0][0]]
            base = L.data        # polynomial (positive)
            if ismono(base):
                (bm, bc), = base.items()
                if bc == 1:
                    res = rmul(res, ({tuple((a, e * c) for a, e in bm):
                                      Fr(1)}, pconst(1)))
                    continue
                if bm == ONE:
                    res = rmul(res, (const_root(bc, c), pconst(1)))
                    continue
            if c.denominator in (1, 2) and abs(c.numerator) < 12:
                b = (base, pconst(1))
                if c.denominator == 2:
                    b = nf_sqrt(b)
                n = abs(c.numerator)
                t = (ppow(b[0], n), pconst(1))
                res = rmul(res, t) if c > 0 else rdiv(res, t)
                continue
        a = atom(('E', (((m, Fr(1)),), ((ONE, Fr(1)),))), True,
                 ({m: Fr(1)}, pconst(1)))
        mono[a.id] = mono.get(a.id, Fr(0)) + c
    t = {tuple(sorted((a, e) for a, e in mono.items() if e)): Fr(1)}
    return rmul(res, (t, pconst(1)))


def _logatom(A):
    """log of a positive atom, as rational function"""
    if A.kind == 'E':
        return A.data
    if A.kind == 'S':
        x = nf_log((A.data[0], pconst(1)))
        y = nf_log((A.data[1], pconst(1)))
        return rmul(rconst(Fr(1, 2)), radd(x, y, -1))
    if A.kind == 'p':
        return (patom(atom(('L', pkey(pconst(A.key[1]))), True,
                           pconst(A.key[1]))), pconst(1))
    p = patom(A)
    return (patom(atom(('L', pkey(p)), False, p)), pconst(1))


def nf_log(r):
    num, den = r
    if den != {ONE: Fr(1)}:
        # log(N/D) with N, D > 0; if both negative flip
        if num[min(num)] < 0 and den[min(den)] < 0:
            num = padd({}, num, -1)
            den = padd({}, den, -1)
        if not ppos(den):
            lead = num[min(num)]
            k = ('LR', rkey(r))
            return (patom(atom(k, False, r)), pconst(1))
        return radd(nf_log((num, pconst(1))), nf_log((den, pconst(1))), -1)
    if not num:
        raise TooBig()
    c, m, P = split_content(num)
    res = rconst(0)
    for sgn, n in ((1, c.numerator), (-1, c.denominator)):
        for p, e in _primes(n).items():
            t = _logatom(atom(('p', p), True))
            res = radd(res, rmul(rconst(sgn * e), t))
    for a, e in m:
        res = radd(res, rmul(rconst(e), _logatom(_atoms[a])))
    if P != {ONE: Fr(1)}:
        res = radd(res, (patom(atom(('L', pkey(P)), False, P)), pconst(1)))
    return res


def clear(num):
    """multiply by a (nonzero, squared when sign is unknown) monomial so that
    all exponents are >= 0; sign preserving"""
    p = num
    for _ in range(6):
        if not p:
            return p
        mn = {}
        for m in p:
            for a, e in m:
                if e < 0:
                    mn[a] = min(mn.get(a, Fr(0)), e)
        if not mn:
            return p
        k = []
        for a, e in mn.items():
            if _atoms[a].pos:
                k.append((a, -e))
            else:
                n = -(e.numerator // e.denominator)
                n += n % 2
                k.append((a, Fr(n)))
        k = tuple(sorted(k))
        p = preduce_any({mmul(m, k): c for m, c in p.items()})
    return p


def is_zero(n):
    """True when the normal form is identically zero"""
    r = nf(n)
    return not clear(r[0])


# ----------------------------------------------------------- differentiation

def diff(n, v):
    """derivative of n with respect to the variable node v"""
    memo = {}
    for z in core.cone([n]):
        if not isinstance(z, Sym):
            continue
        memo[z.id] = _d1(z, v, memo)
    return memo[n.id]


_up = {}        # orders of Bessel functions found while differentiating


def _d1(z, v, memo):
    op, a = z.op, z.a
    zero = const(0)
    if z is v:
        return const(1)
    if op in ('c', 'v'):
        return zero
    if op == 'ite':
        return ite(a[0], memo[a[1].id], memo[a[2].id])
    d = [memo[y.id] if isinstance(y, Sym) else None for y in a]
    if all(y is None or (y.op == 'c' and y.a[0] == 0) for y in d):
        return zero
    if op == '+':
        return add(d[0], d[1])
    if op == '*':
        return add(mul(d[0], a[1]), mul(a[0], d[1]))
    if op == '/':
        return sub(div_raw(d[0], a[1]),
                   div_raw(mul(a[0], d[1]), mul(a[1], a[1])))
    if op == '^':
        return mul(mul(const(a[1]), powi(a[0], a[1] - 1)), d[0])
    if op == 'exp':
        return mul(z, d[0])
    if op == 'log':
        return div_raw(d[0], a[0])
    if op == 'sqrt':
        return div_raw(d[0], mul(const(2), z))
    if op == 'ncdf':
        return mul(npdf(a[0]), d[0])
    if op == 'sin':
        return mul(fn('cos', a[0]), d[0])
    if op == 'cos':
        return neg(mul(fn('sin', a[0]), d[0]))
    if op == 'iv':
        nu, x = a
        if d[0].op != 'c' or d[0].a[0] != 0:
            raise Unsupported('derivative of iv in its order')
        if nu.id in _up:   # I_nu'(x) = I_{nu-1}(x) - nu/x I_nu(x)
            return mul(sub(fn('iv', _up[nu.id], x),
                           mul(div_raw(nu, x), z)), d[1])
        # I_nu'(x) = I_{nu+1}(x) + nu/x I_nu(x)
        w = add(nu, const(1))
        _up[w.id] = nu
        return mul(add(fn('iv', w, x), mul(div_raw(nu, x), z)), d[1])
    raise Unsupported('diff ' + op)


def npdf(x):
    """standard normal density"""
    return div_raw(core.exp_(mul(const(Fr(-1, 2)), mul(x, x))),
                   core.sqrt_(mul(const(2), core.pi())))


def subst(n, m, raw=False):
    """substitute variables: m maps var node id -> node. rebuilds terms"""
    memo = dict(m)
    for z in core.cone([n]):
        if z.id in memo:
            continue
        if z is TRUE or z is FALSE:
            memo[z.id] = z
            continue
        args = [memo[y.id] if isinstance(y, (Sym, SymBool)) else y
                for y in z.a]
        if all(p is q for p, q in zip(args, z.a)):
            memo[z.id] = z
            continue
        op = z.op
        f = {'+': add, '*': mul, '/': div_raw if raw else core.sdiv, '^': powi, 'ite': ite,
             'exp': core.exp_, 'log': core.log_, 'sqrt': core.sqrt_,
             'lt': core.lt, 'eq': core.eq, 'not': core.bnot,
             'and': core.band}.get(op)
        memo[z.id] = f(*args) if f else core._intern(type(z), op, tuple(args))
    return memo[n.id]


# --------------------------------------------------------------- z3 encoding

class Tr:
    """Translation of nodes to z3 terms. mode 'raw': structural; mode 'nf':
    comparisons are between normal forms. Side constraints defining the atoms
    accumulate in self.side."""

    def __init__(self, mode='raw', axioms=0):
        self.mode = mode
        self.axioms = axioms
        self.c = {}
        self.side = []
        self.av = {}       # (atom id, d) -> z3 var
        self.ufs = {}
        self.vars = {}     # name -> z3 var
        self.uninterp = False   # transcendental atoms present

    # variables
    def v(self, z):
        name, flags = z.a
        x = self.vars.get(name)
        if x is None:
            if flags & INT:
                x = z3.Int(name)
                self.vars[name] = x
            else:
                x = z3.Real(name)
                self.vars[name] = x
            if flags & POS:
                self.side.append(x > 0)
            elif flags & NN:
                self.side.append(x >= 0)
            if name == 'PI':
                self.side.append(x > z3.RealVal('3.14159265'))
                self.side.append(x < z3.RealVal('3.14159266'))
        return z3.ToReal(x) if flags & INT else x

    def atomvar(self, a, d=1):
        k = (a, d)
        x = self.av.get(k)
        if x is not None:
            return x
        A = _atoms[a]
        if d != 1:
            x = z3.Real('r%d_%d' % k)
            self.av[k] = x
            self.side.append(x > 0)
            self.side.append(self._zpow(x, d) == self.atomvar(a))
            return x
        if A.kind == 'v':
            x = self.v(A.data)
            self.av[k] = x
            return x
        if A.kind == 'p':
            x = z3.RealVal(A.key[1])
            self.av[k] = x
            return x
        if A.kind == 'I':
            z = A.data
            x = z3.Real('ite%d' % a)
            self.av[k] = x
            c = self.b(z.a[0])
            p, q = self.r(z.a[1]), self.r(z.a[2])
            self.side.append(x == z3.If(c, p, q))
            return x
        if A.kind == 'S':
            x = z3.Real('s%d' % a)
            self.av[k] = x
            self.side.append(x >= 0)
            n, d_ = self.poly(A.data[0]), self.poly(A.data[1])
            self.side.append(x * x * d_ == n)
            return x
        if A.kind == 'F' and A.key[1] == 'uf':
            z = A.data
            x = self.uf(z)
            self.av[k] = x
            return x
        self.uninterp = True
        x = z3.Real('%s%d' % (A.kind, a))
        self.av[k] = x
        if A.kind == 'E':
            self.side.append(x > 0)
            if self.axioms:
                n, d_ = self.poly(A.data[0]), self.poly(A.data[1])
                self._signax(n, d_, x - 1)
                if A.data[1] == {ONE: Fr(1)}:
                    self.side.append(x >= 1 + n)
        elif A.kind == 'F' and A.key[1] == 'ncdf':
            self.side.append(x > 0)
            self.side.append(x < 1)
            if self.axioms:
                n, d_ = self.poly(A.data[0]), self.poly(A.data[1])
                self._signax(n, d_, x - z3.RealVal('1/2'))
        elif A.kind == 'F' and A.key[1] in ('sin', 'cos'):
            self.side.append(x <= 1)
            self.side.append(x >= -1)
        elif A.kind == 'L' and self.axioms:
            p = self.poly(A.data)
            self._signax(p - 1, z3.RealVal(1), x)
            self.side.append(x <= p - 1)
        elif A.kind == 'F' and A.key[1] == 'iv':
            self.side.append(x > 0) if A.pos else None
        return x

    def congruence(self, limit=60):
        """equal arguments give equal values (and exp is increasing)"""
        groups = {}
        for (a, d), x in list(self.av.items()):
            A = _atoms[a]
            if d != 1 or not isinstance(A.data, tuple) or \
                    len(A.data) != 2:
                continue
            if A.kind == 'E':
                groups.setdefault('E', []).append((A, x))
            elif A.kind == 'F' and A.key[1] in ('ncdf', 'sin', 'cos'):
                groups.setdefault(A.key[1], []).append((A, x))
        for k, g in groups.items():
            for i in range(len(g)):
                for j in range(i):
                    limit -= 1
                    if limit < 0:
                        return
                    (A, x), (B, y) = g[i], g[j]
                    p = self.poly(A.data[0]) * self.poly(B.data[1])
                    q = self.poly(B.data[0]) * self.poly(A.data[1])
                    self.side.append(z3.Implies(p == q, x == y))

    def _signax(self, n, d, y):
        """sign(y) == sign(n/d)"""
        self.side.append(z3.Implies(n == 0, y == 0))
        self.side.append(z3.Implies(n * d > 0, y > 0))
        self.side.append(z3.Implies(n * d < 0, y < 0))

    def uf(self, z):
        name, kind = z.a[0]
        args = [self.r(y) for y in z.a[1:]]
        f = self.ufs.get((name, len(args)))
        if f is None:
            f = z3.Function(name, *([z3.RealSort()] * (len(args) + 1)))
            self.ufs[(name, len(args))] = f
        x = f(*args)
        if kind in ('pos', 'posint'):
            self.side.append(x > 0)
        return x

    def _zpow(self, x, n):
        r = x
        for _ in range(n - 1):
            r = r * x
        return r

    def poly(self, p, lcm=None):
        """polynomial (clears nothing: negative exponents as divisions)"""
        terms = []
        for m, c in p.items():
            num, den = [], []
            for a, e in m:
                d = e.denominator
                x = self.atomvar(a, d)
                n = int(e * d)
                (num if n > 0 else den).append(self._zpow(x, abs(n)))
            t = z3.RealVal(str(c))
            for y in num:
                t = t * y
            if den:
                dd = den[0]
                for y in den[1:]:
                    dd = dd * y
                t = t / dd
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def polyc(self, p):
        """cleared polynomial with a common root denominator per atom"""
        lcm = {}
        from math import gcd
        for m in p:
            for a, e in m:
                d = lcm.get(a, 1)
                lcm[a] = d * e.denominator // gcd(d, e.denominator)
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for a, e in m:
                x = self.atomvar(a, lcm[a])
                t = t * self._zpow(x, int(e * lcm[a]))
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return z3.Sum(terms) if len(terms) > 1 else terms[0]

    def rat(self, r):
        n = self.poly(r[0])
        if r[1] == {ONE: Fr(1)}:
            return n
        return n / self.poly(r[1])

    def r(self, n):
        """real term"""
        x = self.c.get(n.id)
        if x is not None:
            return x
        if self.mode == 'nf':
            x = self.rat(nf(n))
            self.c[n.id] = x
            return x
        stack = [n]
        while stack:
            z = stack[-1]
            if z.id in self.c:
                stack.pop()
                continue
            if isinstance(z, SymBool):
                self.c[z.id] = self.b(z)
                stack.pop()
                continue
            if z.op in ('exp', 'log', 'sqrt', 'ncdf', 'sin', 'cos', 'iv'):
                self.c[z.id] = self.rat(nf(z))
                stack.pop()
                continue
            kids = [y for y in z.a if isinstance(y, (Sym, SymBool))]
            todo = [y for y in kids if y.id not in self.c]
            if todo:
                stack.extend(todo)
                continue
            k = [self.c[y.id] for y in kids]
            self.c[z.id] = self._r1(z, k)
            stack.pop()
        return self.c[n.id]

    def _r1(self, z, k):
        op = z.op
        if op == 'c':
            return z3.RealVal(str(z.a[0]))
        if op == 'v':
            return self.v(z)
        if op == '+':
            return k[0] + k[1]
        if op == '*':
            return k[0] * k[1]
        if op == '/':
            return k[0] / k[1]
        if op == '^':
            return self._zpow(k[0], z.a[1])
        if op == 'ite':
            return z3.If(k[0], k[1], k[2])
        if op == 'uf':
            return self.uf(z)
        raise Unsupported('z3 ' + op)

    def b(self, n):
        if n is TRUE:
            return z3.BoolVal(True)
        if n is FALSE:
            return z3.BoolVal(False)
        x = self.c.get(n.id)
        if x is not None:
            return x
        op = n.op
        if op == 'not':
            x = z3.Not(self.b(n.a[0]))
        elif op == 'and':
            x = z3.And(*[self.b(y) for y in n.a])
        elif op == 'bv':
            x = z3.Bool(n.a[0])
        elif self.mode == 'nf':
            r = nf(sub(n.a[0], n.a[1]))
            num = self.polyc(clear(r[0]))
            if op == 'eq':
                x = num == 0
            else:
                if r[1] == {ONE: Fr(1)} or ppos(r[1]):
                    x = num < 0
                else:
                    den = self.polyc(clear(r[1]))
                    x = z3.Or(z3.And(num < 0, den > 0),
                              z3.And(num > 0, den < 0))
        elif op == 'eq':
            x = self.r(n.a[0]) == self.r(n.a[1])
        elif op == 'lt':
            x = self.r(n.a[0]) < self.r(n.a[1])
        else:
            raise Unsupported('z3 bool ' + op)
        self.c[n.id] = x
        return x
