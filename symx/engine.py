"""Path exploration, solver queries, counterexample search."""
import math
import random
import time
import traceback
from fractions import Fraction as Fr

import z3

from . import core, nf
from .core import (Sym, SymBool, Unsupported, PathAbort, TRUE, FALSE, INT,
                   POS, NN, const, bnot, band)


class Stats(dict):
    def inc(self, k, n=1):
        self[k] = self.get(k, 0) + n


class Dec:
    __slots__ = ('val', 'alt')

    def __init__(self, val, alt):
        self.val, self.alt = val, alt


class Engine:

    def __init__(self, seed=1, max_paths=4000, deadline=None, qtimeout=4000,
                 stats=None):
        self.rnd = random.Random(seed)
        self.max_paths = max_paths
        self.deadline = deadline
        self.qt = qtimeout
        self.st = stats if stats is not None else Stats()
        self.decs = []
        self.queries = []    # sample of queries
        self._seen, self._fold, self._nfold = set(), [], 0

    # ---------------------------------------------------------- per path
    def start(self):
        self.idx = 0
        self.pc = []
        self.cache = {}
        self.tr = nf.Tr('raw')
        self.s = z3.Solver()
        self.s.set('timeout', 2500)
        self.nside = 0
        self.model = None
        self.vars = {}        # name -> (node, generator)
        self.order = []
        self.ncs = 0
        self.pcset = set()

    def folded(self, x, y):
        """an equality decided while building the terms: kept for one solver
        query per path"""
        k = (x.id, y.id)
        if k not in self._seen and len(self._fold) < 400:
            self._seen.add(k)
            self._fold.append((x, y))

    def discharge(self):
        """the equalities decided by term construction, as a solver query"""
        todo, self._fold = self._fold, []
        if not todo or self._nfold >= 40:
            return
        self._nfold += 1
        try:
            tr = nf.Tr('raw', 0)
            neg = [tr.r(x) != tr.r(y) for x, y in todo
                   if x.op != 'c' or y.op != 'c']
            if not neg:
                return
            s = z3.Solver()
            s.set('timeout', 500)
            s.add(z3.Or(*neg))
            t0 = time.time()
            r = s.check()
        except (nf.TooBig, RecursionError, Unsupported):
            return
        self.st.inc('goal_queries')
        self.st.inc('solver_s', time.time() - t0)
        if r == z3.unsat:
            self.st.inc('folded_unsat', len(neg))
        if len(self.queries) < 1:
            self.queries.append(s.sexpr()[:600])

    def _sync(self):
        while self.nside < len(self.tr.side):
            self.s.add(self.tr.side[self.nside])
            self.nside += 1

    def _assert(self, c):
        self.pc.append(c)
        self.s.add(self.tr.b(c))
        self._sync()

    def _check(self, c):
        """sat status of pc and c"""
        z = self.tr.b(c)
        self._sync()
        t0 = time.time()
        self.s.push()
        self.s.add(z)
        r = self.s.check()
        if r == z3.sat:
            try:
                self._m = self.s.model()
            except z3.Z3Exception:
                self._m = None
        self.s.pop()
        self.st.inc('branch_queries')
        self.st.inc('solver_s', time.time() - t0)
        if r == z3.unknown:
            # one more try, in normal form
            r2 = self._goal_nf([bnot(c)], True, 0, 2000)
            if r2 == z3.unsat:
                return r2
            self.st.inc('branch_unknown')
        return r

    def _ispos(self, x, depth=12):
        """positive, by sign rules and the decisions taken so far"""
        if x.flags & core.POS:
            return True
        if depth == 0 or x.op == 'c':
            return x.op == 'c' and x.a[0] > 0
        c = core.lt(core.const(0), x)
        if c is core.TRUE or self.cache.get(c.id) is True:
            return True
        if x.op == 'sqrt':
            return self._ispos(x.a[0], depth - 1) or \
                self.cache.get(core.eq(x, core.const(0)).id) is False
        if x.op in ('*', '/'):
            return all(self._ispos(z, depth - 1) for z in x.a)
        if x.op == '^':
            return self._ispos(x.a[0], depth - 1)
        return False

    def _quick(self, c):
        """outcome of a comparison with zero by sign rules, or None"""
        if c.op not in ('lt', 'le', 'eq'):
            return None
        x, y = c.a
        if x.op == 'c' and x.a[0] == 0:
            if y.op != 'c' and self._ispos(y):
                return c.op != 'eq'
        elif y.op == 'c' and y.a[0] == 0 and self._ispos(x):
            return False
        return None

    def branch(self, c):
        if c.op == 'not':
            return not self.branch(c.a[0])
        v = self.cache.get(c.id)
        if v is not None:
            return v
        v = self._quick(c)
        if v is not None:
            return v
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        if self.idx < len(self.decs):
            v = self.decs[self.idx].val
            self.idx += 1
            self.cache[c.id] = v
            self._assert(c if v else bnot(c))
            if self.idx == len(self.decs):
                self.model = None
            return v
        t = f = None
        if self.model is not None:
            n = self.nside
            z = self.tr.b(c)
            self._sync()
            try:
                # the model predates new side constraints: keep it only if
                # it satisfies them
                if all(z3.is_true(self.model.eval(x, model_completion=True))
                       for x in self.tr.side[n:]):
                    e = self.model.eval(z, model_completion=True)
                    if z3.is_true(e):
                        t = z3.sat
                    elif z3.is_false(e):
                        f = z3.sat
                else:
                    self.model = None
            except z3.Z3Exception:
                pass
        mt = mf = self.model
        if t is None:
            self._m = None
            t = self._check(c)
            mt = self._m
        if f is None:
            self._m = None
            f = self._check(bnot(c))
            mf = self._m
        if t != z3.unsat and f != z3.unsat and any(
                z.op in ('exp', 'log', 'ncdf') for z in core.cone([c])):
            # again, with the sign and bounds of transcendental terms
            if self._goal_nf([c], True, 1, 3000) == z3.unsat:
                f = z3.unsat
            elif self._goal_nf([bnot(c)], True, 1, 3000) == z3.unsat:
                t = z3.unsat
        if t == z3.unsat and f == z3.unsat:
            raise PathAbort('infeasible')
        if t == z3.unsat:
            v, alt = False, False
        elif f == z3.unsat:
            v, alt = True, False
        else:
            v, alt = True, True
        self.decs.append(Dec(v, alt))
        self.st.inc('decisions')
        if alt:
            self.st.inc('forks')
        self.idx += 1
        self.model = mt if v else mf
        self.cache[c.id] = v
        self._assert(c if v else bnot(c))
        return v

    def assume(self, c):
        if isinstance(c, (bool,)):
            if not c:
                raise PathAbort('assumption')
            return
        if c is TRUE:
            return
        if c is FALSE:
            raise PathAbort('assumption')
        if c.op == 'and':
            for x in c.a:
                self.assume(x)
            return
        neg_ = c.op == 'not'
        b = c.a[0] if neg_ else c
        v = self.cache.get(b.id)
        if v is not None:
            if v == neg_:
                raise PathAbort('assumption')
            return
        self.cache[b.id] = not neg_
        self._assert(c)
        self.model = None

    def feasible(self):
        t0 = time.time()
        r = self.s.check()
        self.st.inc('branch_queries')
        self.st.inc('solver_s', time.time() - t0)
        return r != z3.unsat

    def concretize(self, x, limit=40):
        """fork over the integer values of x (truncating towards zero)"""
        if x.op == 'c':
            return int(x.a[0])
        if x.op == 'ite':
            return self.concretize(x.a[1] if bool(x.a[0]) else x.a[2])
        isint = x.flags & INT
        for k in range(limit):
            # candidates from a model
            v = None
            if self.idx < len(self.decs):
                # replaying: the same enumeration order is needed
                pass
            for v in self._int_candidates(k):
                pass
            if isint:
                if bool(core.eq(x, const(v))):
                    return v
            elif v == 0:
                if bool(band(core.lt(const(-1), x), core.lt(x, const(1)))):
                    return 0
            elif v > 0:
                if bool(band(core.le(const(v), x),
                             core.lt(x, const(v + 1)))):
                    return v
            else:
                if bool(band(core.lt(const(v - 1), x),
                             core.le(x, const(v)))):
                    return v
        raise Unsupported('concretization limit')

    @staticmethod
    def _int_candidates(k):
        # 0, 1, -1, 2, -2, ...
        yield (k + 1) // 2 * (1 if k % 2 else -1)

    # ----------------------------------------------------------- variables
    def newvar(self, name, flags, gen):
        if name in self.vars:
            return self.vars[name][0]
        n = core.var(name, flags)
        self.vars[name] = (n, gen)
        self.order.append(name)
        return n

    # --------------------------------------------------------------- goals
    def _goal_nf(self, conds, with_pc, axioms, timeout, mode='nf'):
        """status of pc and not (and of conds)"""
        try:
            tr = nf.Tr(mode, axioms)
            neg = [tr.b(bnot(c)) for c in conds]
            s = z3.Solver()
            s.set('timeout', int(timeout))
            if with_pc:
                for p in self.pc:
                    s.add(tr.b(p))
            s.add(z3.Or(*neg) if len(neg) != 1 else neg[0])
            if axioms:
                tr.congruence()
            for x in tr.side:
                s.add(x)
        except (nf.TooBig, RecursionError):
            return z3.unknown
        t0 = time.time()
        r = s.check()
        self.st.inc('goal_queries')
        self.st.inc('solver_s', time.time() - t0)
        self._last = (s, tr)
        if len(self.queries) < 3:
            try:
                self.queries.append(s.sexpr()[:600])
            except Exception:
                pass
        return r

    def _equalities(self, goal=None):
        """variable -> term, from equalities in the path condition"""
        le = set()
        diffs = []
        pairs = []
        for c in self.pc:
            if c.op == 'eq':
                diffs.append(core.sub(c.a[0], c.a[1]))
                pairs.append(c.a)
            elif c.op == 'not' and c.a[0].op == 'lt':
                b, a = c.a[0].a          # not b < a : a <= b
                try:
                    k1 = nf.rkey(nf.nf(core.sub(a, b)))
                    k2 = nf.rkey(nf.nf(core.sub(b, a)))
                except (nf.TooBig, ZeroDivisionError, Unsupported):
                    continue
                if k2 in le:
                    diffs.append(core.sub(a, b))
                    pairs.append((a, b))
                le.add(k1)
        sub, whole, keys = {}, {}, {}
        for a, b in pairs:
            # a compound term known to be constant is replaced as a whole
            if a.op == 'c':
                a, b = b, a
            if b.op == 'c' and a.op not in 'cv':
                whole[a.id] = b
                try:
                    keys[nf.rkey(nf.nf(a))] = b
                except (nf.TooBig, ZeroDivisionError, Unsupported):
                    pass
        for d in diffs:
            try:
                d = nf.subst(d, sub, True) if sub else d
                r = nf.nf(d)
            except (nf.TooBig, ZeroDivisionError, Unsupported):
                continue
            num = r[0]
            for m, k in num.items():
                if len(m) == 1 and m[0][1] == 1:
                    A = nf._atoms[m[0][0]]
                    if A.kind != 'v' or A.data.flags & INT:
                        continue
                    if any(a == m[0][0] for q in num for a, e in q
                           if q != m) or any(a == m[0][0] for q in r[1]
                                             for a, e in q):
                        continue
                    v = A.data
                    rest = nf.subst(d, {v.id: const(0)}, True)
                    den = nf.subst(nf.diff(d, v), {v.id: const(0)}, True)
                    try:
                        e = core.neg(nf.div_raw(rest, den))
                        if not nf.is_zero(nf.subst(d, {v.id: e}, True)):
                            continue
                    except (nf.TooBig, ZeroDivisionError, Unsupported):
                        continue
                    sub = {i: nf.subst(x, {v.id: e}, True)
                           for i, x in sub.items()}
                    sub[v.id] = e
                    break
        for i, b in whole.items():
            sub.setdefault(i, b)
        if keys and goal is not None:
            # same term, written differently
            for z in core.cone([goal]):
                if z.op in '+*/' and z.id not in sub:
                    try:
                        b = keys.get(nf.rkey(nf.nf(z)))
                    except (nf.TooBig, ZeroDivisionError, Unsupported):
                        continue
                    if b is not None:
                        sub[z.id] = b
        return sub

    def _logs(self, goal):
        """an equality of positive products of exponentials, as the equality
        of their logarithms; None if it is not of this form"""
        if goal.op != 'eq':
            return None
        x, y = goal.a
        if not (x.flags & POS and y.flags & POS):
            return None
        try:
            for z in (x, y):
                num, den = nf.nf(z)
                if len(num) != 1 or len(den) != 1:
                    return None
            if not any(nf._atoms[a].kind == 'E' for z in (x, y)
                       for p in nf.nf(z) for m in p for a, e in m):
                return None
            return core.eq(core.log_(x), core.log_(y))
        except (nf.TooBig, ZeroDivisionError, Unsupported):
            return None

    def _cases(self, goal, splits):
        """case split on the conditions of the conditional terms of goal,
        None if there are none"""
        while True:
            c = next((z.a[0] for z in core.cone([goal]) if z.op == 'ite'),
                     None)
            if c is None:
                return None
            b, flip = (c.a[0], True) if c.op == 'not' else (c, False)
            v = self.cache.get(b.id)
            if v is not None:
                v = v != flip
            elif self._goal_nf([bnot(c)], True, 0, 1500) == z3.unsat:
                v = False
            elif self._goal_nf([c], True, 0, 1500) == z3.unsat:
                v = True
            if v is not None:
                goal = nf.subst(goal, {c.id: TRUE if v else FALSE}, True)
                if not any(z.op == 'ite' for z in core.cone([goal])):
                    return self.prove([goal], splits)
                continue
            if splits <= 0:
                return None
            for v in (True, False):
                x = c if v else bnot(c)
                pc = list(self.pc)
                self.pc.append(x)
                try:
                    r = self.prove([nf.subst(
                        goal, {c.id: TRUE if v else FALSE}, True)],
                        splits - 1)
                finally:
                    self.pc = pc
                if r[0] != 'holds':
                    return r
            return 'holds', None

    def prove(self, conds, splits=6):
        """conds: list of SymBool. Returns ('holds'|'fails'|'unknown', info).
        """
        conds = [c for c in conds if c is not TRUE]
        if not conds:
            self.st.inc('goals_trivial')
            return 'holds', None
        if any(c is FALSE for c in conds):
            return 'fails', None
        r = self._goal_nf(conds, False, 0, self.qt)
        if r == z3.unsat:
            self.st.inc('goals_unsat')
            return 'holds', None
        if len(self.pc) or True:
            r = self._goal_nf(conds, True, 0, self.qt)
            if r == z3.unsat:
                self.st.inc('goals_unsat')
                return 'holds', None
        if r == z3.sat and not self._last[1].uninterp:
            return 'fails', self._last
        last = self._last if r == z3.sat else None
        if len(conds) > 1:
            for c in conds:
                k, i = self.prove([c])
                if k != 'holds':
                    return k, i
            return 'holds', None
        c = self._logs(conds[0])
        if c is not None:
            if c is TRUE:
                self.st.inc('goals_unsat')
                return 'holds', None
            for pc in (False, True):
                if self._goal_nf([c], pc, 0, self.qt) == z3.unsat:
                    self.st.inc('goals_unsat')
                    return 'holds', None
        r = self._cases(conds[0], splits)
        if r is not None:
            return r
        sub = self._equalities(conds[0])
        if sub:
            try:
                c2 = [nf.subst(c, sub, True) for c in conds]
                c2 = [c for c in c2 if c is not TRUE]
                if not c2:
                    self.st.inc('goals_unsat')
                    return 'holds', None
                for pc in (False, True):
                    r = self._goal_nf(c2, pc, 0, self.qt)
                    if r == z3.unsat:
                        self.st.inc('goals_unsat')
                        return 'holds', None
            except (nf.TooBig, ZeroDivisionError, Unsupported):
                pass
        for mode, ax, t in (('raw', 0, self.qt), ('nf', 1, self.qt * 2),
                            ('raw', 1, self.qt * 2)):
            r = self._goal_nf(conds, True, ax, t, mode)
            if r == z3.unsat:
                self.st.inc('goals_unsat')
                return 'holds', None
            if r == z3.sat:
                last = self._last
                if not self._last[1].uninterp:
                    return 'fails', last
        if last is not None:
            return 'fails', last
        return 'unknown', None

    # ------------------------------------------------ models -> assignments
    def _num(self, m, zv):
        e = m.eval(zv, model_completion=True)
        try:
            if z3.is_int_value(e):
                return float(e.as_long())
            if z3.is_rational_value(e):
                return float(e.as_fraction())
            if z3.is_algebraic_value(e):
                return float(e.approx(12).as_fraction())
        except Exception:
            pass
        return None

    def _holds(self, env, conds, viol=None, margin=0.):
        """pc holds at env and (viol given) some viol condition is false"""
        roots = list(self.pc) + list(viol or ())
        extra = []
        for c in (viol or ()):
            b = c.a[0] if c.op == 'not' else c
            if b.op in ('eq', 'lt'):
                extra += [b.a[0], b.a[1]]
        try:
            val = core.feval(roots + extra, env)
        except (OverflowError, KeyError):
            return False
        for p in self.pc:
            if val[p.id] is not True and val[p.id] != True:  # noqa
                return False
        if viol is None:
            return True
        for c in viol:
            if c is FALSE:
                return True
            if val[c.id]:
                continue
            b = c.a[0] if c.op == 'not' else c
            if b.op in ('eq', 'lt'):
                x, y = val[b.a[0].id], val[b.a[1].id]
                if not (math.isfinite(x) and math.isfinite(y)):
                    continue
                if abs(x - y) > margin * (1 + abs(x) + abs(y)):
                    return True
            elif margin == 0 or b.op == 'and':
                return True
        return False

    def sample_gen(self, name):
        node, gen = self.vars[name]
        return gen(self.rnd)

    def _ints_of(self, m, tr):
        out = {}
        for n in self.order:
            node, gen = self.vars[n]
            if node.flags & INT:
                zv = tr.vars.get(n)
                v = self._num(m, zv) if zv is not None else None
                out[n] = float(v) if v is not None else float(gen(self.rnd))
        return out

    def assignments(self, viol=None, last=None, tries=150, z3tries=6):
        """Generate float assignments consistent with pc (and violating one
        of viol)."""
        margins = (1e-3, 1e-5, 0.) if viol is not None else (0.,)
        # integer variables: from a model of pc
        ints = None
        if last is not None:
            try:
                ints = self._ints_of(last[0].model(), last[1])
            except z3.Z3Exception:
                ints = None
        if ints is None:
            self.s.check()
            try:
                ints = self._ints_of(self.s.model(), self.tr)
            except z3.Z3Exception:
                ints = {n: float(self.sample_gen(n)) for n in self.order
                        if self.vars[n][0].flags & INT}
        intcands = [ints]
        for margin in margins:
            for k in range(tries):
                env = dict(ints)
                if k % 3 == 2:
                    for n in env:
                        if self.rnd.random() < .3:
                            env[n] = float(self.sample_gen(n))
                for n in self.order:
                    if n not in env:
                        env[n] = self.sample_gen(n)
                # ordered resampling: sort helps timelines
                self._sort_groups(env)
                if self._holds(env, None, viol, margin):
                    yield env
            for env in self._z3_assign(viol, last, z3tries, ints):
                if self._holds(env, None, viol, margin):
                    yield env

    def anywhere(self, tries, seconds=20):
        """Assignments of the variables in their ranges, on any path."""
        end = time.time() + seconds
        for k in range(tries):
            if time.time() > end:
                return
            env = {n: self.sample_gen(n) for n in self.order}
            for n in self.order:
                if self.vars[n][0].flags & INT:
                    env[n] = float(env[n])
            self._sort_groups(env)
            yield env

    def _sort_groups(self, env):
        for g in getattr(self, 'groups', ()):
            vals = sorted(env[n] for n in g if n in env)
            if len(vals) == len(g):
                for n, v in zip(g, vals):
                    env[n] = v

    def _z3_assign(self, viol, last, n, ints):
        if last is None and viol is not None and any(
                c is not FALSE for c in viol):
            last = None
        for k in range(n):
            if last is not None:
                s, tr = last
            else:
                s, tr = self.s, self.tr
            s.push()
            try:
                s.set('timeout', 1500)
                r = s.check()
                if r != z3.sat:
                    return
                m = s.model()
                names = [x for x in self.order if x in tr.vars]
                self.rnd.shuffle(names)
                t0 = time.time()
                for x in names:
                    if time.time() - t0 > 4:
                        break
                    zv = tr.vars[x]
                    node, gen = self.vars[x]
                    if node.flags & INT:
                        val = z3.IntVal(int(self._num(m, zv) or 0))
                        s.add(zv == val)
                        continue
                    ok = False
                    for _ in range(3):
                        v = Fr(gen(self.rnd)).limit_denominator(64)
                        s.push()
                        s.add(zv == z3.RealVal(str(v)))
                        s.set('timeout', 400)
                        if s.check() == z3.sat:
                            m = s.model()
                            ok = True
                            break
                        s.pop()
                    if not ok:
                        pass
                env = {}
                for x in self.order:
                    zv = tr.vars.get(x)
                    v = self._num(m, zv) if zv is not None else None
                    env[x] = v if v is not None else (
                        ints[x] if x in ints else self.sample_gen(x))
                yield env
            finally:
                # unwind every level
                while s.num_scopes() > 0:
                    s.pop()
                s.set('timeout', 2500)

    # ------------------------------------------------------------ exploring
    def next_path(self):
        """advance the decision list to the next unexplored path"""
        while self.decs:
            d = self.decs[-1]
            if d.alt:
                d.alt = False
                d.val = not d.val
                return True
            self.decs.pop()
        return False
