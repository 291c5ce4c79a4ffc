"""Binary64 arithmetic over the reals.

A double is a pair (nan, r): r is the value of a non-NaN double, infinities are
+-2^1024.  Every operation is constrained by the IEEE 754 round-to-nearest contract
    |result - exact| <= 2^-53 |exact| + 2^-1074       (|exact| <= 2^1023)
and is exact on integers when the exact result is an integer of at most 2^53.
Outside these ranges the result is unconstrained, which only weakens what can be proved."""
import math
import time
import struct
from fractions import Fraction
import z3
from ir import Unsupported
from terms import *

INF = z3.RealVal(2 ** 1024)
EPS = z3.RealVal("1/%d" % 2 ** 53)
TINY = z3.RealVal("1/%d" % 2 ** 1074)
BOUNDS = (1, 10, 100, 1000, 10 ** 4, 43200, 50000, 86400, 10 ** 5, 500000, 10 ** 6, 3000000, 10 ** 7, 10 ** 9, 10 ** 12, 2 ** 52)
HALF = z3.RealVal("1/2")


def absr(x):
    return z3.If(x >= 0, x, -x)


class RealFP:
    def __init__(self, ex):
        self.ex = ex
        self.info = {}
        self.keep = []
        self.memos = {}
        self.ints = {}
        self.lir = {}

    def memo(self, st, key, make, constrain):
        """operations are functions: same operands, same result; its constraints are
        added once on every path that uses it"""
        k = tuple(x if not hasattr(x, 'get_id') else ('t', x.get_id()) for x in key)
        m = self.memos.get(k)
        if m is None:
            self.keep += [x for x in key if hasattr(x, 'get_id')]
            m = self.memos[k] = make()
        done = st.env.get('fpdone', frozenset())
        if k not in done:
            st.env['fpdone'] = done | {k}
            constrain(*m)
        return m[0]

    def fresh(self, nan=None):
        b = self.ex.fresh(64, 'fp')
        r = z3.FreshConst(z3.RealSort(), 'r')
        nan = z3.FreshConst(z3.BoolSort(), 'nan') if nan is None else nan
        self.bind(b, r, nan)
        return b, r, nan

    # reals known to be integers on a path
    def twin(self, st, r):
        if z3.is_rational_value(r):
            return z3.IntVal(r.numerator_as_long()) if r.denominator_as_long() == 1 else None
        return st.env.get('fpint', {}).get(r.get_id())

    def set_twin(self, st, r, i):
        d = dict(st.env.get('fpint', {}))
        d[r.get_id()] = i
        self.keep.append(r)
        st.env['fpint'] = d

    def bind(self, b, r, nan):
        self.info[b.get_id()] = (r, nan)
        self.keep.append(b)

    def get(self, st, v):
        """(r, nan) of a bit pattern"""
        if isc(v):
            d = struct.unpack('<d', struct.pack('<Q', v))[0]
            if math.isnan(d):
                return z3.RealVal(0), z3.BoolVal(True)
            if math.isinf(d):
                return (INF if d > 0 else -INF), z3.BoolVal(False)
            f = Fraction(d)
            return z3.RealVal("%d/%d" % (f.numerator, f.denominator)), z3.BoolVal(False)
        i = self.info.get(v.get_id())
        if i is None:
            if z3.is_app_of(v, z3.Z3_OP_ITE):
                c = v.arg(0)
                a, b = self.get(st, mk(v.arg(1))), self.get(st, mk(v.arg(2)))
                i = (z3.If(c, a[0], b[0]), z3.If(c, a[1], b[1]))
                self.info[v.get_id()] = i
                self.keep.append(v)
            else:
                r = z3.FreshConst(z3.RealSort(), 'r')
                nan = z3.FreshConst(z3.BoolSort(), 'nan')
                self.bind(v, r, nan)
                i = (r, nan)
        r = i[0]
        if z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            st.assume(z3.And(r <= INF, r >= -INF))
        return i

    def is_inf(self, r):
        return z3.Or(r == INF, r == -INF)

    def arith(self, st, op, x, y):
        return self.memo(st, (op, x, y), self.fresh, lambda res, r, nan: self.arith_(st, op, x, y, res, r, nan))

    def facts(self, st):
        s = z3.Solver()
        s.set('timeout', 500)
        s.add([f for f in (self.lira(e) for e in st.pc) if f is not None])
        return s

    def holds(self, s, cond):
        s.push()
        s.add(z3.Not(cond))
        r = s.check()
        s.pop()
        self.ex.smt.queries += 1
        return r == z3.unsat

    def bound(self, s, e):
        """the smallest listed constant that bounds |e| on this path"""
        low = 0
        for k in BOUNDS:
            if k < low:
                continue
            s.push()
            s.add(z3.Or(e > k, e < -k))
            r = s.check()
            self.ex.smt.queries += 1
            if r == z3.sat:
                v = s.model().eval(e, model_completion=True)
                low = abs(v.as_long()) if z3.is_int_value(v) else abs(v.numerator_as_long()) // v.denominator_as_long()
            s.pop()
            if r == z3.unsat:
                return k
        return None

    def settle(self, st):
        """operations whose side conditions the path now implies: keep the plain error bound"""
        pend = st.env.get('fp', ())
        if not pend:
            return
        t = time.time()
        s = self.facts(st)
        left = []
        for p in pend:
            ids, ok, e, r, nan = p
            if e is None and self.holds(s, ok):
                st.pc = [c for c in st.pc if c.get_id() not in ids]
                res, i = r
                st.assume(res == z3.ToReal(i))
                self.set_twin(st, res, i)
                s = self.facts(st)
            elif e is not None and self.holds(s, ok):
                k = self.bound(s, e)
                st.pc = [c for c in st.pc if c.get_id() not in ids]
                tol = EPS * absr(e) + TINY if k is None else EPS * k + TINY
                st.assume(z3.Not(nan))
                if k is None:
                    st.assume(absr(r) < INF)
                st.assume(r - e <= tol)
                st.assume(e - r <= tol)
                s = self.facts(st)
            else:
                left.append(p)
        st.env['fp'] = tuple(left)
        self.ex.smt.time += time.time() - t

    def arith_(self, st, op, x, y, res, r, nan):
        self.settle(st)
        a, an = self.get(st, x)
        b, bn = self.get(st, y)
        fin = z3.And(z3.Not(an), z3.Not(bn), z3.Not(self.is_inf(a)), z3.Not(self.is_inf(b)))
        e = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[op]()
        e = z3.simplify(e)
        if op == 'div':
            fin = z3.And(fin, b != 0)
        st.assume(z3.And(r <= INF, r >= -INF))
        n = len(st.pc)
        ia, ib = self.twin(st, a), self.twin(st, b)
        ok = z3.simplify(z3.And(fin, absr(e) <= z3.RealVal(2 ** 1023)))
        s = self.facts(st)
        exact = op != 'div' and ia is not None and ib is not None and \
            self.holds(s, z3.And(fin, absr(e) <= z3.RealVal(2 ** 53)))
        if exact:
            self.set_twin(st, r, {'add': lambda: ia + ib, 'sub': lambda: ia - ib, 'mul': lambda: ia * ib}[op]())
            st.assume(z3.Not(nan))
            st.assume(r == e)
            return
        st.assume(z3.Implies(z3.Or(an, bn), nan))
        tol = EPS * absr(e) + TINY
        st.assume(z3.Implies(ok, z3.And(z3.Not(nan), absr(r) < INF, r - e <= tol, e - r <= tol)))
        # overflow keeps the sign
        st.assume(z3.Implies(z3.And(fin, z3.Not(absr(e) <= z3.RealVal(2 ** 1023))),
                             z3.And(z3.Not(nan), absr(r) >= z3.RealVal(2 ** 1022), (r > 0) == (e > 0))))
        if op in ('mul', 'div') and isc(y):
            # an infinity scaled by a finite non zero constant
            st.assume(z3.Implies(z3.And(z3.Not(an), self.is_inf(a), b != 0, z3.Not(self.is_inf(b)), z3.Not(bn)),
                                 z3.And(z3.Not(nan), r == z3.If(b > 0, a, -a))))
        st.env['fp'] = st.env.get('fp', ()) + ((frozenset(c.get_id() for c in st.pc[n:]), ok, e, r, nan),)
        self.settle(st)

    def cmp(self, st, pred, x, y):
        a, an = self.get(st, x)
        b, bn = self.get(st, y)
        un = z3.Or(an, bn)
        if pred == 'uno':
            return simp(un)
        if pred == 'ord':
            return simp(z3.Not(un))
        p = pred[1:]
        e = {'eq': lambda: a == b, 'ne': lambda: a != b, 'lt': lambda: a < b, 'le': lambda: a <= b,
             'gt': lambda: a > b, 'ge': lambda: a >= b}[p]()
        return simp(z3.Or(un, e) if pred[0] == 'u' else z3.And(z3.Not(un), e))

    def neg(self, st, x):
        a, an = self.get(st, x)
        def con(b, r, nan):
            self.settle(st)
            st.assume(r == -a)
            t = self.twin(st, a)
            if t is not None:
                self.set_twin(st, r, -t)
        return self.memo(st, ('neg', x), lambda: self.fresh(an), con)

    def fabs(self, st, x):
        a, an = self.get(st, x)
        return self.memo(st, ('fabs', x), lambda: self.fresh(an), lambda b, r, nan: st.assume(r == absr(a)))

    def to_int(self, st, kind, a):
        i = self.memos.setdefault(('int', kind, a.get_id()), z3.FreshConst(z3.IntSort(), 'i'))
        self.keep.append(a)
        r = z3.ToReal(i)
        if kind == 'round':         # to nearest, halves away from zero
            st.assume(z3.If(a >= 0, z3.And(r <= a + HALF, a + HALF < r + 1), z3.And(r >= a - HALF, a - HALF > r - 1)))
        elif kind == 'floor':
            st.assume(z3.And(r <= a, a < r + 1))
        elif kind == 'ceil':
            st.assume(z3.And(r >= a, a > r - 1))
        elif kind == 'trunc':
            st.assume(z3.If(a >= 0, z3.And(r <= a, a < r + 1), z3.And(r >= a, a > r - 1)))
        elif kind == 'rint':        # halves to even
            st.assume(z3.And(r - a <= HALF, a - r <= HALF))
            st.assume(z3.Implies(z3.Or(r - a == HALF, a - r == HALF), i % 2 == 0))
        return i, r

    def rnd(self, st, kind, x):
        an = self.get(st, x)[1]
        return self.memo(st, ('rnd' + kind, x), lambda: self.fresh(an), lambda b, r, nan: self.rnd_(st, kind, x, r))

    def rnd_(self, st, kind, x, res):
        self.settle(st)
        a, an = self.get(st, x)
        i, r = self.to_int(st, kind, a)
        inf = self.is_inf(a)
        if self.holds(self.facts(st), z3.Not(inf)):
            st.assume(res == r)
            self.set_twin(st, res, i)
        else:
            n = len(st.pc)
            st.assume(res == z3.If(inf, a, r))
            # the rounded value of a finite double is finite
            st.assume(z3.Implies(z3.Not(inf), absr(r) < INF))
            st.env['fp'] = st.env.get('fp', ()) + ((frozenset(c.get_id() for c in st.pc[n:]), z3.Not(inf), None, (res, i), an),)

    def to_bv(self, st, kind, x, bits, signed, what):
        a, an = self.get(st, x)
        lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1) - 1) if signed else (0, 2 ** bits - 1)

        self.settle(st)

        def make():
            return (self.ex.fresh(bits, 'lr'),)

        i, r = self.to_int(st, kind, a)
        L = self.memo(st, ('bv', kind, x, bits, signed), make, lambda L: st.assume(
            z3.Implies(z3.And(z3.Not(an), r >= lo, r <= hi), z3.BV2Int(L, signed) == i)))
        self.ex.oblig(st, simp(z3.And(z3.Not(an), r >= lo, r <= hi)), what + " of a representable value")
        # constant bounds that the path implies, said again about the machine integer
        if signed and bits == 64:
            k = self.bound(self.facts(st), i)
            if k is not None:
                self.ints[L.get_id()] = (i, k)
                self.keep.append(L)
                st.assume(L <= k)
                st.assume(L >= -k)
        return L

    # ---- machine integers read as integers, as far as bounds exclude any wrap
    def int_of(self, v, side):
        """(integer expression, lo, hi) of a bit vector read as signed, or None"""
        n = v.size()
        half = 1 << (n - 1)
        if z3.is_bv_value(v):
            k = v.as_signed_long()
            return z3.IntVal(k), k, k
        t = self.ints.get(v.get_id())
        if t is not None:
            return t[0], -t[1], t[1]
        if not z3.is_app(v):
            return None
        k = v.decl().kind()
        if k in (z3.Z3_OP_BADD, z3.Z3_OP_BMUL, z3.Z3_OP_BSUB):
            parts = [self.int_of(c, side) for c in v.children()]
            if any(x is None for x in parts):
                return None
            e, lo, hi = parts[0]
            for f, l2, h2 in parts[1:]:
                if k == z3.Z3_OP_BADD:
                    e, lo, hi = e + f, lo + l2, hi + h2
                elif k == z3.Z3_OP_BSUB:
                    e, lo, hi = e - f, lo - h2, hi - l2
                else:
                    c = [lo * l2, lo * h2, hi * l2, hi * h2]
                    e, lo, hi = e * f, min(c), max(c)
            if lo < -half or hi >= half:
                return None
            return e, lo, hi
        if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I, z3.Z3_OP_BSREM, z3.Z3_OP_BSREM_I) and z3.is_bv_value(v.arg(1)):
            c = v.arg(1).as_signed_long()
            t = self.int_of(v.arg(0), side)
            if t is None or c <= 0:
                return None
            e, lo, hi = t
            q = z3.If(e >= 0, e / c, -((-e) / c))      # truncating division
            if k in (z3.Z3_OP_BSDIV, z3.Z3_OP_BSDIV_I):
                return q, -(abs(lo) // c), abs(hi) // c + 1
            return e - q * c, (0 if lo >= 0 else -c + 1), c - 1
        if k == z3.Z3_OP_EXTRACT:
            h, l = v.decl().params()
            t = self.int_of(v.arg(0), side)
            if t is None or l != 0 or t[1] < -half or t[2] >= half:
                return None
            return t
        if k == z3.Z3_OP_SIGN_EXT:
            return self.int_of(v.arg(0), side)
        if k == z3.Z3_OP_ZERO_EXT:
            t = self.int_of(v.arg(0), side)
            return t if t is not None and t[1] >= 0 else None
        if k == z3.Z3_OP_CONCAT and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() == 0:
            t = self.int_of(v.arg(1), side)
            return t if t is not None and t[1] >= 0 else None
        if k == z3.Z3_OP_ITE:
            c = self.lira(v.arg(0))
            a, b = self.int_of(v.arg(1), side), self.int_of(v.arg(2), side)
            if c is None or a is None or b is None:
                return None
            return z3.If(c, a[0], b[0]), min(a[1], b[1]), max(a[2], b[2])
        return None

    def lira(self, e):
        """an equivalent condition without bit vectors, or None"""
        k = e.get_id()
        if k in self.lir:
            return self.lir[k]
        r = self.lira_(e)
        self.lir[k] = r
        self.keep.append(e)
        return r

    def lira_(self, e):
        if not self.ex.smt.has_bv(e):
            return e
        if not z3.is_app(e):
            return None
        k = e.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or \
                (k in (z3.Z3_OP_EQ, z3.Z3_OP_ITE) and all(z3.is_bool(c) for c in e.children())):
            ch = [self.lira(c) for c in e.children()]
            if any(c is None for c in ch):
                return None
            return e.decl()(*ch)
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_SLEQ, z3.Z3_OP_SLT, z3.Z3_OP_SGEQ, z3.Z3_OP_SGT, z3.Z3_OP_DISTINCT,
                 z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and all(z3.is_bv(c) for c in e.children()):
            a, b = [self.int_of(c, None) for c in e.children()]
            if a is None or b is None:
                return None
            if k in (z3.Z3_OP_ULEQ, z3.Z3_OP_ULT, z3.Z3_OP_UGEQ, z3.Z3_OP_UGT) and (a[1] < 0 or b[1] < 0):
                return None
            x, y = a[0], b[0]
            return {z3.Z3_OP_EQ: lambda: x == y, z3.Z3_OP_DISTINCT: lambda: x != y,
                    z3.Z3_OP_SLEQ: lambda: x <= y, z3.Z3_OP_ULEQ: lambda: x <= y,
                    z3.Z3_OP_SLT: lambda: x < y, z3.Z3_OP_ULT: lambda: x < y,
                    z3.Z3_OP_SGEQ: lambda: x >= y, z3.Z3_OP_UGEQ: lambda: x >= y,
                    z3.Z3_OP_SGT: lambda: x > y, z3.Z3_OP_UGT: lambda: x > y}[k]()
        return None

    def of_bv(self, st, v, n, signed):
        if isc(v):
            x = sgn(v, n) if signed else v
            return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
        res, r, nan = self.fresh(z3.BoolVal(False))
        e = z3.ToReal(z3.BV2Int(v, signed))
        if n <= 53:
            st.assume(r == e)
        else:
            st.assume(z3.Implies(absr(e) <= z3.RealVal(2 ** 53), r == e))
            st.assume(z3.And(r - e <= EPS * absr(e), e - r <= EPS * absr(e)))
        return res
