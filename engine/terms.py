"""Concrete-or-symbolic machine integers, pointers and byte-array terms."""
import z3


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


class Ptr:
    """region id + byte offset; rid None = plain integer address (null = 0)"""
    __slots__ = ("rid", "off")

    def __init__(self, rid, off):
        self.rid, self.off = rid, off

    def __repr__(self):
        return "&%s+%s" % (self.rid, self.off)


NULL = Ptr(None, 0)
M64 = (1 << 64) - 1


def isc(v):
    return isinstance(v, int)     # bool included


def bv(v, n):
    if isinstance(v, bool):
        return z3.BitVecVal(int(v), n)
    if isinstance(v, int):
        return z3.BitVecVal(v, n)
    return v


def mk(e):
    """normalise a z3 expression to a python int / bool when it is a literal"""
    if z3.is_bv_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def simp(e):
    if isinstance(e, int):
        return e
    return mk(z3.simplify(e))


def boolv(v):
    if isinstance(v, int):
        return z3.BoolVal(bool(v))
    return v


def sgn(v, n):
    return v - (1 << n) if v >> (n - 1) else v


def same(a, b):
    if isc(a) or isc(b):
        return isc(a) and isc(b) and int(a) == int(b)
    return a is b or a.eq(b)


def add(a, b, n):
    if isc(a) and isc(b):
        return (a + b) & ((1 << n) - 1)
    if isc(a) and a == 0:
        return b
    if isc(b) and b == 0:
        return a
    # keep constants on the right, folding  (x + c) + d
    if isc(a):
        a, b = b, a
    if isc(b) and z3.is_app_of(a, z3.Z3_OP_BADD) and a.num_args() == 2 and \
            z3.is_bv_value(a.arg(1)):
        c = (a.arg(1).as_long() + b) & ((1 << n) - 1)
        return a.arg(0) if c == 0 else a.arg(0) + z3.BitVecVal(c, n)
    return bv(a, n) + bv(b, n)


def sub(a, b, n):
    if isc(a) and isc(b):
        return (a - b) & ((1 << n) - 1)
    if isc(b):
        return add(a, (-b) & ((1 << n) - 1), n)
    if not isc(a) and a.eq(b):
        return 0
    return simp(bv(a, n) - b)


def land(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not x:
                return False
        else:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if isc(x):
            if x:
                return True
        else:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    if isc(x):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b, n=None):
    if isc(c):
        return a if c else b
    if same(a, b):
        return a
    if n is None:   # bool
        return z3.If(c, boolv(a), boolv(b))
    return z3.If(c, bv(a, n), bv(b, n))


def ult(a, b, n=64):
    if isc(a) and isc(b):
        return a < b
    if isc(b) and b == 0:
        return False
    return z3.ULT(bv(a, n), bv(b, n))


def ule(a, b, n=64):
    if isc(a) and isc(b):
        return a <= b
    if isc(a) and a == 0:
        return True
    return z3.ULE(bv(a, n), bv(b, n))


def eq(a, b, n):
    if isc(a) and isc(b):
        return a == b
    if same(a, b):
        return True
    return bv(a, n) == bv(b, n)


def zext(a, n, m):
    if n == m:
        return a
    if isc(a):
        return a
    return z3.ZeroExt(m - n, a)


# ---------------------------------------------------------------- arrays
# An array term describes the bytes of a region.  sel() reads it.
def known_diff(a, b):
    """a-b (mod 2^64) when it is syntactically constant, else None"""
    if isc(a) and isc(b):
        return (a - b) & M64
    d = z3.simplify(bv(a, 64) - bv(b, 64))
    if z3.is_bv_value(d):
        return d.as_long()
    return None


class Arr:
    pass


class Base(Arr):
    def __init__(self, name):
        self.name = name
        self.z = z3.Array(name, z3.BitVecSort(64), z3.BitVecSort(8))

    def sel(self, i):
        return z3.Select(self.z, bv(i, 64))


class Const(Arr):
    def __init__(self, b):
        self.b = b

    def sel(self, i):
        if isc(i):
            return self.b[i] if i < len(self.b) else 0
        r = z3.BitVecVal(0, 8)
        for k in range(len(self.b) - 1, -1, -1):
            r = z3.If(i == k, z3.BitVecVal(self.b[k], 8), r)
        return r


class St(Arr):
    def __init__(self, p, i, v):
        self.p, self.i, self.v = p, i, v

    def sel(self, i):
        d = known_diff(i, self.i)
        if d is not None:
            return self.v if d == 0 else self.p.sel(i)
        return ite(bv(i, 64) == bv(self.i, 64), self.v, self.p.sel(i), 8)


def in_range(i, d, n):
    k = known_diff(i, d)
    if k is not None and isc(n):
        return k < n
    if k is not None:
        if k >> 63:      # i lies before d; n is the length of a checked access, below 2^63
            return False
        return ult(k, n)
    return ult(sub(i, d, 64), n)


class MSet(Arr):
    def __init__(self, p, d, n, v):
        self.p, self.d, self.n, self.v = p, d, n, v

    def sel(self, i):
        c = simp(in_range(i, self.d, self.n))
        if isc(c):
            return self.v if c else self.p.sel(i)
        return ite(c, self.v, self.p.sel(i), 8)


class MCpy(Arr):
    def __init__(self, p, d, n, src, s):
        self.p, self.d, self.n, self.src, self.s = p, d, n, src, s

    def sel(self, i):
        c = simp(in_range(i, self.d, self.n))
        if isc(c) and not c:
            return self.p.sel(i)
        inner = self.src.sel(add(self.s, sub(i, self.d, 64), 64))
        if isc(c):
            return inner
        return ite(c, inner, self.p.sel(i), 8)


_fm = z3.Function('fwdmod', z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))
AX = []      # side axioms created while reading (sound facts about fwdmod)


class Fwd(Arr):
    """bytewise forward copy of n bytes from s to d inside one array (d > s):
    byte j of [d, d+n) is byte s + (j-d) mod (d-s) of the original array."""

    def __init__(self, p, d, s, n):
        self.p, self.d, self.s, self.n = p, d, s, n

    def sel(self, i):
        c = simp(in_range(i, self.d, self.n))
        if isc(c) and not c:
            return self.p.sel(i)
        per = sub(self.d, self.s, 64)
        k = sub(i, self.d, 64)
        r = _fm(bv(k, 64), bv(per, 64))
        AX.append(z3.Or(bv(per, 64) == 0, z3.ULT(r, bv(per, 64))))
        AX.append(z3.Implies(z3.ULT(bv(k, 64), bv(per, 64)), r == bv(k, 64)))
        AX.append(z3.Implies(z3.UGE(bv(k, 64), bv(per, 64)),
                             r == _fm(bv(k, 64) - bv(per, 64), bv(per, 64))))
        inner = self.p.sel(simp(bv(self.s, 64) + r))
        # d == s copies every byte onto itself
        inner = ite(simp(bv(per, 64) == 0), self.p.sel(i), inner, 8)
        return ite(c, inner, self.p.sel(i), 8)


def arr_syn_eq(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Base):
        return a.name == b.name
    if isinstance(a, Const):
        return a.b == b.b
    if isinstance(a, St):
        return same(a.i, b.i) and same(a.v, b.v) and arr_syn_eq(a.p, b.p)
    if isinstance(a, MSet):
        return same(a.d, b.d) and same(a.n, b.n) and same(a.v, b.v) and arr_syn_eq(a.p, b.p)
    if isinstance(a, MCpy):
        return same(a.d, b.d) and same(a.n, b.n) and same(a.s, b.s) and \
            arr_syn_eq(a.src, b.src) and arr_syn_eq(a.p, b.p)
    if isinstance(a, Fwd):
        return same(a.d, b.d) and same(a.n, b.n) and same(a.s, b.s) and arr_syn_eq(a.p, b.p)
    return False
