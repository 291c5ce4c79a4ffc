"""std::string (libstdc++ ABI: data pointer at 0, length at 8, capacity at 16).

The real inline bodies of libstdc++ run; only the primitives that allocate and copy
are replaced by their contract: afterwards the string owns a fresh heap block that
holds exactly the stated bytes and a terminating NUL."""
import re
import z3
from ir import Unsupported, INT, PTR
from terms import *

STR = r'(?:void )?std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>::'


def word(ex, st, p, k):
    return ex.load(st, Ptr(p.rid, add(p.off, k, 64)), INT(64))


def data(ex, st, p):
    return ex.load(st, p, PTR)


def piece(ex, st, p, n):
    """(array, offset) of n readable bytes at p"""
    if isc(n) and n == 0:
        return None
    r = ex.region(st, p, n, "string source")
    if st.stopped:
        return None
    r = ex.to_bytes(st, p.rid)
    return r.arr, p.off


def build(ex, st, this, parts, free=True):
    """parts: list of (ptr or byte value, n)"""
    total = 0
    for _, n in parts:
        total = add(total, n, 64)
    total = simp(total)
    from exec import Cells
    small = isc(total) and total <= 64
    rid = ex.new_region(st, 'bytes', 'heapstr', add(total, 1, 64), arr=Const(b'\0' * (total + 1)) if small else None)
    arr = st.mem[rid].arr
    pos = 0
    for src, n in parts:
        n = simp(n)
        if isc(n) and n == 0:
            continue
        if isinstance(src, Ptr):
            if isc(n) and n <= 64:
                bs = ex.B.bytes_at(st, src, n) if ex.region(st, src, n, "string source") is not None else None
                if st.stopped:
                    return
                for k, b in enumerate(bs):
                    arr = St(arr, add(pos, k, 64), simp(b))
            else:
                t = piece(ex, st, src, n)
                if st.stopped:
                    return
                if len(parts) == 1 and isc(t[1]) and t[1] == 0:
                    arr = t[0]      # the whole text: what lies behind it is out of reach
                else:
                    arr = MCpy(arr, pos, n, t[0], t[1])
        else:
            if isc(n) and n <= 64:
                for k in range(n):
                    arr = St(arr, add(pos, k, 64), src)
            else:
                arr = MSet(arr, pos, n, src)
        pos = simp(add(pos, n, 64))
    if not small:
        if isinstance(arr, St) and same(arr.i, total):
            arr = arr.p
        arr = St(arr, total, 0)
    elif isc(total):
        arr = fold(arr, total + 1)
    st.mem[rid].arr = arr
    if free:
        old = data(ex, st, this)
        if isinstance(old, Ptr) and old.rid is not None and old.rid.startswith('heapstr') and not st.mem[old.rid].dead:
            st.w(old.rid).dead = True
    ex.store(st, this, PTR, Ptr(rid, 0))
    ex.store(st, Ptr(this.rid, add(this.off, 8, 64)), INT(64), total)
    ex.store(st, Ptr(this.rid, add(this.off, 16, 64)), INT(64), total)


def fold(arr, n):
    """a concrete array when every byte is a literal"""
    out = bytearray()
    for k in range(n):
        b = arr.sel(k)
        b = simp(b) if not isc(b) else b
        if not isc(b):
            return arr
        out.append(b)
    return Const(bytes(out))


def char(b):
    return b & 255 if isc(b) else (simp(z3.Extract(7, 0, b)) if b.size() > 8 else b)


def lookup(ex, n, d):
    m = re.match(STR, d)
    if not m:
        return None
    f = d[m.end():]

    def construct(st, fr, ins, a):
        beg, end = a[1], a[2]
        if isinstance(beg, Ptr) and beg.rid is None and isinstance(end, Ptr) and end.rid is None:
            build(ex, st, a[0], [], free=False)
            return None
        if beg.rid != end.rid:
            raise Unsupported("string range across objects")
        build(ex, st, a[0], [(beg, sub(end.off, beg.off, 64))], free=False)

    def construct_n(st, fr, ins, a):
        build(ex, st, a[0], [(char(a[2]), a[1])], free=False)

    def assign(st, fr, ins, a):
        if same_place(a[0], a[1]):
            return None
        build(ex, st, a[0], [(data(ex, st, a[1]), word(ex, st, a[1], 8))])

    def append(st, fr, ins, a):
        build(ex, st, a[0], [(data(ex, st, a[0]), word(ex, st, a[0], 8)), (a[1], a[2])])
        return a[0]

    def replace(st, fr, ins, a):
        # (this, pos, len1, s, len2)
        size = word(ex, st, a[0], 8)
        d0 = data(ex, st, a[0])
        tail = sub(size, add(a[1], a[2], 64), 64)
        build(ex, st, a[0], [(d0, a[1]), (a[3], a[4]), (Ptr(d0.rid, add(d0.off, add(a[1], a[2], 64), 64)), simp(tail))])
        return a[0]

    def replace_aux(st, fr, ins, a):
        size = word(ex, st, a[0], 8)
        d0 = data(ex, st, a[0])
        tail = sub(size, add(a[1], a[2], 64), 64)
        build(ex, st, a[0], [(d0, a[1]), (char(a[4]), a[3]), (Ptr(d0.rid, add(d0.off, add(a[1], a[2], 64), 64)), simp(tail))])
        return a[0]

    def push_back(st, fr, ins, a):
        build(ex, st, a[0], [(data(ex, st, a[0]), word(ex, st, a[0], 8)), (char(a[1]), 1)])

    def reserve(st, fr, ins, a):
        return None

    def erase(st, fr, ins, a):
        size = word(ex, st, a[0], 8)
        d0 = data(ex, st, a[0])
        tail = sub(size, add(a[1], a[2], 64), 64)
        build(ex, st, a[0], [(d0, a[1]), (Ptr(d0.rid, add(d0.off, add(a[1], a[2], 64), 64)), simp(tail))])

    def same_place(p, q):
        return p.rid == q.rid and same(p.off, q.off)

    if f.startswith('_M_construct<'):
        return construct
    if f.startswith('_M_construct(unsigned long, char)'):
        return construct_n
    if f.startswith('_M_assign('):
        return assign
    if f.startswith('_M_append('):
        return append
    if f.startswith('_M_replace('):
        return replace
    if f.startswith('_M_replace_aux('):
        return replace_aux
    if f.startswith('push_back('):
        return push_back
    if f.startswith('reserve('):
        return reserve
    if f.startswith('_M_erase('):
        return erase
    return None
