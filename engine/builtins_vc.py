"""Intrinsics of the proof units, libc / libstdc++ primitives (assumed contracts)."""
import re
import z3
from ir import Unsupported, INT, PTR, ty_size
from terms import *
from exec import Cells, Bytes, EngineError

LNOOP = ('llvm.lifetime.', 'llvm.dbg.', 'llvm.experimental.noalias', 'llvm.invariant.',
         'llvm.var.annotation', 'llvm.prefetch', 'llvm.donothing')


class Builtins:
    def __init__(self, ex):
        self.ex = ex
        self.exact = {}
        for k in dir(self):
            if k.startswith('b_'):
                self.exact[k[2:]] = getattr(self, k)
        x = self.exact
        x['_ZSt9terminatev'] = self.terminate
        x['__clang_call_terminate'] = self.terminate
        x['abort'] = self.terminate
        x['_Znwm'] = x['_Znam'] = self.op_new
        x['_ZnwmSt11align_val_t'] = self.op_new
        x['_ZnamSt11align_val_t'] = self.op_new
        for n in ('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', '_ZdlPvSt11align_val_t',
                  '_ZdlPvmSt11align_val_t', 'free'):
            x[n] = self.op_delete
        x['round'] = self.mk_uf_d('fp_round')
        x['nearbyint'] = self.mk_uf_d('fp_nearbyint')
        x['floor'] = self.mk_uf_d('fp_floor')
        x['trunc'] = self.mk_uf_d('fp_trunc')
        x['lround'] = self.mk_uf_d('fp_lround')
        x['llround'] = x['lround']
        x['lrint'] = self.mk_uf_d('fp_lrint')
        self.used = set()
        self._rfp = None

    # ------------------------------------------------------------ lookup
    def lookup(self, name):
        n = name[1:]
        if n.startswith('llvm.'):
            for p in LNOOP:
                if n.startswith(p):
                    return self.nop
            m = re.match(r'llvm\.(memcpy|memmove|memset|umin|umax|smin|smax|abs|bswap|expect|assume|fabs|trap|eh\.typeid\.for|fshl|fshr|ctpop|usub\.with\.overflow|uadd\.with\.overflow|umul\.with\.overflow|uadd\.sat|usub\.sat|is\.constant|objectsize|fmuladd|stacksave|stackrestore|is\.fpclass|threadlocal\.address|round|floor|trunc|lround|launder\.invariant\.group|strip\.invariant\.group|ctlz|cttz|load\.relative)', n)
            if m:
                h = getattr(self, 'l_' + m.group(1).replace('.', '_'), None)
                if h:
                    w = re.search(r'\.i(\d+)', n)
                    bits = int(w.group(1)) if w else 64
                    return lambda st, fr, ins, a, h=h, b=bits: h(st, fr, ins, a, b)
            return None
        u = self.ex.unit
        if u is not None:
            h = u.lookup(self, n, self.ex.demn(name))
            if h:
                return h
        h = self.exact.get(n)
        if h:
            return h
        d = self.ex.demn(name)
        return self.by_demangled(n, d)

    def should_merge(self, name):
        u = self.ex.unit
        if u is not None and getattr(u, 'merge', None):
            return u.merge(self.ex.demn(name))
        return False

    def by_demangled(self, n, d):
        if d.startswith('std::__throw_'):
            return self.lib_throw
        if d.startswith(('std::runtime_error::', 'std::exception::', 'std::logic_error::',
                         'std::out_of_range::', 'std::invalid_argument::', 'std::length_error::')):
            return self.nop
        if d.startswith('std::type_info::'):
            return None
        import strings_vc
        return strings_vc.lookup(self.ex, n, d)

    def nop(self, st, fr, ins, a):
        if ins.res is not None and ins.ty.k == 'ptr':
            return a[0] if a else NULL
        return UNDEF if ins.res is not None else None

    # ------------------------------------------------------------ vc_*
    def cstr(self, st, p):
        r = st.mem[p.rid]
        out = bytearray()
        k = p.off
        while True:
            b = r.arr.sel(k) if isinstance(r, Bytes) else r.c[k][1]
            if not isc(b):
                raise Unsupported("symbolic C string")
            if b == 0:
                return out.decode('latin1')
            out.append(b)
            k += 1

    def _in(self, st, name, v):
        st.env['inputs'] = st.env.get('inputs', ()) + ((name, v),)

    def _sym(self, st, a, n):
        nm = self.cstr(st, a[0])
        v = self.ex.fresh(n, nm)
        self._in(st, nm, v)
        return v

    def b_vc_u64(self, st, fr, ins, a):
        return self._sym(st, a, 64)

    def b_vc_u32(self, st, fr, ins, a):
        return self._sym(st, a, 32)

    def b_vc_u16(self, st, fr, ins, a):
        return self._sym(st, a, 16)

    def b_vc_u8(self, st, fr, ins, a):
        return self._sym(st, a, 8)

    def b_vc_f64(self, st, fr, ins, a):
        return self._sym(st, a, 64)

    def b_vc_bool(self, st, fr, ins, a):
        v = self._sym(st, a, 1)
        if ins.ty.n == 1:
            return v
        return z3.If(v, z3.BitVecVal(1, ins.ty.n), z3.BitVecVal(0, ins.ty.n))

    def b_vc_bytes(self, st, fr, ins, a):
        nm = self.cstr(st, a[0])
        n = simp(a[1])
        rid = self.ex.new_region(st, 'bytes', nm, n)
        self._in(st, nm, (st.mem[rid].arr, n))
        return Ptr(rid, 0)

    def b_vc_cells(self, st, fr, ins, a):
        """a symbolic object of concrete size (no pointers inside)"""
        nm = self.cstr(st, a[0])
        rid = self.ex.new_region(st, 'cell', nm, a[1], default='sym')
        return Ptr(rid, 0)

    def b_vc_buf(self, st, fr, ins, a):
        return self.b_vc_bytes(st, fr, ins, a)

    def b_vc_assume(self, st, fr, ins, a):
        c = a[0]
        c = c if isinstance(c, bool) else (c != 0 if isc(c) else (c if z3.is_bool(c) else c != 0))
        c = simp(c)
        if isc(c):
            if not c:
                st.stopped = ('dead',)
            return None
        if not self.ex.feasible(st, c):
            st.stopped = ('dead',)
            return None
        st.assume(c)
        return None

    def tob(self, c):
        if isinstance(c, bool):
            return c
        if c is UNDEF:
            return self.ex.fresh(1, 'u')
        if isc(c):
            return c != 0
        if z3.is_bool(c):
            return c
        return c != 0

    def b_vc_assert(self, st, fr, ins, a):
        self.ex.oblig(st, self.tob(a[0]), "ensures", self.cstr(st, a[1]))
        if not st.stopped:
            pass
        return None

    def b_vc_reach(self, st, fr, ins, a):
        if st.quiet:
            return None
        lab = self.cstr(st, a[0])
        if self.ex.covers.get(lab):
            return None
        r, m = self.ex.smt.check(st.pc, [], full=True)
        self.ex.covers[lab] = self.ex.covers.get(lab) or (r != 'unsat')
        return None

    def b_vc_assert_mem_eq(self, st, fr, ins, a):
        p, q, n, lab = a
        lab = self.cstr(st, lab)
        ex = self.ex
        if isc(n) and n == 0:
            return None
        if not ex.feasible(st, ne0(n)):
            return None
        st2 = st
        rp = ex.region(st2, p, n, "specification")
        if st.stopped:
            return None
        rq = ex.region(st2, q, n, "specification")
        if st.stopped:
            return None
        c = n if isc(n) else ex.concretize(st, n)
        if c is not None and c <= 512:
            xs, ys = self.bytes_at(st, p, c), self.bytes_at(st, q, c)
            ex.oblig(st, simp(land(*[simp(eq(x, y, 8)) for x, y in zip(xs, ys)])), "ensures", lab)
            return None
        rp = ex.to_bytes(st, p.rid)
        rq = ex.to_bytes(st, q.rid)
        if arr_syn_eq(rp.arr, rq.arr) and same(p.off, q.off):
            ex.oblig(st, True, "ensures", lab)
            return None
        k = ex.fresh(64, 'k')
        x = rp.arr.sel(add(p.off, k, 64))
        y = rq.arr.sel(add(q.off, k, 64))
        ex.oblig(st, simp(z3.Implies(boolv(ult(k, n)), boolv(eq(bv(x, 8), bv(y, 8), 8)))), "ensures", lab)
        return None

    def b_vc_fwdcopy(self, st, fr, ins, a):
        """bytewise forward copy inside one buffer: (base, d, s, n)"""
        p, d, s, n = a
        ex = self.ex
        if isc(n) and n == 0:
            return None
        r = ex.region(st, Ptr(p.rid, add(p.off, d, 64)), n, "specification")
        if st.stopped:
            return None
        ex.to_bytes(st, p.rid)
        w = st.w(p.rid)
        w.arr = Fwd(w.arr, add(p.off, d, 64), add(p.off, s, 64), n)
        return None

    def b_vc_lockstep(self, st, fr, ins, a):
        st.env['lockstep'] = (a[0].rid[3:], a[1])
        return None

    def b_vc_unroll(self, st, fr, ins, a):
        st.env['unrollmax'] = a[0] if isc(a[0]) else 0

    def b_vc_invariant(self, st, fr, ins, a):
        st.env['userinv'] = (a[0].rid[3:], a[1].rid[3:], a[2])

    def b_vc_invariant_end(self, st, fr, ins, a):
        st.env['userinv'] = None

    def b_vc_lockstep_end(self, st, fr, ins, a):
        st.env['lockstep'] = None
        st.env['pairs'] = ()
        return None

    def b_vc_array_pair(self, st, fr, ins, a):
        st.env['pairs'] = st.env.get('pairs', ()) + ((a[0], a[1], a[2]),)
        return None

    def b_vc_terminates(self, st, fr, ins, a):
        st.env['terminates'] = bool(a[0]) if a else True
        return None

    def b_vc_measure(self, st, fr, ins, a):
        st.env['measures'] = st.env.get('measures', ()) + (a[0],)
        return None

    def b_vc_bound(self, st, fr, ins, a):
        st.env['bounds'] = st.env.get('bounds', ()) + (a[0],)
        return None

    def b_vc_inst(self, st, fr, ins, a):
        st.env['inst'] = st.env.get('inst', ()) + (a[0],)
        for h in st.env.get('hist', ()):
            self.ex.L.instantiate(st, h, a[0])
        return None

    def b_vc_same_ptr(self, st, fr, ins, a):
        p, q = a
        if isinstance(p, Ptr) and isinstance(q, Ptr):
            if p.rid != q.rid:
                return self._b(ins, False)
            return self._b(ins, eq(p.off, q.off, 64))
        return self._b(ins, False)

    def _b(self, ins, c):
        if ins.ty.n == 1:
            return c
        if isc(c):
            return int(c)
        return z3.If(c, z3.BitVecVal(1, ins.ty.n), z3.BitVecVal(0, ins.ty.n))

    def b_vc_valid(self, st, fr, ins, a):
        """is [p, p+n) inside one live buffer?"""
        p, n = a
        if not isinstance(p, Ptr) or p.rid is None or p.rid not in st.mem or st.mem[p.rid].dead:
            return self._b(ins, simp(eq(n, 0, 64)))
        r = st.mem[p.rid]
        return self._b(ins, simp(land(ule(n, r.size), ule(p.off, sub(r.size, n, 64)))))

    def b_vc_size_of_buffer(self, st, fr, ins, a):
        return sub(st.mem[a[0].rid].size, a[0].off, 64)

    def _uf(self, name, args, rb):
        bits = [1 if isinstance(x, bool) or (not isc(x) and z3.is_bool(x)) else (64 if isc(x) else x.size()) for x in args]
        f = self.ex.ufn(name + "_" + "_".join(map(str, bits)), len(args), rb, bits)
        return f(*[bv(x, b) if b > 1 else z3.If(boolv(x), z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for x, b in zip(args, bits)])

    def b_vc_uf1(self, st, fr, ins, a):
        return self._uf(self.cstr(st, a[0]), [self.ex.num(st, a[1], 64)], 64)

    def b_vc_uf2(self, st, fr, ins, a):
        return self._uf(self.cstr(st, a[0]), [self.ex.num(st, x, 64) for x in a[1:]], 64)

    b_vc_uf3 = b_vc_uf2
    b_vc_uf4 = b_vc_uf2

    def b_vc_near(self, st, fr, ins, a):
        """|k - s * scale| <= tol, over the reals"""
        k, s, scale, tol = a
        import fp_real
        f = lambda x: self.rfp.get(st, self.ex.num(st, x, 64))
        (r, nan), (sc, _), (tl, _) = f(s), f(scale), f(tol)
        t = self.rfp.int_of(bv(k, 64), None)
        kr = z3.ToReal(t[0] if t is not None else z3.BV2Int(bv(k, 64), True))
        return self._b(ins, simp(z3.And(z3.Not(nan), fp_real.absr(kr - r * sc) <= tl)))

    def b_vc_f64_int(self, st, fr, ins, a):
        """an arbitrary double that is an integer"""
        v = self._sym(st, a, 64)
        r, nan = self.rfp.get(st, v)
        i = z3.FreshConst(z3.IntSort(), 'i')
        st.assume(z3.Not(nan))
        st.assume(r == z3.ToReal(i))
        self.rfp.set_twin(st, r, i)
        return v

    def b_vc_f64_of_i32(self, st, fr, ins, a):
        return self.itof(a[0], 32, True)

    def b_vc_unsupported(self, st, fr, ins, a):
        raise Unsupported(self.cstr(st, a[0]))

    def b_vc_fork_bool(self, st, fr, ins, a):
        return self.b_vc_bool(st, fr, ins, a)

    def b_vc_throw_marker(self, st, fr, ins, a):
        return None

    # ------------------------------------------------------------ memory
    def op_new(self, st, fr, ins, a):
        n = simp(a[0])
        c = n if isc(n) else self.ex.concretize(st, n)
        if c is not None and c <= 65536:
            rid = self.ex.new_region(st, 'cell', 'heap', c)
        else:
            rid = self.ex.new_region(st, 'bytes', 'heap', n)
        st.mem[rid].name = rid
        return Ptr(rid, 0)

    def op_delete(self, st, fr, ins, a):
        p = a[0]
        if p is UNDEF:
            raise Unsupported("delete of an undefined pointer")
        if p.rid is None:
            return None
        r = st.mem.get(p.rid)
        if r is None or not p.rid.startswith('heap'):
            self.ex.oblig(st, False, "delete of a heap object")
            return None
        if r.dead:
            self.ex.oblig(st, False, "no double free")
            return None
        st.w(p.rid).dead = True
        return None

    def _mem(self, st, a, what):
        d, s, n = a[:3]
        self.ex.memcpy(st, d, s, simp(n), what)

    def l_memcpy(self, st, fr, ins, a, b):
        d, s, n = a[:3]
        self.ex.memcpy(st, d, s, simp(n), "memcpy")
        # overlap is not allowed
        if not st.stopped and d.rid is not None and d.rid == s.rid and not (isc(n) and n == 0):
            c = lor(ule(n, sub(d.off, s.off, 64)), ule(n, sub(s.off, d.off, 64)), eq(d.off, s.off, 64))
            self.ex.oblig(st, c, "memcpy areas do not overlap")
        return None

    def l_memmove(self, st, fr, ins, a, b):
        self.ex.memcpy(st, a[0], a[1], simp(a[2]), "memmove")
        return None

    def l_memset(self, st, fr, ins, a, b):
        self.ex.memset(st, a[0], a[1], simp(a[2]))
        return None

    def b_memcpy(self, st, fr, ins, a):
        self.l_memcpy(st, fr, ins, a, 0)
        return a[0]

    def b_memmove(self, st, fr, ins, a):
        self.ex.memcpy(st, a[0], a[1], simp(a[2]), "memmove")
        return a[0]

    def b_memset(self, st, fr, ins, a):
        v = a[1]
        v = v & 255 if isc(v) else simp(z3.Extract(7, 0, v))
        self.ex.memset(st, a[0], v, simp(a[2]))
        return a[0]

    def bytes_at(self, st, p, n):
        ex = self.ex
        r = st.mem[p.rid]
        out = []
        off = p.off
        if isinstance(r, Cells) and not isc(off):
            c = ex.concretize(st, off)
            if c is None:
                r = ex.to_bytes(st, p.rid)
            else:
                off = c
        for k in range(n):
            if isinstance(r, Bytes):
                out.append(r.arr.sel(add(off, k, 64)))
            else:
                out.append(ex.byte_of(st, p.rid, st.mem[p.rid], off + k))
        return out

    def b_memcmp(self, st, fr, ins, a):
        p, q, n = a
        n = simp(n)
        ex = self.ex
        if not isc(n):
            c = ex.concretize(st, n)
            n = c if c is not None else n
        if isc(n) and n == 0:
            return 0
        ex.region(st, p, n, "memcmp")
        if st.stopped:
            return None
        ex.region(st, q, n, "memcmp")
        if st.stopped:
            return None
        if isc(n) and n <= 512:
            x = self.bytes_at(st, p, n)
            y = self.bytes_at(st, q, n)
            r = 0
            for k in range(n - 1, -1, -1):
                e = eq(x[k], y[k], 8)
                lt = ult(x[k], y[k], 8)
                d = ite(lt, (1 << 32) - 1, 1, 32)
                r = ite(e, r, d, 32)
            return simp(r) if not isc(r) else r
        # symbolic length: sound abstraction (equal contents are not decided)
        r = ex.fresh(32, 'memcmp')
        k = ex.fresh(64, 'kd')
        rp = ex.to_bytes(st, p.rid)
        rq = ex.to_bytes(st, q.rid)
        # result 0 -> every registered index agrees; non zero -> a witness differs
        x = rp.arr.sel(add(p.off, k, 64))
        y = rq.arr.sel(add(q.off, k, 64))
        st.assume(simp(z3.Implies(r != 0, z3.And(boolv(ult(k, n)), bv(x, 8) != bv(y, 8)))))
        for t in st.env.get('inst', ()):
            x = rp.arr.sel(add(p.off, t, 64))
            y = rq.arr.sel(add(q.off, t, 64))
            st.assume(simp(z3.Implies(z3.And(r == 0, boolv(ult(t, n))), bv(x, 8) == bv(y, 8))))
        return r

    b_bcmp = b_memcmp

    def b_strlen(self, st, fr, ins, a):
        p = a[0]
        ex = self.ex
        r = st.mem[p.rid]
        if isinstance(r, Bytes) and isc(p.off) and isinstance(r.arr, Const):
            b = r.arr.b
            k = p.off
            while k < len(b) and b[k]:
                k += 1
            if k < len(b):
                return k - p.off
        if isinstance(r, Cells) and isc(p.off):
            k = p.off
            while k < r.size:
                b = ex.byte_of(st, p.rid, st.mem[p.rid], k)
                if not isc(b):
                    break
                if b == 0:
                    return k - p.off
                k += 1
        u = ex.unit
        raise Unsupported("strlen of a symbolic string")

    # ------------------------------------------------------------ ctype
    def _ct(self, pred):
        def h(st, fr, ins, a):
            c = a[0]
            # defined for unsigned char values and EOF only
            if isc(c):
                v = sgn(c, 32)
                if v < -1 or v > 255:
                    self.ex.oblig(st, False, "character argument in range")
                    return 0
                return 1 if pred(v) else 0
            self.ex.oblig(st, z3.Or(z3.ULE(c, 255), c == 0xffffffff), "character argument in range")
            vals = [k for k in range(256) if pred(k)]
            return z3.If(z3.Or(*[c == k for k in vals]), z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        return h

    @property
    def b_isspace(self):
        return self._ct(lambda k: k in (9, 10, 11, 12, 13, 32))

    @property
    def b_iscntrl(self):
        return self._rng(((0, 31), (127, 127)))

    @property
    def b_isprint(self):
        return self._rng(((32, 126),))

    @property
    def b_isdigit(self):
        return self._rng(((48, 57),))

    def _rng(self, rs):
        def h(st, fr, ins, a):
            c = a[0]
            if isc(c):
                v = sgn(c, 32)
                return 1 if any(lo <= v <= hi for lo, hi in rs) else 0
            self.ex.oblig(st, z3.Or(z3.ULE(c, 255), c == 0xffffffff), "character argument in range")
            return z3.If(z3.Or(*[z3.And(z3.UGE(c, lo), z3.ULE(c, hi)) for lo, hi in rs]),
                         z3.BitVecVal(1, 32), z3.BitVecVal(0, 32))
        return h

    # ------------------------------------------------------------ llvm
    def l_umin(self, st, fr, ins, a, b):
        x, y = [self.ex.num(st, v, b) for v in a[:2]]
        return ite(ult(x, y, b), x, y, b)

    def l_umax(self, st, fr, ins, a, b):
        x, y = [self.ex.num(st, v, b) for v in a[:2]]
        return ite(ult(x, y, b), y, x, b)

    def l_smin(self, st, fr, ins, a, b):
        x, y = [bv(self.ex.num(st, v, b), b) for v in a[:2]]
        return simp(z3.If(x < y, x, y))

    def l_smax(self, st, fr, ins, a, b):
        x, y = [bv(self.ex.num(st, v, b), b) for v in a[:2]]
        return simp(z3.If(x < y, y, x))

    def l_abs(self, st, fr, ins, a, b):
        x = bv(self.ex.num(st, a[0], b), b)
        return simp(z3.If(x < 0, -x, x))

    def l_fshl(self, st, fr, ins, a, b, left=True):
        x, y, k = [self.ex.num(st, v, b) for v in a[:3]]
        k = bv(k, b)
        k = k & (b - 1) if b & (b - 1) == 0 else z3.URem(k, z3.BitVecVal(b, b))
        w = z3.Concat(bv(x, b), bv(y, b))
        kk = z3.ZeroExt(b, k)
        r = z3.Extract(2 * b - 1, b, w << kk) if left else z3.Extract(b - 1, 0, z3.LShR(w, kk))
        return simp(r)

    def l_fshr(self, st, fr, ins, a, b):
        return self.l_fshl(st, fr, ins, a, b, False)

    def l_bswap(self, st, fr, ins, a, b):
        v = self.ex.num(st, a[0], b)
        if isc(v):
            return int.from_bytes(v.to_bytes(b // 8, 'little'), 'big')
        return simp(z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(b // 8)]))

    def l_expect(self, st, fr, ins, a, b):
        return a[0]

    def l_assume(self, st, fr, ins, a, b):
        return None

    def l_is_constant(self, st, fr, ins, a, b):
        return False

    def l_objectsize(self, st, fr, ins, a, b):
        return M64

    def l_threadlocal_address(self, st, fr, ins, a, b):
        return a[0]

    def l_launder_invariant_group(self, st, fr, ins, a, b):
        return a[0]

    def l_trap(self, st, fr, ins, a, b):
        return self.terminate(st, fr, ins, a)

    def l_eh_typeid_for(self, st, fr, ins, a, b):
        p = a[0]
        if p.rid is None:
            return self.ex.sel_id('*')
        return self.ex.sel_id(p.rid[2:])

    def _ovf(self, st, a, b, op):
        x, y = [bv(self.ex.num(st, v, b), b) for v in a[:2]]
        if op == 'add':
            r = x + y
            o = z3.Not(z3.BVAddNoOverflow(x, y, False))
        elif op == 'sub':
            r = x - y
            o = z3.ULT(x, y)
        else:
            r = x * y
            o = z3.Not(z3.BVMulNoOverflow(x, y, False))
        return [simp(r), simp(o)]

    def l_uadd_with_overflow(self, st, fr, ins, a, b):
        return self._ovf(st, a, b, 'add')

    def l_usub_with_overflow(self, st, fr, ins, a, b):
        return self._ovf(st, a, b, 'sub')

    def l_umul_with_overflow(self, st, fr, ins, a, b):
        return self._ovf(st, a, b, 'mul')

    def l_stacksave(self, st, fr, ins, a, b):
        return NULL

    def l_stackrestore(self, st, fr, ins, a, b):
        return None

    # ------------------------------------------------------------ floats
    def mk_uf_d(self, name):
        def h(st, fr, ins, a):
            return self.fuf(st, name, a)
        return h

    @property
    def rfp(self):
        if self._rfp is None:
            self._rfp = False
            if getattr(self.ex.unit, 'real_fp', False):
                import fp_real
                self._rfp = fp_real.RealFP(self.ex)
                self.ex.smt.lira = self._rfp.lira
        return self._rfp

    def fuf(self, st, name, args, rb=64):
        """uninterpreted floating point operation on bit patterns"""
        args = [self.ex.num(st, x, 64) for x in args]
        if self.rfp:
            k = name[3:]
            if k in ('add', 'sub', 'mul', 'div'):
                return self.rfp.arith(st, k, *args)
            if k in ('round', 'floor', 'ceil', 'trunc', 'nearbyint'):
                return self.rfp.rnd(st, 'rint' if k == 'nearbyint' else k, args[0])
            if k in ('lround', 'lrint'):
                return self.rfp.to_bv(st, 'round' if k == 'lround' else 'rint', args[0], 64, True, k)
            raise Unsupported(name)
        return simp(self._uf(name, args, rb))

    def l_fabs(self, st, fr, ins, a, b):
        v = self.ex.num(st, a[0], 64)
        if self.rfp and not isc(v):
            return self.rfp.fabs(st, v)
        return simp(bv(v, 64) & 0x7fffffffffffffff)

    def l_round(self, st, fr, ins, a, b):
        return self.fuf(st, 'fp_round', a)

    def l_floor(self, st, fr, ins, a, b):
        return self.fuf(st, 'fp_floor', a)

    def l_trunc(self, st, fr, ins, a, b):
        return self.fuf(st, 'fp_trunc', a)

    def l_fmuladd(self, st, fr, ins, a, b):
        m = self.fuf(st, 'fp_mul', a[:2])
        return self.fuf(st, 'fp_add', [m, a[2]])

    def l_is_fpclass(self, st, fr, ins, a, b):
        v = bv(self.ex.num(st, a[0], 64), 64)
        mask = a[1]
        if self.rfp:
            r, nan = self.rfp.get(st, mk(v))
            alts = []
            if mask & 3:
                alts.append(nan)
            if mask & 0x204:
                alts.append(z3.And(z3.Not(nan), self.rfp.is_inf(r)))
            if mask & 0x1f8:
                fin = z3.And(z3.Not(nan), z3.Not(self.rfp.is_inf(r)))
                if mask & 0x1f8 != 0x1f8:
                    raise Unsupported("fpclass")
                alts.append(fin)
            return simp(z3.Or(*alts))
        f = z3.fpBVToFP(v, z3.Float64())
        alts = []
        if mask & 3:
            alts.append(z3.fpIsNaN(f))
        if mask & 0x204:
            alts.append(z3.fpIsInf(f))
        if mask & ~(3 | 0x204):
            raise Unsupported("fpclass")
        return simp(z3.Or(*alts))

    def itof(self, v, n, signed):
        """exact conversion of an integer of at most 53 bits"""
        import struct
        if isc(v):
            x = sgn(v, n) if signed else v
            return struct.unpack('<Q', struct.pack('<d', float(x)))[0]
        f = self.ex.ufn("itof_%s%d" % ('s' if signed else 'u', 64), 1, 64, [64])
        w = v if n == 64 else (z3.SignExt(64 - n, v) if signed else z3.ZeroExt(64 - n, v))
        if not signed and n < 64:
            f = self.ex.ufn("itof_s64", 1, 64, [64])
        return f(w)

    def fcast(self, st, op, ty, v, t2):
        if self.rfp:
            if op in ('sitofp', 'uitofp') and t2.k == 'double':
                return self.rfp.of_bv(st, v, ty.n, op[0] == 's')
            if op in ('fptosi', 'fptoui'):
                return self.rfp.to_bv(st, 'trunc', v, t2.n, op == 'fptosi', 'conversion to an integer')
        if op == 'sitofp' and t2.k == 'double':
            return self.itof(v, ty.n, True)
        if op == 'uitofp' and t2.k == 'double':
            return self.itof(v, ty.n, False)
        if op in ('fptosi', 'fptoui'):
            return simp(self._uf('fp_%s%d' % (op, t2.n), [v], t2.n))
        raise Unsupported(op)

    def fop(self, st, fr, ins):
        op = ins.op
        ex = self.ex
        if ins.ty.k != 'double':
            raise Unsupported(op + " on " + repr(ins.ty))
        if op == 'fneg':
            v = ex.num(st, ex.val(st, fr, ins.ty, ins.a[0]), 64)
            if self.rfp and not isc(v):
                return self.rfp.neg(st, v)
            return simp(bv(v, 64) ^ (1 << 63))
        if op == 'fcmp':
            pred, a, b = ins.a
            x = bv(ex.num(st, ex.val(st, fr, ins.ty, a), 64), 64)
            y = bv(ex.num(st, ex.val(st, fr, ins.ty, b), 64), 64)
            if self.rfp:
                return self.rfp.cmp(st, pred, mk(x), mk(y))
            fx, fy = z3.fpBVToFP(x, z3.Float64()), z3.fpBVToFP(y, z3.Float64())
            un = z3.Or(z3.fpIsNaN(fx), z3.fpIsNaN(fy))
            if pred == 'uno':
                return simp(z3.fpIsNaN(fx)) if x.eq(y) else simp(un)
            if pred == 'ord':
                return simp(z3.Not(un))
            base = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ}
            p = pred[1:]
            if p == 'ne':
                e = z3.Not(z3.fpEQ(fx, fy))
                return simp(e if pred[0] == 'u' else z3.And(e, z3.Not(un)))
            e = base[p](fx, fy)
            return simp(z3.Or(un, e) if pred[0] == 'u' else e)
        a = [ex.num(st, ex.val(st, fr, ins.ty, o), 64) for o in ins.a]
        if all(isc(x) for x in a) and op != 'frem':
            import struct
            x, y = [struct.unpack('<d', struct.pack('<Q', q))[0] for q in a]
            try:
                r = {'fadd': lambda: x + y, 'fsub': lambda: x - y, 'fmul': lambda: x * y,
                     'fdiv': lambda: x / y}[op]()
                return struct.unpack('<Q', struct.pack('<d', r))[0]
            except ZeroDivisionError:
                pass
        return self.fuf(st, 'fp_' + op[1:], a)

    # ------------------------------------------------------------ exceptions
    def terminate(self, st, fr, ins, a):
        self.ex.oblig(st, False, "the process is never terminated (std::terminate)")
        st.stopped = ('dead',)
        return None

    def b___cxa_allocate_exception(self, st, fr, ins, a):
        rid = self.ex.new_region(st, 'cell', 'exc', a[0])
        return Ptr(rid, 0)

    def b___cxa_free_exception(self, st, fr, ins, a):
        return None

    def b___cxa_throw(self, st, fr, ins, a):
        ti = a[1].rid[2:]
        return self.ex.throw(st, a[0], ti)

    def lib_throw(self, st, fr, ins, a):
        rid = self.ex.new_region(st, 'cell', 'exc', 16)
        d = self.ex.demn(fr.fn.block(fr.block).ins[fr.ip].a['callee'][1])
        ti = '@_ZTISt13runtime_error'
        if 'out_of_range' in d:
            ti = '@_ZTISt12out_of_range'
        elif 'length' in d:
            ti = '@_ZTISt12length_error'
        elif 'bad_alloc' in d or 'bad_array' in d:
            ti = '@_ZTISt9bad_alloc'
        elif 'bad_variant' in d:
            ti = '@_ZTISt18bad_variant_access'
        return self.ex.throw(st, Ptr(rid, 0), ti)

    def b_vc_throw(self, st, fr, ins, a):
        """throw an exception of the class std::runtime_error"""
        rid = self.ex.new_region(st, 'cell', 'exc', 16)
        return self.ex.throw(st, Ptr(rid, 0), '@_ZTISt13runtime_error')

    def b___cxa_begin_catch(self, st, fr, ins, a):
        st.caught.append(st.exc)
        return a[0]

    def b___cxa_end_catch(self, st, fr, ins, a):
        if st.caught:
            st.caught.pop()
        return None

    def b___cxa_rethrow(self, st, fr, ins, a):
        st.exc = st.caught.pop() if st.caught else st.exc
        return self.ex.unwind(st, drop=False)

    def b__Unwind_Resume(self, st, fr, ins, a):
        return self.ex.unwind(st, drop=True)

    def b___cxa_guard_acquire(self, st, fr, ins, a):
        # thread-safe static: initialised when the guard byte is set
        v = self.ex.load(st, a[0], INT(8))
        if isc(v):
            return 0 if v else 1
        return simp(z3.If(v == 0, z3.BitVecVal(1, 32), z3.BitVecVal(0, 32)))

    def b___cxa_guard_release(self, st, fr, ins, a):
        self.ex.store(st, a[0], INT(8), 1)
        return None

    def b___cxa_guard_abort(self, st, fr, ins, a):
        return None

    def b___cxa_atexit(self, st, fr, ins, a):
        return 0

    def b___cxa_pure_virtual(self, st, fr, ins, a):
        return self.terminate(st, fr, ins, a)

    def b___errno_location(self, st, fr, ins, a):
        rid = 'g:errno'
        if rid not in st.mem:
            st.mem[rid] = Cells(4, 'sym', rid)
            st.own.add(rid)
        return Ptr(rid, 0)


def ne0(n):
    return (n != 0) if isc(n) else n != 0
