"""Loops: unrolling when the bound is concrete, otherwise inductive invariants.

A loop that is not unrolled is cut at its header: the locations modified by an
iteration are generalised, an inductive invariant is inferred (affine
counters, Houdini over a fixed family of candidates, closed forms of byte
set/copy loops, harness pairings and lockstep specifications) and then *checked*
in a final pass: entry, preservation by every path of one arbitrary iteration,
frame.  Nothing that the inference guesses is trusted.
"""
import z3
from ir import Unsupported, INT
from terms import *
from exec import Cells, Bytes, EngineError


class Ctx:
    forced = False

    def __init__(self, kind, fn, header, body, depth):
        self.kind = kind          # dry | unroll | discover | final
        self.fn, self.header, self.body, self.depth = fn, header, body, depth
        self.lock = None
        self.own = None
        self.hst = None
        self.pairs = ()
        self.measures = ()
        self.dry = []
        self.exits = []           # z3 conditions of exit branches
        self.head = None


class Head:
    """description of the generalised header state"""

    def __init__(self):
        self.phi = {}      # name -> kind
        self.cell = {}     # (rid, off, size) -> kind
        self.arr = {}      # rid -> kind


def width(v):
    if isinstance(v, bool):
        return 1
    if z3.is_bool(v):
        return 1
    return v.size()


class Loops:
    def __init__(self, ex):
        self.ex = ex
        self.ncache = 0
        self.memo = {}

    # ------------------------------------------------------------ hooks
    def note_branch(self, st, fr, c, t, f):
        if not fr.loops:
            return
        for h, ctx in fr.loops.items():
            if ctx.depth != len(st.frames):
                continue
            if (t in ctx.body) == (f in ctx.body):
                continue
            if ctx.kind == 'unroll':
                if not isc(c):
                    st.env['symexit', ctx.depth, h] = True
                continue
            if ctx.kind == 'dry':
                ctx.dry.append((bool(c) == (t in ctx.body)) if isc(c) else None)
                st.stopped = ('dry',)
            elif ctx.kind == 'discover' and not isc(c):
                if len(ctx.exits) < 60:
                    ctx.exits.append(c)

    def leaving_frame(self, st):
        fr = st.frames[-1]
        for h, ctx in fr.loops.items():
            if ctx.kind in ('discover', 'dry'):
                st.stopped = ('loopexit', ctx)
                return True
        return False

    def goto(self, st, fr, target):
        if st.stopped:
            return [st]
        loops = fr.fn.loops()
        if fr.loops:
            for h in list(fr.loops):
                ctx = fr.loops[h]
                if target not in ctx.body:
                    if ctx.kind in ('discover', 'dry'):
                        st.stopped = ('loopexit', ctx)
                        return [st]
                    del fr.loops[h]
        if target in loops:
            ctx = fr.loops.get(target)
            if ctx is None:
                return self.enter_loop(st, fr, target)
            return self.back_edge(st, fr, target, ctx)
        self.ex.enter_block(st, fr, target)
        return None

    # ------------------------------------------------------------ entering
    def enter_loop(self, st, fr, H):
        ex = self.ex
        body = fr.fn.loops()[H]
        depth = len(st.frames)
        phi0 = ex.phis(st, fr, H)
        if st.env.get('unrollmax'):
            # every iteration is run; one more than stated is refused, not ignored
            c = Ctx('unroll', fr.fn, H, body, depth)
            c.forced = True
            fr.loops[H] = c
            st.env['unroll', depth, H] = 0
            ex.enter_block(st, fr, H, phi0)
            return None
        # is the first exit decision concrete?
        d = st.fork()
        d.quiet += 1
        ctx = Ctx('dry', fr.fn, H, body, depth)
        d.frames[-1].loops[H] = ctx
        ex.enter_block(d, d.frames[-1], H, dict(phi0))
        ex.explore([d])
        if ctx.dry and None not in ctx.dry and len(set(ctx.dry)) == 1:
            c = Ctx('unroll', fr.fn, H, body, depth)
            c.start = (st.fork(), phi0)
            c.restarted = False
            fr.loops[H] = c
            st.env['symexit', depth, H] = False
            st.env['unroll', depth, H] = 0
            ex.enter_block(st, fr, H, phi0)
            return None
        user = st.env.get('userinv')
        if user is not None:
            return self.user_invariant(st, H, body, depth, user, phi0)
        return self.invariant(st, fr, H, body, depth, phi0)

    # an invariant stated by the harness: `check` accepts the state, `havoc` builds every state
    # that `check` accepts; what havoc writes or creates is owned by that invariant
    def user_invariant(self, st, H, body, depth, user, phi0):
        ex = self.ex
        check, havoc, data = user
        st.env['userinv'] = None
        out = []
        for s, k, v in ex.call_sub(st, check, [data]):
            if k != 'ret':
                raise Unsupported("the stated invariant throws")
            pre = dict(s.mem)
            res, cells = [], set()
            for h, k2, v2 in ex.call_sub(s, havoc, [data]):
                if k2 != 'ret':
                    raise Unsupported("the stated invariant throws")
                regions = set()
                for rid, r in h.mem.items():
                    r0 = pre.get(rid)
                    if r0 is None:
                        regions.add(rid)
                    elif r0 is not r:
                        if isinstance(r, Bytes) or isinstance(r0, Bytes) or r.dead != r0.dead:
                            raise Unsupported("the stated invariant havocs an array that exists already")
                        for off, (n, val) in r.c.items():
                            old = r0.c.get(off)
                            if old is None or old[0] != n or not self.veq(old[1], val):
                                cells.add((rid, off, n))
                res.append((h, regions))
            for h, regions in res:
                out.extend(self.invariant(h, h.frames[-1], H, body, depth, dict(phi0), (check, data, regions, cells)))
        return out

    def restore_owned(self, s, ctx):
        """back edge: the stated invariant must hold; then its part of the state is the head's"""
        ex = self.ex
        check, data, regions, cells = ctx.own
        out = []
        for t, k, v in ex.call_sub(s, check, [data]):
            if k != 'ret':
                raise Unsupported("the stated invariant throws")
            g = ctx.hst
            for rid in regions:
                if rid in g.mem:
                    t.mem[rid] = g.mem[rid]
            for rid, off, n in cells:
                ex.cell_put(t, rid, t.w(rid), off, n, self.cell_value(g, rid, off, n))
            out.append(t)
        return out

    def back_edge(self, st, fr, H, ctx):
        ex = self.ex
        if ctx.kind == 'unroll':
            if not ctx.forced and st.env.get(('symexit', ctx.depth, H)):
                # the number of iterations is not fixed after all: start over with an
                # invariant, which covers this path and all that went round again
                if ctx.restarted:
                    st.stopped = ('dead',)
                    return [st]
                ctx.restarted = True
                s0, phi0 = ctx.start
                s0 = s0.fork()
                return self.invariant(s0, s0.frames[-1], H, ctx.body, ctx.depth, phi0)
            k = ('unroll', ctx.depth, H)
            st.env[k] = st.env.get(k, 0) + 1
            if st.env[k] > (st.env.get('unrollmax') or ex.unroll_max):
                raise Unsupported("loop unrolled more than %d times" % ex.unroll_max)
            ex.enter_block(st, fr, H)
            return None
        if ctx.kind == 'dry':
            st.stopped = ('loopexit', ctx)
            return [st]
        phis = ex.phis(st, fr, H)
        states = [st]
        if ctx.lock is not None:
            states = self.lockstep(st, ctx)
        if ctx.own is not None:
            states = [t for s in states for t in (self.restore_owned(s, ctx) if not s.stopped else [s])]
        out = []
        for s in states:
            if s.stopped:
                out.append(s)
                continue
            if ctx.kind == 'discover':
                s.stopped = ('backedge', ctx, phis)
                out.append(s)
            else:
                self.final_back(s, ctx, phis)
                s.stopped = ('dead',)
                out.append(s)
        return out

    def lockstep(self, st, ctx):
        ex = self.ex
        step, ghost = ctx.lock
        res = ex.call_sub(st, step, [ghost])
        out = []
        for s, k, v in res:
            if k != 'ret':
                raise Unsupported("the specification step throws")
            if v is not None:
                ok = v if isc(v) else (v if z3.is_bool(v) else v != 0)
                ex.oblig(s, bool(ok) if isc(ok) else ok, "one more iteration where the specification continues")
            out.append(s)
        return out

    # ------------------------------------------------------------ invariants
    def invariant(self, st, fr, H, body, depth, phi0, own=None):
        ex = self.ex
        name = "%s %s" % (ex.short(fr.fn.name), H)
        lock = st.env.get('lockstep')
        pairs = st.env.get('pairs', ())
        head = Head()
        head.it = z3.BitVec("it!%d" % self._n(), 64)
        head.entry = st
        head.phi0 = phi0
        head.fresh = {}
        head.lock = lock
        head.own = own
        head.pairs = pairs if lock is not None else ()
        if lock is None:
            pairs = ()
        head.noconst = set()
        head.rel = {}
        head.inv = []
        head.exits = []
        head.consts = {}
        head.mark0 = ex.fresh_n
        for p, v in phi0.items():
            head.phi[p] = ('fresh',) if v is not UNDEF else ('undef',)
        for (dst, g, dptr) in pairs:
            ex.to_bytes(st, dst.rid)
            ex.to_bytes(st, g.rid)
        stable = False
        cands = None
        for rnd in range(40):
            if cands is None:
                head.inv = []
                head.rel = {}
                g = self.make_head(st, H, head)
                cands = self.filter(st.pc, self.candidates(st, head, g), lambda c: c.entry(head))
                known = {w: set(d) for w, d in self.comparands(st, head).items()}
            head.inv = cands
            self.relate(head)
            self.prune(st, H, head)
            mark = ex.fresh_n
            g = self.make_head(st, H, head)
            ctx, backs = self.iterate(g, fr, H, body, depth, head, 'discover')
            head.exits = ctx.exits
            if self.learn(head, g, backs):
                cands = None
                continue
            for s, ph in backs:
                for key, v0, x, w in head.sym:
                    v = self.back_value(s, ph, key)
                    if w > 8 and isc(v) and not isinstance(v, bool) and len(head.consts) < 12:
                        e = bv(v, w)
                        head.consts[e.get_id()] = e
            if any(set(d) - known.get(w, set()) for w, d in self.comparands(st, head).items()):
                cands = None
                continue
            self.set_history(head, g, backs, mark)
            n = len(cands)
            for s, ph in backs:
                mp = self.back_map(s, ph, head)
                cands = self.filter(s.pc, cands, lambda c: c.back(head, mp))
            if len(cands) == n:
                stable = True
                break
        if not stable:
            raise Unsupported("loop %s does not stabilise" % name)
        head.inv = cands
        self.relate(head)
        self.prune(st, H, head)
        g = self.make_head(st, H, head)
        # entry: the invariant must hold for the entry values (it = 0)
        self.check_entry(st, head, name)
        # final pass
        g = self.make_head(st, H, head, extra=True)
        if ex.log and not st.quiet:
            ex.log("LOOP %s: invariant %s" % (name, self.describe(head)))
        if not st.quiet:
            ex.loop_report.setdefault(name, self.describe(head))
        fctx = Ctx('final', fr.fn, H, body, depth)
        fctx.lock = lock
        fctx.own = own
        fctx.head = head
        fctx.hst = g
        head.final = g.fork()
        gf = g.frames[-1]
        gf.loops[H] = fctx
        g.stopped = None
        return [g]

    def _n(self):
        self.ex.fresh_n += 1
        return self.ex.fresh_n

    def make_head(self, st, H, head, extra=False):
        ex = self.ex
        g = st.fork()
        if head.lock is not None:
            g.env['lockstep'] = None
        vals = {}
        head.sym = []          # (key, entry value, head value, width)
        it = head.it

        def gen(key, v0, kind, w):
            if kind[0] == 'fresh':
                s = head.fresh.get(key)
                if s is None:
                    nm = "h!%d" % self._n()
                    s = z3.Bool(nm) if w == 1 else z3.BitVec(nm, w)
                    head.fresh[key] = s
                rel = head.rel.get(key)
                if rel is not None:
                    return simp(gen(rel[0], None, kind, w) + bv(rel[1], w))
                return s
            if kind[0] == 'affine':
                c = kind[1]
                k = it if w == 64 else (z3.Extract(w - 1, 0, it) if w < 64 else z3.ZeroExt(w - 64, it))
                if isc(c):
                    d = k if c == 1 else k * bv(c, w)
                else:
                    d = k * c
                return simp(bv(v0, w) + d)
            raise EngineError(kind)
        for p, kind in head.phi.items():
            v0 = head.phi0[p]
            if kind[0] == 'const':
                vals[p] = v0
                continue
            if kind[0] == 'undef':
                vals[p] = UNDEF
                continue
            if isinstance(v0, Ptr):
                x = gen(('phi', p), v0.off, kind, 64)
                vals[p] = Ptr(v0.rid, x)
                head.sym.append((('phi', p), v0.off, x, 64))
            elif isinstance(v0, list):
                raise Unsupported("aggregate in a loop")
            else:
                w = self.phiw(st, H, p)
                x = gen(('phi', p), v0, kind, w)
                vals[p] = x
                head.sym.append((('phi', p), v0, x, w))
        for key, kind in head.cell.items():
            rid, off, n = key
            r = st.mem.get(rid)
            if r is None:
                continue
            w = g.w(rid)
            if kind[0] == 'undef':
                # uninitialised at entry: any value
                for o in [o for o, (s_, _) in w.c.items() if o < off + n and off < o + s_]:
                    s_, old = w.c[o]
                    if o >= off and o + s_ <= off + n:
                        del w.c[o]
                continue
            v0 = self.cell_value(st, rid, off, n)
            if isinstance(v0, Ptr):
                if kind[0] == 'anyptr':
                    continue
                x = gen(key, v0.off, kind, 64)
                ex.cell_put(g, rid, w, off, n, Ptr(v0.rid, x))
                head.sym.append((key, v0.off, x, 64))
            else:
                if not isc(v0) and z3.is_bool(v0):
                    bw = 1
                elif isinstance(v0, bool):
                    bw = 1
                else:
                    bw = 8 * n
                if kind[0] == 'fresh' and key in head.fresh and width(head.fresh[key]) != bw:
                    bw = width(head.fresh[key])
                x = gen(key, v0, kind, bw)
                ex.cell_put(g, rid, w, off, n, x)
                head.sym.append((key, v0, x, bw))
        paired = {}
        for dst, gp, dptr in head.pairs:
            paired[dst.rid] = (dst, gp, dptr)
        order = [r for r in head.arr if r not in paired] + [r for r in head.arr if r in paired]
        for rid in order:
            kind = head.arr[rid]
            if rid not in st.mem:
                continue
            ex.to_bytes(g, rid)
            w = g.w(rid)
            if rid in paired:
                dst, gp, dptr = paired[rid]
                b = head.fresh.get(('arr', rid))
                if b is None:
                    b = head.fresh[('arr', rid)] = Base("ha!%d" % self._n())
                d = self.rd64(g, dptr)
                w.arr = MCpy(b, dst.off, d, g.mem[gp.rid].arr, gp.off)
                continue
            if kind[0] == 'fresh':
                b = head.fresh.get(('arr', rid))
                if b is None:
                    b = head.fresh[('arr', rid)] = Base("ha!%d" % self._n())
                w.arr = b
            elif kind[0] == 'mset':
                w.arr = MSet(st.mem[rid].arr, kind[1], it, kind[2])
            elif kind[0] == 'mcpy':
                src = st.mem[kind[2]].arr
                w.arr = MCpy(st.mem[rid].arr, kind[1], it, src, kind[3])
            elif kind[0] == 'fwd':
                w.arr = Fwd(st.mem[rid].arr, kind[1], kind[2], it)
        gf = g.frames[-1]
        ex.enter_block(g, gf, H, vals)
        for key, (k2, d) in head.rel.items():
            if key in head.fresh:
                # the symbol itself appears in facts collected under other relations
                g.assume(simp(head.fresh[key] == head.fresh[k2] + bv(d, head.fresh[key].size())))
        head.symmap = {id(x[2]): x for x in head.sym}
        for c in head.inv:
            e = c.head(head)
            g.assume(simp(e))
        if extra:
            g.env['hist'] = g.env.get('hist', ()) + (head,)
            for t in g.env.get('inst', ()):
                self.instantiate(g, head, t)
        head.gvals = vals
        return g

    def phiw(self, st, H, p):
        fn = st.frames[-1].fn
        for ph in fn.block(H).phis:
            if ph.res == p:
                t = ph.ty
                if t.k == 'int':
                    return t.n
                return {'double': 64, 'float': 32, 'ptr': 64}[t.k]
        raise EngineError("phi width")

    def rd64(self, st, p):
        return self.ex.load(st, p, INT(64))

    def cell_value(self, st, rid, off, n):
        r = st.mem[rid]
        if isinstance(r, Bytes):
            raise Unsupported("cell of a byte region")
        c = r.c.get(off)
        if c is not None and c[0] == n:
            return c[1]
        ov = [o for o, (s, _) in r.c.items() if o < off + n and off < o + s]
        if not ov:
            if r.default == 'zero':
                return 0
            if r.default == 'sym':
                return self.ex.sym_cell(r, off, n * 8)
            return UNDEF
        return self.ex.join([self.ex.byte_of(st, rid, r, off + k) for k in range(n)])

    def iterate(self, g, fr, H, body, depth, head, kind):
        ex = self.ex
        g = g.fork()
        g.quiet += 1
        ctx = Ctx(kind, fr.fn, H, body, depth)
        ctx.lock = head.lock
        ctx.own = head.own
        ctx.hst = g.fork()
        g.frames[-1].loops[H] = ctx
        done = ex.explore([g])
        backs = []
        for s in done:
            if s.stopped[0] == 'backedge' and s.stopped[1] is ctx:
                backs.append((s, s.stopped[2]))
        return ctx, backs

    # modified locations and affine steps
    def learn(self, head, g, backs):
        ex = self.ex
        ch = False
        hid = set()
        for key, s in head.fresh.items():
            if not isinstance(s, Base):
                hid.add(s.get_id() if hasattr(s, 'get_id') else None)
        itid = head.it.get_id()
        varying = set()
        for s in list(head.fresh.values()):
            varying |= {s.z.decl().get_id()} if isinstance(s, Base) else {s.decl().get_id()}
        varying.add(head.it.decl().get_id())

        # 1. new modified cells / arrays
        for s, ph in backs:
            for rid, r in g.mem.items():
                r2 = s.mem.get(rid)
                if r2 is r:
                    continue
                if r2 is None:
                    continue       # dead alloca of an inner frame cannot happen
                if r2.dead != r.dead:
                    raise Unsupported("a loop frees memory allocated before it (%s)" % rid)
                if isinstance(r2, Bytes) and isinstance(r, Cells):
                    if rid not in head.arr:
                        ex.to_bytes(head.entry, rid)
                        for k in [k for k in head.cell if k[0] == rid]:
                            del head.cell[k]
                        head.arr[rid] = ('fresh',)
                        ch = True
                    continue
                if isinstance(r, Bytes):
                    if not arr_syn_eq(r.arr, r2.arr) and rid not in head.arr:
                        head.arr[rid] = ('fresh',)
                        ch = True
                    continue
                for off, (n, v) in r2.c.items():
                    old = r.c.get(off)
                    if old is not None and old[0] == n and (old[1] is v or self.veq(old[1], v)):
                        continue
                    key = (rid, off, n)
                    if key in head.cell:
                        continue
                    if old is None or old[0] != n:
                        if r.default == 'sym' and not [o for o, (s_, _) in r.c.items() if o < off + n and off < o + s_]:
                            if not isinstance(v, (Ptr, list)) and v is not UNDEF and self.veq(v, ex.sym_cell(r, off, 1 if z3.is_bool(v) else 8 * n) if not isc(v) else None):
                                continue
                    v0 = self.cell_value(head.entry, rid, off, n)
                    if isinstance(v0, list) or isinstance(v, list):
                        raise Unsupported("aggregate in memory")
                    if v0 is UNDEF:
                        head.cell[key] = ('undef',)
                    elif isinstance(v, Ptr) != isinstance(v0, Ptr) or (isinstance(v, Ptr) and v.rid != v0.rid):
                        if self.ex.unit is not None and getattr(self.ex.unit, 'ptr_temp', None) and self.ex.unit.ptr_temp(rid, off):
                            head.cell[key] = ('undef',)
                        else:
                            raise Unsupported("a pointer is redirected in a loop (%s+%d)" % (rid, off))
                    else:
                        head.cell[key] = ('fresh',)
                    ch = True
                for off, (n, v) in r.c.items():
                    if off not in r2.c:
                        # destroyed or split cell
                        if not [o for o, (s_, _) in r2.c.items() if o < off + n and off < o + s_]:
                            key = (rid, off, n)
                            if head.cell.get(key) != ('undef',):
                                if (r.default != 'undef'):
                                    raise Unsupported("cell cleared in a loop")
                                head.cell[key] = ('undef',)
                                ch = True
        # earlier guesses that this round refutes
        for p, kind in list(head.phi.items()):
            if kind[0] == 'const':
                if any(not self.veq(ph[p], head.phi0[p]) for s, ph in backs):
                    head.phi[p] = ('fresh',)
                    head.noconst.add(('phi', p))
                    ch = True
        for key, v0, x, w in head.sym:
            kind = head.phi[key[1]] if key[0] == 'phi' else head.cell.get(key)
            if kind is None or kind[0] != 'affine':
                continue
            exp = z3.substitute(bv(x, w), (head.it, head.it + 1))
            for s, ph in backs:
                v = self.back_value(s, ph, key)
                if isinstance(v, Ptr):
                    v = v.off
                if v is UNDEF or not isc(v) and z3.is_bool(v) or not ex.must(s, eq(bv(v, w), exp, w)):
                    if key[0] == 'phi':
                        head.phi[key[1]] = ('fresh',)
                    else:
                        head.cell[key] = ('fresh',)
                    head.noconst.add(key)
                    ch = True
                    break
        if ch:
            return True
        # 2. scalar steps
        for key, v0, x, w in head.sym:
            kind = head.phi[key[1]] if key[0] == 'phi' else head.cell[key]
            if kind[0] != 'fresh' or key in head.noconst:
                continue
            steps = []
            ok = True
            for s, ph in backs:
                v = self.back_value(s, ph, key)
                if v is UNDEF or v is None:
                    ok = False
                    break
                if isinstance(v, Ptr):
                    p0 = head.phi0[key[1]] if key[0] == 'phi' else self.cell_value(head.entry, *key)
                    if not isinstance(p0, Ptr) or p0.rid != v.rid:
                        raise Unsupported("a pointer is redirected in a loop (%s)" % (key,))
                    v = v.off
                if w == 1:
                    steps.append(0 if self.veq(v, x) else None)
                    continue
                if not isc(v) and z3.is_bool(v):
                    ok = False
                    break
                d = simp(bv(v, w) - bv(x, w))
                if not isc(d):
                    if ex.smt.vars(d) & varying:
                        d = None
                steps.append(d)
            if not ok or None in steps:
                continue
            if not steps:
                c = 0
            elif all(same(t, steps[0]) for t in steps[1:]):
                c = steps[0]
            else:
                continue
            if isc(c) and c == 0:
                nk = ('const',)
            elif w == 1:
                continue
            else:
                nk = ('affine', c)
            if nk == ('const',):
                if key[0] == 'phi':
                    head.phi[key[1]] = nk
                else:
                    del head.cell[key]
                    head.noaff = getattr(head, 'noaff', set())
            else:
                if key[0] == 'phi':
                    head.phi[key[1]] = nk
                else:
                    head.cell[key] = nk
            ch = True
        if ch:
            return True
        # 3. array closed forms
        paired = {p[0].rid for p in head.pairs} | {p[1].rid for p in head.pairs}
        for rid, kind in list(head.arr.items()):
            if kind[0] != 'fresh' or rid in paired or getattr(head, 'noform', None) and rid in head.noform:
                continue
            form = self.closed_form(head, g, backs, rid, varying)
            if form is not None:
                head.arr[rid] = form
                ch = True
            else:
                head.noform = getattr(head, 'noform', set()) | {rid}
        return ch

    def closed_form(self, head, g, backs, rid, varying):
        ex = self.ex
        if len(backs) != 1:
            return None
        s = backs[0][0]
        a = s.mem[rid].arr
        h = g.mem[rid].arr
        if not isinstance(a, St) or a.p is not h:
            return None

        def affine0(e):
            """e = e0 + it  ->  e0"""
            d = simp(bv(e, 64) - head.it)
            if not isc(d) and ex.smt.vars(d) & varying:
                return None
            return d
        d0 = affine0(a.i)
        if d0 is None:
            return None
        v = a.v
        if isc(v) or not (ex.smt.vars(v) & varying):
            return ('mset', d0, v)
        if z3.is_select(v):
            i = affine0(v.arg(1))
            if i is None:
                return None
            base = v.arg(0)
            if base.eq(h.z if isinstance(h, Base) else None):
                return ('fwd', d0, i)
            for r2, reg in g.mem.items():
                if isinstance(reg, Bytes) and isinstance(reg.arr, Base) and reg.arr.z.eq(base) and r2 not in head.arr:
                    return ('mcpy', d0, r2, i)
        # the value is read through a layered source
        for r2, reg in g.mem.items():
            if isinstance(reg, Bytes) and r2 not in head.arr and not isinstance(reg.arr, (Base,)):
                for key, v0, x, w in head.sym:
                    if w == 64:
                        cand = reg.arr.sel(x)
                        if self.veq(cand, v):
                            i = affine0(x)
                            if i is not None:
                                return ('mcpy', d0, r2, i)
        return None

    def veq(self, a, b):
        if a is b:
            return True
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid and same(a.off, b.off)
        if a is UNDEF or b is UNDEF or a is None or b is None or isinstance(a, list) or isinstance(b, list):
            return False
        if isc(a) and isc(b):
            return int(a) == int(b)
        if isc(a) or isc(b):
            return False
        return a.eq(b)

    def back_value(self, s, ph, key):
        if key[0] == 'phi':
            return ph[key[1]]
        rid, off, n = key
        if isinstance(s.mem[rid], Bytes):
            raise Unsupported("cell turned into bytes")
        return self.cell_value(s, rid, off, n)

    # ------------------------------------------------------------ candidates
    def filter(self, pc, cands, f):
        """largest subset of cands whose f(c) is implied by pc"""
        ex = self.ex
        live = []
        for c in cands:
            e = simp(f(c))
            if isc(e):
                if e:
                    live.append((c, True))
                continue
            live.append((c, e))
        out = [c for c, e in live if e is True]
        rest = [(c, e) for c, e in live if e is not True]
        while rest:
            q = z3.Or(*[z3.Not(e) for c, e in rest])
            import time
            t = time.time()
            r, m = ex.smt.solve(ex.smt.slice(pc, [q]) + [q], 6000)
            ex.smt.time += time.time() - t
            if r == 'unsat':
                out.extend(c for c, e in rest)
                break
            if r == 'sat':
                keep = [(c, e) for c, e in rest if not z3.is_false(m(e))]
                if len(keep) == len(rest):
                    break
                rest = keep
            else:
                # decide one by one
                keep = []
                for c, e in rest:
                    rr, _ = ex.smt.check(pc, [lnot(e)], timeout=3000)
                    if rr == 'unsat':
                        out.append(c)
                rest = []
        return out

    def back_map(self, s, ph, head):
        mp = {}
        for key, v0, x, w in head.sym:
            v = self.back_value(s, ph, key)
            if isinstance(v, Ptr):
                v = v.off
            if v is UNDEF:
                v = self.ex.fresh(w, 'u')
            if w == 1 and not isc(v) and not z3.is_bool(v):
                v = simp(v != 0)
            if w != 1 and not isc(v) and z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
            mp[key] = v
        mp['it'] = head.it + 1
        return mp

    def relate(self, head):
        """one symbol for the locations that move together"""
        rep = {}

        def find(k, w):
            d = 0
            while k in rep:
                k2, d2 = rep[k]
                d = add(d2, d, w)
                k = k2
            return k, d
        for c in head.inv:
            if c.diff is None:
                continue
            a, b = c.keys
            if any((head.phi[k[1]] if k[0] == 'phi' else head.cell.get(k, ('?',)))[0] != 'fresh' or k not in head.fresh
                   for k in (a, b)):
                continue
            w = width(head.fresh[a])
            if w == 1 or w != width(head.fresh[b]):
                continue
            (ra, da), (rb, db) = find(a, w), find(b, w)
            if ra == rb:
                continue
            # a = ra + da, b = rb + db, a = b + diff
            d = sub(add(db, c.diff, w), da, w)
            rep[ra] = (rb, d)
        head.rel = {k: find(k, width(head.fresh[k])) for k in rep}

    def prune(self, st, H, head):
        """drop the facts implied by the others"""
        ex = self.ex
        self.make_head(st, H, head)
        items = [(c, simp(c.head(head))) for c in head.inv]
        keep = [c for c, e in items if isc(e) and c.diff is not None]
        items = [(c, e) for c, e in items if not isc(e)]
        known = set(head.entry.pcids)
        items = [(c, e) for c, e in items if e.get_id() not in known]
        s = z3.Solver()
        s.set('timeout', 300)
        s.add(ex.smt.slice(head.entry.pc, [e for c, e in items]))
        acts = []
        for k, (c, e) in enumerate(items):
            p = z3.Bool('act!%d' % k)
            s.add(z3.Implies(p, e))
            acts.append(p)
        live = list(range(len(items)))
        import time
        t = time.time()
        for k in sorted(live, key=lambda j: items[j][0].text.find('==') >= 0):
            rest = [acts[j] for j in live if j != k]
            if s.check(*rest, z3.Not(items[k][1])) == z3.unsat:
                live.remove(k)
            if time.time() - t > 6:
                break
        ex.smt.time += time.time() - t
        if ex.log:
            ex.log("PRUNE %d of %d facts kept, %.1f s" % (len(live), len(items), time.time() - t))
        head.inv = keep + [items[k][0] for k in live]

    def comparands(self, st, head):
        ex = self.ex
        # loop-invariant comparands found in exit conditions
        varying = {head.it.decl().get_id()}
        for k, s in head.fresh.items():
            varying |= {s.z.decl().get_id()} if isinstance(s, Base) else {s.decl().get_id()}
        cst = {}

        def note(e):
            if z3.is_bv(e) and not z3.is_bv_value(e):
                w = e.size()
                if not (ex.smt.vars(e) & varying) and not self.inner(e, head.mark0):
                    cst.setdefault(w, {})[e.get_id()] = e
                elif z3.is_app_of(e, z3.Z3_OP_BADD):
                    for c in e.children():
                        note(c)
                if z3.is_app_of(e, z3.Z3_OP_CONCAT) or z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
                    note(e.children()[-1])
            elif z3.is_bv_value(e):
                cst.setdefault(e.size(), {})[e.get_id()] = e
        for c in head.exits:
            stack = [c]
            n = 0
            while stack and n < 40:
                e = stack.pop()
                n += 1
                cm = ex.cmp_of.get(e.get_id())
                if cm is not None:
                    note(cm[0])
                    note(cm[1])
                    continue
                if z3.is_bool(e):
                    stack.extend(e.children())
                else:
                    note(e)
        for h in st.env.get('bounds', ()):
            cst.setdefault(64, {})[bv(h, 64).get_id()] = bv(h, 64)
        for e in head.consts.values():
            cst.setdefault(e.size(), {})[e.get_id()] = e
        return cst

    def inner(self, e, mark):
        """mentions a value made inside the loop"""
        stack, seen = [e], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = x.decl().name().rsplit('!', 1)
                if len(n) == 2 and n[1].isdigit() and int(n[1]) > mark:
                    return True
            stack.extend(x.children())
        return False

    def candidates(self, st, head, g):
        ex = self.ex
        out = []
        vs = {}
        for key, v0, x, w in head.sym:
            if v0 is UNDEF:
                continue
            vs.setdefault(w, []).append((key, v0, x))
        cst = self.comparands(st, head)
        for w, lst in vs.items():
            if w == 1:
                for key, v0, x in lst:
                    out.append(Cand([key], lambda a, v0=v0: eqb(a, v0), "%s == entry" % (key,)))
                for i in range(len(lst)):
                    for j in range(i):
                        out.append(Cand([lst[i][0], lst[j][0]], lambda a, b: eqb(a, b), "%s == %s" % (lst[i][0], lst[j][0])))
                continue
            for i in range(len(lst)):
                key, v0, x = lst[i]
                kx = key
                z0 = bv(v0, w)
                out.append(Cand([kx], lambda a, z0=z0: z3.UGE(a, z0), "%s >= entry" % (kx,)))
                out.append(Cand([kx], lambda a, z0=z0: z3.ULE(a, z0), "%s <= entry" % (kx,)))
                for e in cst.get(w, {}).values():
                    out.append(Cand([kx], lambda a, e=e: z3.ULE(a, e), "%s <= %s" % (kx, e)))
                    out.append(Cand([kx], lambda a, e=e: z3.UGE(a, e), "%s >= %s" % (kx, e)))
                    out.append(Cand([kx], lambda a, e=e: a != e, "%s != %s" % (kx, e)))
                if w == 8:
                    for k in (0, 1):
                        out.append(Cand([kx], lambda a, k=k: a == k, "%s == %d" % (kx, k)))
                if w in (8, 32):
                    out.append(Cand([kx], lambda a: z3.ULE(a, z3.BitVecVal(1, a.size())), "%s <= 1" % (kx,)))
                for j in range(len(lst)):
                    if i == j:
                        continue
                    ky, y0, y = lst[j]
                    if w >= 8:
                        out.append(Cand([kx, ky], lambda a, b: z3.ULE(a, b), "%s <= %s" % (kx, ky)))
                    if j < i:
                        d0 = simp(bv(v0, w) - bv(y0, w))
                        out.append(Cand([kx, ky], lambda a, b, d0=d0, w=w: a == b + bv(d0, w), "%s - %s == entry" % (kx, ky), d0))
                        s0 = simp(bv(v0, w) + bv(y0, w))
                        out.append(Cand([kx, ky], lambda a, b, s0=s0, w=w: a + b == bv(s0, w), "%s + %s == entry" % (kx, ky)))
        # x <= y across widths is not attempted
        if len(out) > 3000:
            out = out[:3000]
        return out

    def check_entry(self, st, head, name):
        ex = self.ex
        for c in head.inv:
            ex.oblig(st, c.entry(head), "loop invariant holds on entry", "")
        for dst, gp, dptr in head.pairs:
            if dst.rid not in head.arr:
                continue
            d = self.rd64(st, dptr)
            self.pair_check(st, dst, gp, d, "paired output prefix on entry")

    def pair_check(self, st, dst, gp, d, label):
        ex = self.ex
        if isc(d) and d == 0:
            return
        k = ex.fresh(64, 'k')
        a = st.mem[dst.rid].arr.sel(add(dst.off, k, 64))
        b = st.mem[gp.rid].arr.sel(add(gp.off, k, 64))
        ex.oblig(st, simp(z3.Implies(boolv(ult(k, d)), bv(a, 8) == bv(b, 8))), label)

    def final_back(self, s, ctx, phis):
        ex = self.ex
        head = ctx.head
        g = head.final
        mp = self.back_map(s, phis, head)
        # generalised scalars: affine ones must advance by one step
        for key, v0, x, w in head.sym:
            kind = head.phi[key[1]] if key[0] == 'phi' else head.cell[key]
            if kind[0] == 'affine':
                exp = z3.substitute(bv(x, w), (head.it, head.it + 1))
                ex.oblig(s, eq(bv(mp[key], w), exp, w), "loop step", "")
            if key[0] != 'phi' or isinstance(head.phi0[key[1]], Ptr):
                v = self.back_value(s, phis, key)
                v0p = head.phi0[key[1]] if key[0] == 'phi' else self.cell_value(head.entry, *key)
                if isinstance(v0p, Ptr) and (not isinstance(v, Ptr) or v.rid != v0p.rid):
                    raise Unsupported("a pointer is redirected in a loop")
        for p, kind in head.phi.items():
            if kind[0] == 'const' and not self.veq(phis[p], head.phi0[p]):
                v, v0 = phis[p], head.phi0[p]
                if isinstance(v, Ptr) and isinstance(v0, Ptr) and v.rid == v0.rid:
                    ex.oblig(s, eq(v.off, v0.off, 64), "loop frame", "")
                elif isinstance(v, (Ptr, list)) or v is UNDEF or isinstance(v0, (Ptr, list)) or v0 is UNDEF:
                    raise Unsupported("loop frame of " + p)
                else:
                    w = self.phiw(head.entry, ctx.header, p)
                    ex.oblig(s, eq(v, v0, w) if w > 1 else eqb(v, v0), "loop frame", "")
        for c in head.inv:
            ex.oblig(s, c.back(head, mp), "loop invariant is preserved", "")
        # arrays
        paired = {p[0].rid: p for p in head.pairs}
        for rid, kind in head.arr.items():
            if rid not in g.mem:
                continue
            if rid in paired:
                dst, gp, dptr = paired[rid]
                self.pair_check(s, dst, gp, self.rd64(s, dptr), "output agrees with the specification")
            elif kind[0] in ('mset', 'mcpy', 'fwd'):
                st = head.entry
                n1 = head.it + 1
                if kind[0] == 'mset':
                    want = MSet(st.mem[rid].arr, kind[1], n1, kind[2])
                elif kind[0] == 'mcpy':
                    want = MCpy(st.mem[rid].arr, kind[1], n1, st.mem[kind[2]].arr, kind[3])
                else:
                    want = Fwd(st.mem[rid].arr, kind[1], kind[2], n1)
                k = ex.fresh(64, 'k')
                if kind[0] == 'fwd':
                    # case split: the new byte, and any other byte
                    kk = add(kind[1], head.it, 64)
                    ex.oblig(s, eq(bv(s.mem[rid].arr.sel(kk), 8), bv(want.sel(kk), 8), 8), "copy loop closed form", "")
                    c = eq(bv(s.mem[rid].arr.sel(k), 8), bv(want.sel(k), 8), 8)
                    ex.oblig(s, lor(c, eq(k, kk, 64)), "copy loop closed form", "")
                else:
                    ex.oblig(s, eq(bv(s.mem[rid].arr.sel(k), 8), bv(want.sel(k), 8), 8), "copy loop closed form", "")
        # frame: nothing else changed
        for rid, r in g.mem.items():
            r2 = s.mem.get(rid)
            if r2 is r or r2 is None:
                continue
            if r2.dead != r.dead:
                raise Unsupported("a loop frees memory allocated before it")
            if isinstance(r, Bytes):
                if rid not in head.arr and not arr_syn_eq(r.arr, r2.arr):
                    k = ex.fresh(64, 'k')
                    ex.oblig(s, eq(bv(r.arr.sel(k), 8), bv(r2.arr.sel(k), 8), 8), "loop frame", "")
                continue
            if isinstance(r2, Bytes):
                raise Unsupported("cell region turned into bytes in a loop")
            for off, (n, v) in r2.c.items():
                if (rid, off, n) in head.cell:
                    continue
                old = r.c.get(off)
                if old is not None and old[0] == n and self.veq(old[1], v):
                    continue
                if old is None and r.default == 'sym' and not isinstance(v, (Ptr, list)) and v is not UNDEF and not isc(v) \
                        and self.veq(v, ex.sym_cell(r, off, 1 if z3.is_bool(v) else 8 * n)):
                    continue
                if old is None and r.default == 'undef':
                    # every byte uninitialised at the head
                    continue
                if isinstance(v, (Ptr, list)) or v is UNDEF:
                    raise Unsupported("loop frame of %s+%d" % (rid, off))
                o = self.cell_value(g, rid, off, n)
                if isinstance(o, Ptr) or o is UNDEF:
                    raise Unsupported("loop frame of %s+%d" % (rid, off))
                if isinstance(o, bool) or (not isc(o) and z3.is_bool(o)) or (not isc(v) and z3.is_bool(v)):
                    ex.oblig(s, eqb(tob(o), tob(v)), "loop frame", "")
                else:
                    ex.oblig(s, eq(o, v, 8 * n), "loop frame", "")
        self.termination(s, ctx, mp)

    def termination(self, s, ctx, mp):
        ex = self.ex
        head = ctx.head
        if not s.env.get('terminates'):
            return
        pairs = []
        for key, v0, x, w in head.sym:
            if key in head.fresh:
                pairs.append((head.fresh[key], bv(mp[key], w) if w > 1 else boolv(mp[key])))
        pairs.append((head.it, head.it + 1))
        known = {p[0].decl().get_id() for p in pairs}
        ok_vars = set()
        cands = []
        # user measures first
        for p in s.env.get('measures', ()):
            a = self.rd64(head.final, p)
            b = self.rd64(s, p)
            cands.append((a, b))
        seen = set()
        for c in head.exits:
            stack = [c]
            n = 0
            while stack and n < 30:
                e = stack.pop()
                n += 1
                if z3.is_bool(e):
                    ch = e.children()
                    cm = ex.cmp_of.get(e.get_id())
                    if cm is not None:
                        ch = cm[:2]
                    if len(ch) == 2 and z3.is_bv(ch[0]) and ch[0].size() in (64, 32, 16):
                        a, b = ch
                        for m in (b - a, a - b, b, a):
                            m = simp(m)
                            if isc(m) or m.get_id() in seen:
                                continue
                            seen.add(m.get_id())
                            vs = ex.smt.vars(m)
                            m2 = z3.substitute(m, *pairs)
                            cands.append((m, m2))
                    else:
                        stack.extend(ch)
        for key, v0, x, w in head.sym:
            if w == 64 and key in head.fresh and key not in head.rel:
                for e in self.comparands(head.entry, head).get(64, {}).values():
                    m = simp(e - bv(x, 64))
                    if m.get_id() not in seen:
                        seen.add(m.get_id())
                        cands.append((m, simp(e - bv(mp[key], 64))))
        done = getattr(ctx, 'meas', None)
        if done is not None:
            # the same measure must work on every path
            ctx.meas = cands2 = [i for i in done if i < len(cands) and ex.must(s, z3.ULT(bv(cands[i][1], cands[i][0].size() if not isc(cands[i][0]) else 64), cands[i][0]))]
        else:
            ctx.meas = cands2 = [i for i in range(len(cands)) if not (isc(cands[i][0]) or isc(cands[i][1]) and False)
                                 and ex.must(s, z3.ULT(bv(cands[i][1], cands[i][0].size()), cands[i][0]))]
        ex.oblig(s, bool(cands2), "loop terminates (decreasing measure)", ctx.header)
        s.stopped = None

    # ------------------------------------------------------------ history
    def instantiate(self, st, head, t):
        hist = getattr(head, 'hist', None)
        if not hist:
            return
        ks = []
        for key, v0, x, w in head.sym:
            kind = head.phi[key[1]] if key[0] == 'phi' else head.cell[key]
            if w == 64 and kind[0] == 'affine' and isc(kind[1]) and kind[1] in (1, M64):
                for tt in (t,):
                    k = sub(tt, v0, 64) if kind[1] == 1 else sub(v0, tt, 64)
                    ks.append(k)
                    if kind[1] == M64:
                        ks.append(sub(k, 1, 64))
        seen = set()
        for k in ks:
            k = simp(k)
            kk = k if isc(k) else k.get_id()
            if kk in seen:
                continue
            seen.add(kk)
            alts = []
            for conds in hist:
                ren = {head.it.decl().get_id(): (head.it, bv(k, 64))}
                mine = set()
                for key, s in head.fresh.items():
                    s = s.z if isinstance(s, Base) else s
                    ren[s.decl().get_id()] = (s, z3.FreshConst(s.sort(), 'hk'))
                    mine.add(s.decl().get_id())
                stack = list(conds)
                seen2 = set()
                while stack:
                    e = stack.pop()
                    if e.get_id() in seen2:
                        continue
                    seen2.add(e.get_id())
                    if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        di = e.decl().get_id()
                        if di in ren:
                            continue
                        nm = e.decl().name()
                        if '!' in nm:
                            try:
                                num = int(nm.rsplit('!', 1)[1])
                            except ValueError:
                                continue
                            if num > head.mark:
                                ren[di] = (e, z3.FreshConst(e.sort(), 'hk'))
                    else:
                        stack.extend(e.children())
                subs = list(ren.values())
                alts.append(z3.And(*[z3.substitute(c, *subs) for c in conds]) if conds else z3.BoolVal(True))
            st.assume(simp(z3.Implies(z3.ULT(bv(k, 64), head.it), z3.Or(*alts) if alts else z3.BoolVal(False))))

    def set_history(self, head, g, backs, mark):
        """conditions under which an iteration is completed, one list per path"""
        alts = []
        for s, ph in backs:
            conds = [e for e in s.pc if e.get_id() not in g.pcids]
            alts.append(conds)
        head.hist = alts
        head.mark = mark

    def describe(self, head):
        out = []
        for k, v in head.phi.items():
            if v[0] not in ('const', 'undef'):
                out.append("%s:%s" % (k, v[0] + (str(v[1]) if len(v) > 1 else '')))
        for k, v in head.cell.items():
            if v[0] != 'undef':
                out.append("%s+%d:%s" % (k[0], k[1], v[0] + (str(v[1]) if len(v) > 1 else '')))
        for k, v in head.arr.items():
            out.append("%s[]:%s" % (k, v[0]))
        return ", ".join(out) + " | %d facts" % len(head.inv)

    # ------------------------------------------------------------ helpers
    def store_same(self, base, s, rid):
        a, b = base.mem.get(rid), s.mem.get(rid)
        if a is b:
            return True
        if a is None or b is None:
            return False
        if a.dead != b.dead or type(a) is not type(b):
            return False
        if isinstance(a, Bytes):
            return arr_syn_eq(a.arr, b.arr)
        for o, (n, v) in b.c.items():
            x = a.c.get(o)
            if x is not None and x[0] == n and self.veq(x[1], v):
                continue
            if x is None and a.default == 'sym' and not isc(v) and not isinstance(v, (Ptr, list)) and v is not UNDEF:
                if self.veq(v, self.ex.sym_cell(a, o, 1 if z3.is_bool(v) else 8 * n)):
                    continue
            return False
        for o in a.c:
            if o not in b.c:
                return False
        return True


def tob(v):
    if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)):
        return v
    if isc(v):
        return bool(v)
    return v != 0


def eqb(a, b):
    if isc(a) and isc(b):
        return bool(a) == bool(b)
    if isc(a):
        a, b = b, a
    if isc(b):
        return a if b else lnot(a)
    return a == b


class Cand:
    """predicate over generalised scalars"""
    __slots__ = ("keys", "f", "text", "diff")

    def __init__(self, keys, f, text, diff=None):
        self.keys, self.f, self.text, self.diff = keys, f, text, diff

    def _get(self, head, key, what, mp=None):
        for k, v0, x, w in head.sym:
            if k == key:
                if what == 'entry':
                    v = v0
                elif what == 'head':
                    v = x
                else:
                    v = mp[key]
                if w == 1:
                    return v
                return bv(v, w)
        raise KeyError(key)

    def entry(self, head):
        return self._ap([self._get(head, k, 'entry') for k in self.keys])

    def head(self, head):
        return self._ap([self._get(head, k, 'head') for k in self.keys])

    def back(self, head, mp):
        return self._ap([self._get(head, k, 'back', mp) for k in self.keys])

    def _ap(self, args):
        try:
            return self.f(*args)
        except Exception:
            return False
