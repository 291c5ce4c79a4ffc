"""Path-based symbolic executor / verification-condition generator over LLVM IR.

Every proof function of a harness is executed on symbolic inputs.  Calls are
inlined unless the unit replaces them by a contract; loops whose bounds are not
concrete are cut at inductive invariants (see loops.py).  Every load/store/
memcpy bound, use of freed memory, abnormal termination, and every vc_assert is
a proof obligation discharged by z3 under the path condition.
"""
import re
import subprocess
import time
import z3
from ir import (Module, Unsupported, INT, PTR, VOID, ty_size, field_offset)
from terms import *
import terms


class EngineError(Exception):
    pass


# ---------------------------------------------------------------- solver
class Smt:
    def __init__(self, timeout_ms=20000):
        self.timeout = timeout_ms
        self.time = 0.0
        self.queries = 0
        self.cache = {}
        self.keep = []
        self.varc = {}
        self.capp = {}
        self.dump = None
        self.lira = None
        self.models = []
        self.hits = 0
        self.abs = {}
        self.apps = {}
        self.appinfo = {}

    def vars(self, e):
        k = e.get_id()
        r = self.varc.get(k)
        if r is not None:
            return r
        out = set()
        stack = [e]
        seen = set()
        while stack:
            x = stack.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self.varc.get(i)
            if c is not None:
                out |= c
                continue
            if z3.is_app(x):
                d = x.decl()
                if d.kind() == z3.Z3_OP_UNINTERPRETED:
                    ch = x.children()
                    if ch and all(z3.is_bv_value(y) for y in ch):
                        # an application to constants: a variable of its own
                        out.add(-1 - i)
                        self.capp.setdefault(d.get_id(), set()).add(-1 - i)
                        self.keep.append(x)
                        continue
                    out.add(d.get_id())
                stack.extend(x.children())
        r = frozenset(out)
        self.varc[k] = r
        self.keep.append(e)
        return r

    def near(self, pc, q, depth):
        """facts about the variables of q only, or sharing one with them"""
        need = set()
        for e in q:
            need |= self.vars(boolv(e) if isc(e) else e)
        if depth == 'near':
            for e in pc:
                vs = self.vars(e)
                if vs & need and len(vs - need) <= 2:
                    need |= vs
        return [e for e in pc if self.vars(e) <= need]

    def slice(self, pc, q, linked=True):
        if isinstance(linked, str):
            return self.near(pc, q, linked)
        out = self.slice1(pc, q, linked)
        if AX:
            # facts about fwdmod for the applications at hand
            have = set()
            for e in out + list(q):
                have |= self.vars(e)
            if terms._fm.get_id() in have:
                more = [e for e in AX if self.vars(e) <= have]
                ids = {e.get_id() for e in out}
                out = out + [e for e in more if e.get_id() not in ids]
        return out

    def slice1(self, pc, q, linked=True):
        need = set()
        for e in q:
            need |= self.vars(e)
        if linked:
            self.link(need)
        items = [(e, self.vars(e)) for e in pc]
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for e, vs in items:
                if not vs or vs & need:
                    out.append(e)
                    if vs - need:
                        need |= vs
                        if linked:
                            self.link(need)
                        changed = True
                else:
                    rest.append((e, vs))
            items = rest
        return out

    def link(self, need):
        """applications of a function to constants and to terms concern each other"""
        for d, apps in self.capp.items():
            if d in need:
                need |= apps
            elif apps & need:
                need.add(d)

    def check(self, pc, q, full=False, timeout=None):
        """satisfiability of pc /\\ q: first with the facts closest to q"""
        if full or self.lira or AX:
            return self.check1(pc, q, full, timeout)
        if len(pc) > 40:
            for depth in ('direct', 'near'):
                r = self.check1(pc, q, full, timeout, depth)
                if r[0] == 'unsat':
                    return r
        if self.capp:
            r = self.check1(pc, q, full, timeout, False)
            if r[0] == 'unsat':
                return r
        return self.check1(pc, q, full, timeout, True)

    def check1(self, pc, q, full=False, timeout=None, linked=True):
        """satisfiability of pc /\\ q"""
        q = [boolv(x) for x in q if not (isc(x) and x)]
        for x in q:
            if z3.is_false(x):
                return 'unsat', None
        if not q and not full:
            return 'sat', None
        cs = (pc + list(terms.AX) if full else self.slice(pc, q, linked)) + q
        key = frozenset(e.get_id() for e in cs)
        if not full:
            r = self.cache.get(key)
            if r:
                return r, None
        if full:
            t = time.time()
            if any(self.absx(e)[2] for e in cs):
                s = z3.SimpleSolver()
                s.set('smt.bv.solver', 2)
                s.set('timeout', timeout or self.timeout)
                s.add(cs)
                if str(s.check()) == 'unsat':
                    self.time += time.time() - t
                    return 'unsat', None
            s = z3.Solver()
            s.set('timeout', timeout or self.timeout)
            s.add(cs)
            r = str(s.check())
            self.time += time.time() - t
            self.queries += 1
            self.keep.extend(cs)
            return r, s.model() if r == 'sat' else None
        t = time.time()
        r, m = self.solve(cs, timeout or self.timeout, len(q))
        self.time += time.time() - t
        self.keep.extend(cs)
        self.cache[key] = r
        self.last_cs = cs
        return r, m

    # Every application of an array select or uninterpreted function is replaced by
    # a constant; the congruence axioms are added when a model violates them.
    def absx(self, e):
        r = self.abs.get(e.get_id())
        if r is not None:
            return r
        out = None
        stack = [e]
        while stack:
            x = stack[-1]
            i = x.get_id()
            if i in self.abs:
                stack.pop()
                continue
            if not z3.is_app(x):
                self.abs[i] = (x, frozenset(), False)
                self.keep.append(x)
                stack.pop()
                continue
            ch = x.children()
            todo = [c for c in ch if c.get_id() not in self.abs]
            if todo:
                stack.extend(todo)
                continue
            stack.pop()
            d = x.decl()
            k = d.kind()
            sub = [self.abs[c.get_id()] for c in ch]
            apps = frozenset().union(*[t[1] for t in sub]) if sub else frozenset()
            odd = any(t[2] for t in sub)
            if not (z3.is_bool(x) or z3.is_bv(x) or z3.is_array(x)):
                odd = True
            if k == z3.Z3_OP_SELECT and z3.is_const(ch[0]) and z3.is_bv(x) and z3.is_bv(ch[1]):
                y = self.app(('sel', ch[0].get_id()), [sub[1][0]], x)
                apps = apps | {y.get_id()}
            elif k == z3.Z3_OP_UNINTERPRETED and ch and (z3.is_bv(x) or z3.is_bool(x)) and all(z3.is_bv(c) or z3.is_bool(c) for c in ch):
                y = self.app(('uf', d.get_id()), [t[0] for t in sub], x)
                apps = apps | {y.get_id()}
            elif k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE, z3.Z3_OP_CONST_ARRAY) or z3.is_array(x):
                y = x
                odd = odd or not z3.is_const(x)
            elif k == z3.Z3_OP_UNINTERPRETED and ch:
                y = x
                odd = True
            elif all(t[0] is c or t[0].eq(c) for t, c in zip(sub, ch)):
                y = x
            elif k == z3.Z3_OP_BAND or k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_BADD, z3.Z3_OP_CONCAT, z3.Z3_OP_BOR,
                                             z3.Z3_OP_BMUL, z3.Z3_OP_BXOR, z3.Z3_OP_DISTINCT):
                y = z3.substitute(x, *[(c, t[0]) for t, c in zip(sub, ch)])
            else:
                y = d(*[t[0] for t in sub])
            self.abs[i] = (y, apps, odd)
            self.keep.append(x)
        return self.abs[e.get_id()]

    def app(self, fn, args, x):
        key = (fn,) + tuple(a.get_id() for a in args)
        c = self.apps.get(key)
        if c is None:
            c = z3.FreshConst(x.sort(), 'app')
            self.apps[key] = c
            self.appinfo[c.get_id()] = (fn, args, c)
            self.keep.extend(args)
        return c

    def clashes(self, m, apps):
        out = []
        groups = {}
        for i in apps:
            fn, args, c = self.appinfo[i]
            groups.setdefault(fn, []).append((args, c))
        for fn, lst in groups.items():
            seen = {}
            for args, c in lst:
                k = tuple(str(m.eval(a, model_completion=True)) for a in args)
                v = str(m.eval(c, model_completion=True))
                if k in seen:
                    if seen[k][2] != v:
                        out.append((seen[k], (args, c)))
                else:
                    seen[k] = (args, c, v)
        return out

    def solve(self, cs, timeout, nq=1):
        """returns sat/unsat/unknown and an evaluator of conditions in the model"""
        ab = [self.absx(e) for e in cs]
        if any(t[2] for t in ab):
            return self.solve_odd(cs, [t[2] for t in ab], timeout, nq)
        apps = frozenset().union(*[t[1] for t in ab]) if ab else frozenset()
        es = [t[0] for t in ab]
        for k, m in enumerate(self.models):
            if all(z3.is_true(m.eval(e, model_completion=True)) for e in es[-nq:]) and \
                    all(z3.is_true(m.eval(e, model_completion=True)) for e in es[:-nq]) and not self.clashes(m, apps):
                if k:
                    self.models.insert(0, self.models.pop(k))
                self.hits += 1
                return 'sat', self.evaluator(m)
        self.queries += 1
        t0 = time.time()
        extra = []
        for stage, lim in (('bits', 400), ('ints', 3000), ('bits', timeout)):
            if stage == 'ints':
                # the same constraints read over the integers (only a refutation counts)
                s = z3.SimpleSolver()
                s.set('smt.bv.solver', 2)
            else:
                s = z3.SolverFor('QF_BV')
            s.set('timeout', min(lim, timeout))
            s.add(es + extra)
            for rnd in range(200):
                r = str(s.check())
                if r == 'unsat':
                    return r, None
                if r != 'sat' or stage == 'ints':
                    break
                m = s.model()
                cl = self.clashes(m, apps)
                if not cl:
                    self.models.insert(0, m)
                    del self.models[24:]
                    return 'sat', self.evaluator(m)
                for (a1, c1, _), (a2, c2) in cl:
                    extra.append(z3.Implies(z3.And(*[x == y for x, y in zip(a1, a2)]), c1 == c2))
                    s.add(extra[-1])
                if time.time() - t0 > timeout / 1000:
                    return 'unknown', None
        return 'unknown', None

    def solve_odd(self, cs, odd, timeout, nq):
        """constraints over reals too"""
        plain = [e for e, o in zip(cs, odd) if not o]
        if plain and not any(odd[-nq:]):
            # the machine integers alone may decide a refutation
            if self.solve(plain, min(timeout, 1500), nq)[0] == 'unsat':
                return 'unsat', None
        self.queries += 1
        pure = [self.lira(e) if self.lira else (None if self.has_bv(e) else e) for e in cs]
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add([e for e in pure if e is not None])
        r = str(s.check())
        if r == 'unsat' or (r == 'sat' and all(e is not None for e in pure)):
            m = s.model() if r == 'sat' else None
            return r, ((lambda e: m.eval(e, model_completion=True)) if m is not None else None)
        if timeout <= 1000:
            return 'unknown', None
        # bit vectors read over the integers (only a refutation counts)
        s = z3.SimpleSolver()
        s.set('smt.bv.solver', 2)
        s.set('timeout', timeout)
        s.add(cs)
        if str(s.check()) == 'unsat':
            return 'unsat', None
        s = z3.Solver()
        s.set('timeout', timeout)
        s.add(cs)
        r = str(s.check())
        if r == 'sat':
            m = s.model()
            return r, (lambda e: m.eval(e, model_completion=True))
        return r, None

    def has_bv(self, e):
        seen, stack = set(), [e]
        while stack:
            x = stack.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_bv(x) or z3.is_array(x):
                return True
            stack.extend(x.children())
        return False

    def evaluator(self, m):
        def ev(e):
            y, apps, odd = self.absx(e)
            return m.eval(y, model_completion=True)
        return ev


# ---------------------------------------------------------------- memory
class Cells:
    __slots__ = ("c", "size", "default", "dead", "ro", "name")

    def __init__(self, size, default, name):
        self.c = {}
        self.size = size
        self.default = default     # 'undef' | 'zero' | 'sym'
        self.dead = False
        self.ro = False
        self.name = name

    def copy(self):
        x = Cells(self.size, self.default, self.name)
        x.c = dict(self.c)
        x.dead = self.dead
        x.ro = self.ro
        return x


class Bytes:
    __slots__ = ("arr", "size", "dead", "ro", "name")

    def __init__(self, arr, size, name):
        self.arr, self.size, self.name = arr, size, name
        self.dead = False
        self.ro = False

    def copy(self):
        x = Bytes(self.arr, self.size, self.name)
        x.dead, x.ro = self.dead, self.ro
        return x


class Frame:
    __slots__ = ("fn", "block", "ip", "prev", "loc", "loops", "root", "allocas",
                 "onret", "nomerge")

    def __init__(self, fn):
        self.fn = fn
        self.block = None
        self.ip = 0
        self.prev = None
        self.loc = {}
        self.loops = {}
        self.root = None
        self.allocas = []
        self.onret = None

    def copy(self):
        f = Frame(self.fn)
        f.block, f.ip, f.prev = self.block, self.ip, self.prev
        f.loc = dict(self.loc)
        f.loops = dict(self.loops)
        f.root = self.root
        f.allocas = list(self.allocas)
        f.onret = self.onret
        return f


class State:
    def __init__(self):
        self.mem = {}
        self.frames = []
        self.pc = []
        self.pcids = set()
        self.env = {}
        self.stopped = None
        self.exc = None
        self.caught = []
        self.quiet = 0
        self.own = set()
        self.trace = ()
        self.subs = {}

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.frames = [f.copy() for f in self.frames]
        s.pc = list(self.pc)
        s.pcids = set(self.pcids)
        s.env = dict(self.env)
        s.exc = self.exc
        s.caught = list(self.caught)
        s.quiet = self.quiet
        s.trace = self.trace
        s.subs = dict(self.subs)
        self.own = set()
        return s

    def w(self, rid):
        """writable store of a region"""
        st = self.mem[rid]
        if rid not in self.own:
            st = st.copy()
            self.mem[rid] = st
            self.own.add(rid)
        return st

    def assume(self, e):
        if isc(e):
            return
        if z3.is_and(e):
            for c in e.children():
                self.assume(c)
            return
        i = e.get_id()
        if i not in self.pcids:
            self.pcids.add(i)
            self.pc.append(e)
            if z3.is_eq(e):
                self.learn_eq(e)

    def learn_eq(self, e):
        """equalities used to simplify later conditions"""
        a, b = e.arg(0), e.arg(1)
        if z3.is_bv_value(a):
            a, b = b, a
        if not z3.is_bv(a) or z3.is_bv_value(a):
            return
        if z3.is_bv_value(b):
            v = b.as_long()
            while True:
                if z3.is_app_of(a, z3.Z3_OP_ZERO_EXT):
                    a = a.arg(0)
                elif z3.is_app_of(a, z3.Z3_OP_CONCAT) and a.num_args() == 2 and z3.is_bv_value(a.arg(0)) and \
                        v >> a.arg(1).size() == a.arg(0).as_long():
                    a = a.arg(1)
                    v &= (1 << a.size()) - 1
                else:
                    break
            if v >> a.size():
                return
            self.subs[a.get_id()] = (a, z3.BitVecVal(v, a.size()))
        elif a.num_args() == 0 and b.num_args() == 0:
            x, y = a.decl().name(), b.decl().name()
            if '!' in x and '!' in y and x.rsplit('!', 1)[1].isdigit() and y.rsplit('!', 1)[1].isdigit():
                if int(x.rsplit('!', 1)[1]) < int(y.rsplit('!', 1)[1]):
                    a, b = b, a
                t = self.subs.get(b.get_id())
                self.subs[a.get_id()] = (a, t[1] if t else b)

    def canon(self, e):
        """the condition simplified under the equalities of the path"""
        if isc(e) or not self.subs:
            return e
        e = z3.substitute(e, *self.subs.values())
        return simp(e)


class Obl:
    __slots__ = ("name", "fn", "kind", "n", "failed", "unknown", "detail", "smt")

    def __init__(self, name, fn, kind):
        self.name, self.fn, self.kind = name, fn, kind
        self.n = 0
        self.failed = 0
        self.unknown = 0
        self.detail = None


# ---------------------------------------------------------------- executor
class Exec:
    def __init__(self, mod, unit=None, timeout_ms=20000, log=None):
        self.mod = mod
        self.unit = unit
        self.smt = Smt(timeout_ms)
        self.obls = {}
        self.covers = {}
        self.inputs = []
        self.fresh_n = 0
        self.rid_n = 0
        self.unsupported = {}
        self.log = log
        self.paths = 0
        self.dem = {}
        self.fns_used = set()
        self.trusted_used = set()
        self.handler_cache = {}
        self.uf = {}
        self.max_paths = 60000
        self.deadline = None
        self.loop_report = {}
        self.cmp_of = {}
        self.steps = 0
        self.unroll_max = 600
        self._demangle()
        import builtins_vc
        self.B = builtins_vc.Builtins(self)
        import loops
        self.L = loops.Loops(self)

    def _demangle(self):
        names = list(self.mod.functions)
        t = "\n".join(n[1:] for n in names)
        out = subprocess.run(["llvm-cxxfilt-18"], input=t, capture_output=True,
                             text=True).stdout.split("\n")
        for n, d in zip(names, out):
            self.dem[n] = d

    def demn(self, n):
        return self.dem.get(n, n)

    # -- fresh symbols
    def fresh(self, n, name="v"):
        self.fresh_n += 1
        nm = "%s!%d" % (name, self.fresh_n)
        return z3.Bool(nm) if n == 1 else z3.BitVec(nm, n)

    def ufn(self, name, nargs, rbits, abits=64):
        k = (name, nargs, rbits, tuple(abits) if isinstance(abits, (list, tuple)) else abits)
        f = self.uf.get(k)
        if f is None:
            rs = z3.BoolSort() if rbits == 1 else z3.BitVecSort(rbits)
            ab = abits if isinstance(abits, (list, tuple)) else [abits] * nargs
            f = z3.Function(name, *([z3.BitVecSort(b) for b in ab] + [rs]))
            self.uf[k] = f
        return f

    def new_region(self, st, kind, name, size, default='undef', arr=None, ro=False):
        self.rid_n += 1
        rid = "%s#%d" % (name, self.rid_n)
        if kind == 'cell':
            r = Cells(size, default, rid)
        else:
            r = Bytes(arr if arr is not None else Base("mem_" + rid), size, rid)
        r.ro = ro
        st.mem[rid] = r
        st.own.add(rid)
        return rid

    # -- obligations
    def cur_fn(self, st):
        for f in reversed(st.frames):
            return self.short(f.fn.name)
        return "?"

    def short(self, n):
        d = self.demn(n)
        # strip arguments and template noise
        d = re.sub(r'\(anonymous namespace\)::', '', d)
        depth = 0
        out = []
        for ch in d:
            if ch in '<(':
                depth += 1
            elif ch in '>)':
                depth -= 1
            elif depth == 0:
                out.append(ch)
        s = "".join(out).strip()
        s = s.split(' ')[-1] if ' ' in s and 'operator' not in s else s
        s = s.replace('cppsas7bdat::', '').replace('INTERNAL::', '').replace(' const', '')
        return s

    def oblig(self, st, cond, kind, label=""):
        """record a proof obligation; afterwards cond is assumed"""
        cond = st.canon(simp(cond))
        if st.quiet:
            if not isc(cond):
                st.assume(cond)
            elif not cond:
                st.stopped = ('dead',)
            return
        fn = self.cur_fn(st)
        key = (fn, kind, label)
        o = self.obls.get(key)
        if o is None:
            o = self.obls[key] = Obl("%s: %s%s" % (fn, kind, (" [%s]" % label) if label else ""), fn, kind)
        o.n += 1
        if isc(cond):
            if not cond:
                # infeasible path?
                r, m = self.smt.check(st.pc, [], full=True)
                if r == 'unsat':
                    st.stopped = ('dead',)
                    return
                if r == 'unknown' and self.B.rfp:
                    o.unknown += 1
                    st.stopped = ('dead',)
                    return
                o.failed += 1
                if o.detail is None:
                    o.detail = self.model_str(st, m) if m is not None else "obligation is constantly false"
                st.stopped = ('dead',)
            return
        if cond.get_id() in st.pcids:
            return
        r, m = self.smt.check(st.pc, [lnot(cond)])
        if r != 'unsat':
            if r == 'sat':
                r2, m2 = self.smt.check(st.pc, [lnot(cond)], full=True)
                if r2 == 'unsat':
                    st.assume(cond)
                    return
                if r2 == 'sat':
                    o.failed += 1
                    if o.detail is None:
                        o.detail = self.model_str(st, m2)
                        if self.log:
                            self.log("FAILED %s: %s" % (o.name, str(cond)[:400]))
                else:
                    o.unknown += 1
            else:
                o.unknown += 1
                if self.log:
                    self.log("UNKNOWN %s: %s" % (o.name, str(cond)[:400]))
        st.assume(cond)

    def model_str(self, st, m):
        out = []
        if m is None:
            return ""
        for nm, v in st.env.get('inputs', ()):
            try:
                if isinstance(v, tuple):
                    arr, n = v
                    nn = m.eval(bv(n, 64), model_completion=True).as_long()
                    bs = []
                    for k in range(min(nn, 96)):
                        x = arr.sel(k)
                        x = x if isc(x) else m.eval(x, model_completion=True).as_long()
                        bs.append(x)
                    out.append("%s[%d]=%s" % (nm, nn, bytes(bs).hex()))
                else:
                    x = m.eval(v, model_completion=True)
                    out.append("%s=%s" % (nm, x))
            except Exception as e:      # noqa
                pass
        return "; ".join(out)

    # -- feasibility
    def feasible(self, st, cond):
        cond = st.canon(cond)
        if isc(cond):
            return bool(cond)
        if cond.get_id() in st.pcids:
            return True
        r, _ = self.smt.check(st.pc, [cond], timeout=1000 if self.B.rfp else None)
        return r != 'unsat'

    def must(self, st, cond):
        cond = st.canon(simp(cond))
        if isc(cond):
            return bool(cond)
        r, _ = self.smt.check(st.pc, [lnot(cond)])
        return r == 'unsat'

    def concretize(self, st, v, n=64):
        """the unique value of v under the path condition, or None"""
        v = st.canon(simp(v))
        if isc(v):
            return v
        sm = self.smt
        k = z3.FreshConst(v.sort(), 'cz')
        r, m = sm.solve(sm.slice(st.pc, [v]) + [k == v], sm.timeout)
        if r != 'sat':
            return None
        x = m(k)
        if not z3.is_bv_value(x):
            return None
        if self.must(st, v == x):
            return x.as_long()
        return None

    # ------------------------------------------------------------ memory
    def global_region(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.functions:
            return Ptr('fn:' + name, 0)
        rid = 'g:' + name
        if rid not in st.mem:
            g = self.mod.global_def(name)
            if g is None:
                raise Unsupported("global " + name)
            ty, init, const = g
            size = ty_size(ty)
            if init is None:
                r = Cells(size, 'sym', rid)
                if name.startswith(('@_ZTV', '@_ZTI', '@_ZTS')):
                    r = Cells(1 << 20, 'undef', rid)
            elif ty.k == 'array' and ty.el.k == 'int' and ty.el.n == 8 and init[0] in ('str', 'zero'):
                r = Bytes(Const(init[1] if init[0] == 'str' else b'\0' * size), size, rid)
            else:
                r = Cells(size, 'zero', rid)
                self._init(st, r, 0, ty, init)
            r.ro = const
            st.mem[rid] = r
            st.own.add(rid)
        return Ptr(rid, 0)

    def _init(self, st, r, off, ty, op):
        k = op[0]
        if k == 'zero' or k == 'undef':
            return
        if k == 'agg':
            for i, (t, o) in enumerate(op[1]):
                if ty.k == 'array':
                    self._init(st, r, off + i * ty_size(ty.el), t, o)
                else:
                    self._init(st, r, off + field_offset(ty, i), t, o)
            return
        if k == 'str':
            for i, b in enumerate(op[1]):
                r.c[off + i] = (1, b)
            return
        r.c[off] = (ty_size(ty), self.const(st, ty, op))

    def const(self, st, ty, op):
        k = op[0]
        if k == 'i':
            if ty.n == 1:
                return bool(op[1] & 1)
            return op[1] & ((1 << ty.n) - 1)
        if k == 'f':
            return op[1]
        if k == 'null':
            return NULL
        if k == 'g':
            return self.global_region(st, op[1])
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'agg':
            return [self.const(st, t, o) for t, o in op[1]]
        if k == 'gep':
            base = self.const(st, op[2][0][0], op[2][0][1])
            return self.gep(st, base, op[1], [(t, self.const(st, t, o)) for t, o in op[2][1:]])
        if k == 'cast':
            v = self.const(st, op[2], op[3])
            return self.cast(st, op[1], op[2], v, op[4])
        if k == 'cbin':
            a = self.const(st, op[2], op[3])
            b = self.const(st, op[2], op[4])
            return self.binop(st, op[1], op[2].n, a, b)
        raise Unsupported("constant " + k)

    def zero(self, ty):
        if ty.k == 'int':
            return False if ty.n == 1 else 0
        if ty.k in ('double', 'float'):
            return 0
        if ty.k == 'ptr':
            return NULL
        if ty.k == 'struct':
            return [self.zero(e) for e in ty.el]
        if ty.k == 'array':
            return [self.zero(ty.el) for _ in range(ty.n)]
        raise Unsupported("zero of %r" % ty)

    def gep(self, st, p, bt, idx):
        if not isinstance(p, Ptr):
            raise Unsupported("gep of non pointer")
        off = p.off
        t = bt
        for j, (it, iv) in enumerate(idx):
            if iv is UNDEF:
                iv = self.fresh(it.n)
            if j == 0:
                sc = ty_size(bt)
            elif t.k == 'struct':
                i = iv
                off = add(off, field_offset(t, i), 64)
                t = t.el[i]
                continue
            elif t.k in ('array', 'vec'):
                t = t.el
                sc = ty_size(t)
            else:
                raise Unsupported("gep")
            if isc(iv):
                iv = sgn(iv, it.n) & M64
                d = (iv * sc) & M64
            else:
                if it.n < 64:
                    iv = z3.SignExt(64 - it.n, iv)
                d = iv if sc == 1 else iv * z3.BitVecVal(sc, 64)
            off = add(off, d, 64)
        if not isc(off):
            off = simp(off)
        return Ptr(p.rid, off)

    def region(self, st, p, n, what):
        """checks that [p, p+n) is inside a live region; returns its store"""
        if not isinstance(p, Ptr):
            raise Unsupported("%s through a non pointer" % what)
        if p.rid is None:
            if isc(n) and n == 0:
                return None
            self.oblig(st, False if isc(n) else eq(n, 0, 64), "valid pointer", what)
            return None
        if p.rid.startswith('fn:'):
            raise Unsupported("data access to a function")
        r = st.mem.get(p.rid)
        if r is None:
            raise EngineError("no region " + p.rid)
        if r.dead:
            self.oblig(st, False, "no use after free", what)
            return None
        c = land(ule(n, r.size), ule(p.off, sub(r.size, n, 64)))
        self.oblig(st, c, "access inside its buffer", what)
        if st.stopped:
            return None
        return r

    def sym_cell(self, r, off, ty_n):
        nm = "%s@%s.%d" % (r.name, off, ty_n)
        return z3.Bool(nm) if ty_n == 1 else z3.BitVec(nm, ty_n)

    def load(self, st, p, ty):
        if ty.k == 'struct' or ty.k == 'array':
            out = []
            n = len(ty.el) if ty.k == 'struct' else ty.n
            for i in range(n):
                et = ty.el[i] if ty.k == 'struct' else ty.el
                o = field_offset(ty, i) if ty.k == 'struct' else i * ty_size(et)
                out.append(self.load(st, Ptr(p.rid, add(p.off, o, 64)), et))
                if st.stopped:
                    return None
            return out
        n = ty_size(ty)
        r = self.region(st, p, n, "load")
        if st.stopped:
            return None
        return self.load_raw(st, p, r, n, ty)

    def load_raw(self, st, p, r, n, ty):
        off = p.off
        if isinstance(r, Bytes):
            return self.from_bytes(r.arr, off, n, ty)
        if not isc(off):
            c = self.concretize(st, off)
            if c is None:
                r = self.to_bytes(st, p.rid)
                return self.from_bytes(r.arr, off, n, ty)
            off = c
        c = r.c.get(off)
        if c is not None and c[0] == n:
            return self.retype(st, c[1], ty)
        # collect overlapping cells
        ov = [(o, s, v) for o, (s, v) in r.c.items() if o < off + n and off < o + s]
        if not ov:
            if r.default == 'zero':
                return self.zero(ty)
            if r.default == 'sym' and ty.k != 'ptr':
                bits = 1 if (ty.k == 'int' and ty.n == 1) else n * 8
                v = self.sym_cell(r, off, bits)
                st.w(p.rid).c[off] = (n, v)
                return self.retype(st, v, ty)
            if r.default == 'sym':
                raise Unsupported("symbolic pointer load from " + r.name)
            return UNDEF
        if ty.k == 'ptr':
            raise Unsupported("partial pointer load")
        bs = []
        for k in range(n):
            bs.append(self.byte_of(st, p.rid, r, off + k))
        return self.retype(st, self.join(bs), ty)

    def byte_of(self, st, rid, r, off):
        for o, (s, v) in r.c.items():
            if o <= off < o + s:
                if isinstance(v, Ptr):
                    if v.rid is None and isc(v.off):
                        v = v.off
                    else:
                        raise Unsupported("byte of a pointer")
                if v is UNDEF:
                    v = self.fresh(s * 8, 'u')
                    st.w(rid).c[o] = (s, v)
                if isinstance(v, list):
                    raise Unsupported("byte of an aggregate")
                k = off - o
                if isc(v):
                    return (int(v) >> (8 * k)) & 255
                if z3.is_bool(v):
                    v = z3.If(v, z3.BitVecVal(1, 8 * s), z3.BitVecVal(0, 8 * s))
                if s == 1:
                    return v
                return simp(z3.Extract(8 * k + 7, 8 * k, v))
        if r.default == 'zero':
            return 0
        if r.default == 'sym':
            v = self.sym_cell(r, off, 8)
            st.w(rid).c[off] = (1, v)
            return v
        v = self.fresh(8, 'u')
        st.w(rid).c[off] = (1, v)
        return v

    def join(self, bs):
        if all(isc(b) for b in bs):
            v = 0
            for k, b in enumerate(bs):
                v |= b << (8 * k)
            return v
        if len(bs) == 1:
            return bs[0]
        return simp(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

    def from_bytes(self, arr, off, n, ty):
        if ty.k == 'ptr':
            raise Unsupported("pointer load from byte buffer")
        return self.retype(None, self.join([arr.sel(add(off, k, 64)) for k in range(n)]), ty)

    def retype(self, st, v, ty):
        if v is UNDEF:
            return UNDEF
        if ty.k == 'ptr':
            if isinstance(v, Ptr):
                return v
            if isc(v):
                return Ptr(None, v)
            raise Unsupported("integer loaded as pointer")
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        if ty.k == 'int':
            if ty.n == 1:
                if isc(v):
                    return bool(v & 1)
                if z3.is_bool(v):
                    return v
                return simp(z3.Extract(0, 0, v) == 1)
            w = ty_size(ty) * 8
            if isc(v):
                return int(v) & ((1 << ty.n) - 1)
            if z3.is_bool(v):
                return z3.If(v, z3.BitVecVal(1, ty.n), z3.BitVecVal(0, ty.n))
            if v.size() != ty.n:
                if v.size() > ty.n:
                    return simp(z3.Extract(ty.n - 1, 0, v))
                raise Unsupported("retype %d->%d" % (v.size(), ty.n))
        return v

    def ptr2int(self, p):
        if p.rid is None:
            return p.off
        a = z3.BitVec('addr_' + p.rid, 64)
        return add(a, p.off, 64)

    def store(self, st, p, ty, v):
        if ty.k in ('struct', 'array') and isinstance(v, list):
            for i, x in enumerate(v):
                et = ty.el[i] if ty.k == 'struct' else ty.el
                o = field_offset(ty, i) if ty.k == 'struct' else i * ty_size(et)
                self.store(st, Ptr(p.rid, add(p.off, o, 64)), et, x)
                if st.stopped:
                    return
            return
        n = ty_size(ty)
        r = self.region(st, p, n, "store")
        if st.stopped:
            return
        if r.ro:
            self.oblig(st, False, "no write to constant memory", "store")
            return
        self.store_raw(st, p, n, v)

    def store_raw(self, st, p, n, v):
        r = st.w(p.rid)
        off = p.off
        if isinstance(r, Cells) and not isc(off):
            c = self.concretize(st, off)
            if c is None:
                r = self.to_bytes(st, p.rid)
            else:
                off = c
        if isinstance(r, Bytes):
            if v is UNDEF:
                v = self.fresh(8 * n, 'u')
            if isinstance(v, Ptr):
                raise Unsupported("pointer stored in a byte buffer")
            if not isc(v) and z3.is_bool(v):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n))
            for k in range(n):
                b = (int(v) >> (8 * k)) & 255 if isc(v) else (
                    v if n == 1 else simp(z3.Extract(8 * k + 7, 8 * k, v)))
                r.arr = St(r.arr, add(off, k, 64), b)
            return
        self.cell_put(st, p.rid, r, off, n, v)

    def cell_put(self, st, rid, r, off, n, v):
        c = r.c.get(off)
        if c is None or c[0] != n:
            for o in [o for o, (s, _) in r.c.items() if o < off + n and off < o + s]:
                s, old = r.c[o]
                if o >= off and o + s <= off + n:
                    del r.c[o]
                    continue
                # partial overlap: split the old cell in bytes
                bs = [(o + k, self.byte_of(st, rid, r, o + k)) for k in range(s)]
                del r.c[o]
                for oo, b in bs:
                    if not (off <= oo < off + n):
                        r.c[oo] = (1, b)
        r.c[off] = (n, v)

    def to_bytes(self, st, rid):
        """turn a cell region into a byte array"""
        r = st.mem[rid]
        if isinstance(r, Bytes):
            return r
        if not isc(r.size) or r.size > 8192:
            raise Unsupported("symbolic offset in " + r.name)
        for o, (s, v) in r.c.items():
            if isinstance(v, (Ptr, list)):
                raise Unsupported("symbolic offset in structure " + r.name)
        if r.default == 'zero':
            arr = Const(b'\0' * r.size)
        else:
            arr = Base("mem_" + r.name)
        if all(isc(v) for (s, v) in r.c.values()) and r.default == 'zero':
            b = bytearray(r.size)
            for o, (s, v) in r.c.items():
                b[o:o + s] = int(v).to_bytes(s, 'little')
            arr = Const(bytes(b))
        else:
            for o, (s, v) in list(r.c.items()):
                for k in range(s):
                    arr = St(arr, o + k, self.byte_of(st, rid, st.mem[rid], o + k))
        nr = Bytes(arr, r.size, r.name)
        nr.ro = r.ro
        st.mem[rid] = nr
        st.own.add(rid)
        return nr

    def memcpy(self, st, d, s, n, what="memcpy"):
        if isc(n) and n == 0:
            return
        if not isc(n):
            c = self.concretize(st, n)
            if c is not None:
                n = c
                if n == 0:
                    return
        # a zero length copy is allowed through any pointer
        if not isc(n):
            for p in (d, s):
                if p.rid is None or (p.rid in st.mem and st.mem[p.rid].dead):
                    self.oblig(st, eq(n, 0, 64), "valid pointer", what)
                    return
        rs = self.region(st, s, n, what + " source")
        if st.stopped:
            return
        rd = self.region(st, d, n, what + " destination")
        if st.stopped:
            return
        if rd.ro:
            self.oblig(st, False, "no write to constant memory", what)
            return
        if isc(n) and isinstance(rd, Cells) and n <= 4096 and not (n > 64 and isinstance(rs, Bytes) and not rd.c):
            off = d.off if isc(d.off) else self.concretize(st, d.off)
            if off is not None:
                if isinstance(rs, Cells):
                    so = s.off if isc(s.off) else self.concretize(st, s.off)
                    if so is not None:
                        return self.copy_cells(st, d.rid, off, s.rid, so, n)
                bs = [rs.arr.sel(add(s.off, k, 64)) for k in range(n)] if isinstance(rs, Bytes) else None
                if bs is None:
                    rs = self.to_bytes(st, s.rid)
                    bs = [rs.arr.sel(add(s.off, k, 64)) for k in range(n)]
                w = st.w(d.rid)
                if n in (1, 2, 4, 8):
                    self.cell_put(st, d.rid, w, off, n, self.join(bs))
                else:
                    for k, b in enumerate(bs):
                        self.cell_put(st, d.rid, w, off + k, 1, b)
                return
        rs = self.to_bytes(st, s.rid)
        rd = self.to_bytes(st, d.rid)
        src = rs.arr
        w = st.w(d.rid)
        if isc(n) and n <= 16:
            bs = [src.sel(add(s.off, k, 64)) for k in range(n)]
            for k, b in enumerate(bs):
                w.arr = St(w.arr, add(d.off, k, 64), b)
        else:
            w.arr = MCpy(w.arr, d.off, n, src, s.off)

    def copy_cells(self, st, drid, doff, srid, soff, n):
        rs = st.mem[srid]
        moves = []
        covered = set()
        for o, (s, v) in rs.c.items():
            if soff <= o and o + s <= soff + n:
                moves.append((doff + o - soff, s, v))
                covered.update(range(o, o + s))
        for k in range(soff, soff + n):
            if k not in covered:
                hit = any(o <= k < o + s for o, (s, v) in rs.c.items())
                if hit:
                    moves.append((doff + k - soff, 1, self.byte_of(st, srid, st.mem[srid], k)))
                elif rs.default == 'zero':
                    moves.append((doff + k - soff, 1, 0))
                elif rs.default == 'sym':
                    moves.append((doff + k - soff, 1, self.byte_of(st, srid, st.mem[srid], k)))
        w = st.w(drid)
        # clear the destination range
        for o in [o for o, (s, _) in w.c.items() if o < doff + n and doff < o + s]:
            s, v = w.c[o]
            if o >= doff and o + s <= doff + n:
                del w.c[o]
            else:
                bs = [(o + k, self.byte_of(st, drid, w, o + k)) for k in range(s)]
                del w.c[o]
                for oo, b in bs:
                    if not (doff <= oo < doff + n):
                        w.c[oo] = (1, b)
        for o, s, v in moves:
            w.c[o] = (s, v)

    def memset(self, st, d, val, n, what="memset"):
        if isc(n) and n == 0:
            return
        if not isc(n):
            c = self.concretize(st, n)
            if c is not None:
                n = c
                if n == 0:
                    return
        if not isc(n) and (d.rid is None or (d.rid in st.mem and st.mem[d.rid].dead)):
            self.oblig(st, eq(n, 0, 64), "valid pointer", what)
            return
        rd = self.region(st, d, n, what + " destination")
        if st.stopped:
            return
        if rd.ro:
            self.oblig(st, False, "no write to constant memory", what)
            return
        if val is UNDEF:
            val = self.fresh(8, 'u')
        if isinstance(rd, Cells) and isc(n):
            off = d.off if isc(d.off) else self.concretize(st, d.off)
            if off is not None and isc(val) and val == 0:
                w = st.w(d.rid)
                if off == 0 and n == rd.size:
                    w.c = {}
                    w.default = 'zero'
                    return
                k = 0
                self.copy_zero(st, d.rid, off, n)
                return
            if off is not None and n <= 64:
                w = st.w(d.rid)
                for k in range(n):
                    self.cell_put(st, d.rid, w, off + k, 1, val)
                return
        self.to_bytes(st, d.rid)
        w = st.w(d.rid)
        w.arr = MSet(w.arr, d.off, n, val)

    def copy_zero(self, st, rid, off, n):
        w = st.w(rid)
        for o in [o for o, (s, _) in w.c.items() if o < off + n and off < o + s]:
            s, v = w.c[o]
            if o >= off and o + s <= off + n:
                del w.c[o]
            else:
                bs = [(o + k, self.byte_of(st, rid, w, o + k)) for k in range(s)]
                del w.c[o]
                for oo, b in bs:
                    if not (off <= oo < off + n):
                        w.c[oo] = (1, b)
        k = off
        end = off + n
        while k < end:
            s = 8 if k % 8 == 0 and k + 8 <= end else (4 if k % 4 == 0 and k + 4 <= end else 1)
            w.c[k] = (s, 0)
            k += s

    # ------------------------------------------------------------ scalars
    def val(self, st, fr, ty, op):
        if op[0] == 'l':
            try:
                return fr.loc[op[1]]
            except KeyError:
                raise EngineError("undefined local %s in %s" % (op[1], fr.fn.name))
        return self.const(st, ty, op)

    def num(self, st, v, n):
        if v is UNDEF:
            return self.fresh(n, 'u')
        if isinstance(v, Ptr):
            return self.ptr2int(v)
        return v

    def binop(self, st, op, n, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr) and a.rid == b.rid:
            return sub(a.off, b.off, 64)
        a = self.num(st, a, n)
        b = self.num(st, b, n)
        if n == 1:
            if op in ('and', 'mul'):
                return simp(land(a, b))
            if op == 'or':
                return simp(lor(a, b))
            if op in ('xor', 'add', 'sub'):
                if isc(a) and isc(b):
                    return bool(a) != bool(b)
                if isc(a):
                    a, b = b, a
                if isc(b):
                    return lnot(a) if b else a
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        msk = (1 << n) - 1
        if op == 'add':
            return add(a, b, n)
        if op == 'sub':
            return sub(a, b, n)
        if isc(a) and isc(b):
            if op == 'mul':
                return (a * b) & msk
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & msk if b < n else 0
            if op == 'lshr':
                return a >> b if b < n else 0
            if op == 'ashr':
                return (sgn(a, n) >> min(b, n - 1)) & msk
            if op in ('udiv', 'urem', 'sdiv', 'srem'):
                if b == 0:
                    self.oblig(st, False, "no division by zero")
                    return 0
                if op == 'udiv':
                    return a // b
                if op == 'urem':
                    return a % b
                x, y = sgn(a, n), sgn(b, n)
                q = abs(x) // abs(y)
                if (x < 0) != (y < 0):
                    q = -q
                return (q if op == 'sdiv' else x - q * y) & msk
        if isc(b):
            if op == 'mul' and b == 0 or op == 'and' and b == 0:
                return 0
            if op in ('mul', 'udiv', 'sdiv') and b == 1:
                return a
            if op in ('or', 'xor', 'shl', 'lshr', 'ashr') and b == 0:
                return a
            if op == 'and' and b == msk:
                return a
        if isc(a) and a == 0 and op in ('and', 'mul', 'shl', 'lshr', 'ashr'):
            return 0
        A, B = bv(a, n), bv(b, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            self.oblig(st, lnot(eq(B, 0, n)) if not isc(b) else b != 0, "no division by zero")
        r = {'mul': lambda: A * B, 'and': lambda: A & B, 'or': lambda: A | B,
             'xor': lambda: A ^ B, 'shl': lambda: A << B,
             'lshr': lambda: z3.LShR(A, B), 'ashr': lambda: A >> B,
             'udiv': lambda: z3.UDiv(A, B), 'urem': lambda: z3.URem(A, B),
             'sdiv': lambda: A / B, 'srem': lambda: z3.SRem(A, B)}[op]()
        return simp(r)

    def icmp(self, st, pred, ty, a, b):
        if ty.k == 'ptr' or isinstance(a, Ptr) or isinstance(b, Ptr):
            if a is UNDEF or b is UNDEF:
                return self.fresh(1, 'u')
            if not isinstance(a, Ptr):
                a = Ptr(None, a)
            if not isinstance(b, Ptr):
                b = Ptr(None, b)
            if a.rid == b.rid:
                a, b, n = a.off, b.off, 64
            else:
                if pred == 'eq':
                    return False
                if pred == 'ne':
                    return True
                a, b, n = self.ptr2int(a), self.ptr2int(b), 64
        else:
            n = ty.n
            a = self.num(st, a, n)
            b = self.num(st, b, n)
        if n == 1:
            if pred == 'eq' or pred == 'ne':
                if isc(a) and isc(b):
                    r = bool(a) == bool(b)
                elif isc(a) or isc(b):
                    if isc(a):
                        a, b = b, a
                    r = a if b else lnot(a)
                else:
                    r = simp(a == b)
                return r if pred == 'eq' else lnot(r)
            raise Unsupported("i1 icmp " + pred)
        if isc(a) and isc(b):
            if pred[0] == 's':
                a, b = sgn(a, n), sgn(b, n)
            p = pred[1:] if pred not in ('eq', 'ne') else pred
            return {'eq': a == b, 'ne': a != b, 'gt': a > b, 'ge': a >= b,
                    'lt': a < b, 'le': a <= b}[p]
        A, B = bv(a, n), bv(b, n)
        r = {'eq': lambda: A == B, 'ne': lambda: A != B,
             'ugt': lambda: z3.UGT(A, B), 'uge': lambda: z3.UGE(A, B),
             'ult': lambda: z3.ULT(A, B), 'ule': lambda: z3.ULE(A, B),
             'sgt': lambda: A > B, 'sge': lambda: A >= B,
             'slt': lambda: A < B, 'sle': lambda: A <= B}[pred]()
        r = simp(r)
        if st.quiet and not isc(r):
            self.cmp_of[r.get_id()] = (A, B, r)
        return r

    def cast(self, st, op, ty, v, t2):
        if v is UNDEF:
            if t2.k == 'ptr':
                return UNDEF
            v = self.fresh(64 if ty.k in ('double', 'ptr') else ty.n, 'u')
        if op in ('bitcast', 'addrspacecast'):
            return v
        if op == 'ptrtoint':
            if isinstance(v, Ptr) and t2.n == 64:
                return v
            raise Unsupported("ptrtoint")
        if op == 'inttoptr':
            return v if isinstance(v, Ptr) else (Ptr(None, v) if isc(v) else self._bad("inttoptr"))
        if isinstance(v, Ptr):
            v = self.ptr2int(v)
        if op == 'trunc':
            if t2.n == 1:
                if isc(v):
                    return bool(v & 1)
                return simp(z3.Extract(0, 0, v) == 1)
            if isc(v):
                return v & ((1 << t2.n) - 1)
            return simp(z3.Extract(t2.n - 1, 0, v))
        if op == 'zext':
            if ty.n == 1:
                if isc(v):
                    return int(v)
                return z3.If(v, z3.BitVecVal(1, t2.n), z3.BitVecVal(0, t2.n))
            return v if isc(v) else z3.ZeroExt(t2.n - ty.n, v)
        if op == 'sext':
            if ty.n == 1:
                m = (1 << t2.n) - 1
                if isc(v):
                    return m if v else 0
                return z3.If(v, z3.BitVecVal(m, t2.n), z3.BitVecVal(0, t2.n))
            return sgn(v, ty.n) & ((1 << t2.n) - 1) if isc(v) else z3.SignExt(t2.n - ty.n, v)
        return self.B.fcast(st, op, ty, v, t2)

    def _bad(self, m):
        raise Unsupported(m)

    # ------------------------------------------------------------ exploring
    def explore(self, states):
        """run states depth first; returns those that stopped for a reason
        (other than being dead)"""
        work = list(states)
        done = []
        while work:
            s = work.pop()
            if s.stopped:
                if s.stopped[0] != 'dead':
                    done.append(s)
                continue
            try:
                succ = self.run(s)
            except Unsupported as e:
                self.note_unsupported(s, str(e))
                continue
            for x in succ:
                if x.stopped:
                    if x.stopped[0] != 'dead':
                        done.append(x)
                else:
                    work.append(x)
        return done

    def note_unsupported(self, s, msg):
        k = "%s: %s" % (self.cur_fn(s), msg)
        if s.quiet:
            k = "(while generalising a loop) " + k
        if self.log and k not in self.unsupported:
            self.log("UNSUPPORTED " + k)
            self.log("   stack: " + " < ".join(self.short(f.fn.name) for f in reversed(s.frames)))
        self.unsupported[k] = self.unsupported.get(k, 0) + 1

    def run(self, st):
        """run one state until it forks or ends; returns successor states"""
        while True:
            if st.stopped:
                return [st]
            self.steps += 1
            if self.deadline and (self.steps & 255) == 0 and time.time() > self.deadline:
                raise EngineError("time budget exhausted")
            fr = st.frames[-1]
            ins = fr.fn.block(fr.block).ins[fr.ip]
            r = self.step(st, fr, ins)
            if r is not None:
                self.paths += max(0, len(r) - 1)
                if self.paths > self.max_paths:
                    raise EngineError("path budget exhausted")
                return r

    def setl(self, st, fr, ins, v):
        if ins.res is not None:
            fr.loc[ins.res] = v
        fr.ip += 1

    def step(self, st, fr, ins):
        op = ins.op
        if op == 'unsupported':
            raise Unsupported("%s: %s" % (ins.a, ins.raw[:80]))
        if op == 'load':
            p = self.val(st, fr, PTR, ins.a)
            if p is UNDEF:
                raise Unsupported("load through an undefined pointer")
            v = self.load(st, p, ins.ty)
            if not st.stopped:
                self.setl(st, fr, ins, v)
            return None
        if op == 'store':
            p = self.val(st, fr, PTR, ins.a[1])
            v = self.val(st, fr, ins.ty, ins.a[0])
            if p is UNDEF:
                raise Unsupported("store through an undefined pointer")
            self.store(st, p, ins.ty, v)
            fr.ip += 1
            return None
        if op == 'getelementptr':
            p = self.val(st, fr, PTR, ins.a[0][1])
            if p is UNDEF:
                self.setl(st, fr, ins, UNDEF)
                return None
            v = self.gep(st, p, ins.ty, [(t, self.val(st, fr, t, o)) for t, o in ins.a[1:]])
            self.setl(st, fr, ins, v)
            return None
        if op == 'icmp':
            pred, a, b = ins.a
            v = self.icmp(st, pred, ins.ty, self.val(st, fr, ins.ty, a), self.val(st, fr, ins.ty, b))
            self.setl(st, fr, ins, v)
            return None
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'udiv', 'sdiv', 'urem', 'srem'):
            v = self.binop(st, op, ins.ty.n, self.val(st, fr, ins.ty, ins.a[0]),
                           self.val(st, fr, ins.ty, ins.a[1]))
            self.setl(st, fr, ins, v)
            return None
        if op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast',
                  'fptosi', 'fptoui', 'sitofp', 'uitofp', 'fptrunc', 'fpext', 'addrspacecast'):
            t, o = ins.a
            self.setl(st, fr, ins, self.cast(st, op, t, self.val(st, fr, t, o), ins.ty))
            return None
        if op == 'br':
            if len(ins.a) == 1:
                return self.goto(st, fr, ins.a[0])
            c = self.val(st, fr, INT(1), ins.a[0])
            if c is UNDEF:
                c = self.fresh(1, 'u')
            c = simp(c)
            self.L.note_branch(st, fr, c, ins.a[1], ins.a[2])
            return self.branch(st, fr, [(c, ins.a[1]), (lnot(c), ins.a[2])])
        if op == 'switch':
            v = self.num(st, self.val(st, fr, ins.ty, ins.a[0]), ins.ty.n)
            n = ins.ty.n
            msk = (1 << n) - 1
            if isc(v):
                for k, b in ins.a[2]:
                    if (k & msk) == v:
                        return self.goto(st, fr, b)
                return self.goto(st, fr, ins.a[1])
            alts = {}
            for k, b in ins.a[2]:
                alts.setdefault(b, []).append(v == (k & msk))
            lst = [(lor(*cs), b) for b, cs in alts.items()]
            dflt = land(*[lnot(c) for cs in alts.values() for c in cs])
            if ins.a[1] in alts:
                lst = [(lor(c, dflt) if b == ins.a[1] else c, b) for c, b in lst]
            else:
                lst.append((dflt, ins.a[1]))
            return self.branch(st, fr, lst)
        if op == 'select':
            c, a, b = ins.a
            cv = self.val(st, fr, INT(1), c)
            if cv is UNDEF:
                cv = self.fresh(1, 'u')
            cv = st.canon(simp(cv))
            if not isc(cv):
                if cv.get_id() in st.pcids:
                    cv = True
                else:
                    nc = lnot(cv)
                    if isc(nc) or nc.get_id() in st.pcids:
                        cv = False
            av = self.val(st, fr, ins.ty, a)
            bv_ = self.val(st, fr, ins.ty, b)
            if isc(cv):
                self.setl(st, fr, ins, av if cv else bv_)
                return None
            if ins.ty.k == 'int' or ins.ty.k in ('double', 'float'):
                n = ins.ty.n if ins.ty.k == 'int' else (64 if ins.ty.k == 'double' else 32)
                if isinstance(av, Ptr) or isinstance(bv_, Ptr):
                    pass
                else:
                    av = self.num(st, av, n)
                    bv_ = self.num(st, bv_, n)
                    self.setl(st, fr, ins, ite(cv, av, bv_, None if n == 1 else n))
                    return None
            if isinstance(av, Ptr) and isinstance(bv_, Ptr) and av.rid == bv_.rid and \
                    not (isinstance(st.mem.get(av.rid), Cells) and isc(av.off) and isc(bv_.off) and av.off != bv_.off):
                self.setl(st, fr, ins, Ptr(av.rid, ite(cv, av.off, bv_.off, 64)))
                return None
            out = []
            for cond, v in ((cv, av), (lnot(cv), bv_)):
                if self.feasible(st, cond):
                    s2 = st.fork()
                    s2.assume(cond)
                    self.setl(s2, s2.frames[-1], ins, v)
                    out.append(s2)
            return out
        if op == 'alloca':
            n = self.val(st, fr, ins.a[0], ins.a[1])
            if not isc(n):
                raise Unsupported("variable length array")
            rid = self.new_region(st, 'cell', 'loc' + ins.res, ty_size(ins.ty) * n)
            fr.allocas.append(rid)
            self.setl(st, fr, ins, Ptr(rid, 0))
            return None
        if op in ('call', 'invoke'):
            return self.call(st, fr, ins)
        if op == 'ret':
            v = None
            if ins.ty is not VOID:
                v = self.val(st, fr, ins.ty, ins.a)
            return self.do_return(st, v)
        if op == 'extractvalue':
            v = self.val(st, fr, ins.ty, ins.a[0])
            for i in ins.a[2]:
                v = UNDEF if v is UNDEF else v[i]
            self.setl(st, fr, ins, v)
            return None
        if op == 'insertvalue':
            v = self.val(st, fr, ins.ty, ins.a[0])
            x = self.val(st, fr, ins.a[1][0], ins.a[1][1])

            def ins_(v, t, idx):
                if v is UNDEF:
                    v = [UNDEF] * (len(t.el) if t.k == 'struct' else t.n)
                v = list(v)
                i = idx[0]
                if len(idx) == 1:
                    v[i] = x
                else:
                    v[i] = ins_(v[i], t.el[i] if t.k == 'struct' else t.el, idx[1:])
                return v
            self.setl(st, fr, ins, ins_(v, ins.ty, ins.a[2]))
            return None
        if op == 'freeze':
            v = self.val(st, fr, ins.ty, ins.a)
            if v is UNDEF and ins.ty.k == 'int':
                v = self.fresh(ins.ty.n, 'u')
            self.setl(st, fr, ins, v)
            return None
        if op == 'unreachable':
            self.oblig(st, False, "unreachable code is not reached")
            st.stopped = ('dead',)
            return [st]
        if op == 'landingpad':
            return self.landingpad(st, fr, ins)
        if op == 'resume':
            v = self.val(st, fr, ins.ty, ins.a)
            return self.unwind(st, drop=True)
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fcmp', 'fneg'):
            self.setl(st, fr, ins, self.B.fop(st, fr, ins))
            return None
        if op == 'atomicrmw':
            what, a, v = ins.a
            p = self.val(st, fr, PTR, a)
            x = self.val(st, fr, ins.ty, v)
            old = self.load(st, p, ins.ty)
            if st.stopped:
                return None
            if what in ('add', 'sub', 'and', 'or', 'xor'):
                new = self.binop(st, what, ins.ty.n, old, x)
            elif what == 'xchg':
                new = x
            else:
                raise Unsupported('atomicrmw ' + what)
            self.store(st, p, ins.ty, new)
            self.setl(st, fr, ins, old)
            return None
        if op == 'fence':
            fr.ip += 1
            return None
        raise Unsupported("instruction " + op)

    def branch(self, st, fr, alts):
        live = []
        for c, b in alts:
            c = st.canon(c)
            if isc(c):
                if c:
                    live = [(c, b)]
                    break
            else:
                live.append((c, b))
        if len(live) == 1:
            c, b = live[0]
            st.assume(c)
            return self.goto(st, fr, b)
        feas = []
        for i, (c, b) in enumerate(live):
            if i == len(live) - 1 and not feas:
                feas.append((c, b))      # path conditions are kept satisfiable
            elif self.feasible(st, c):
                feas.append((c, b))
        if len(feas) == 1:
            st.assume(feas[0][0])
            return self.goto(st, fr, feas[0][1])
        out = []
        for i, (c, b) in enumerate(feas):
            s2 = st.fork()
            s2.assume(c)
            r = self.goto(s2, s2.frames[-1], b)
            out.extend([s2] if r is None else r)
        return out

    def goto(self, st, fr, target):
        """transfer control inside the frame; handles loops"""
        return self.L.goto(st, fr, target)

    def enter_block(self, st, fr, target, phivals=None):
        b = fr.fn.block(target)
        if phivals is None:
            phivals = self.phis(st, fr, target)
        fr.loc.update(phivals)
        fr.prev = fr.block
        fr.block = target
        fr.ip = 0

    def phis(self, st, fr, target):
        b = fr.fn.block(target)
        out = {}
        for ph in b.phis:
            o = ph.a[fr.block]
            out[ph.res] = self.val(st, fr, ph.ty, o)
        return out

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins):
        d = ins.a
        callee = d['callee']
        if callee[0] == 'g':
            name = self.mod.aliases.get(callee[1], callee[1])
        else:
            p = self.val(st, fr, PTR, callee)
            if p is UNDEF or not isinstance(p, Ptr) or p.rid is None or not p.rid.startswith('fn:'):
                raise Unsupported("indirect call through %s" % (p,))
            name = p.rid[3:]
        h = self.handler_cache.get(name)
        if isinstance(h, str):
            name, h = h, self.handler_cache.get(h)
        if h is None and self.unit is not None:
            # a callee by contract: the harness function written in its place
            to = self.unit.redirect(self.demn(name))
            if to:
                self.handler_cache[name] = name = '@' + to
                h = False
        if h is None:
            h = self.B.lookup(name)
            self.handler_cache[name] = h or False
        if h is None or h is False:
            fn = self.mod.functions.get(name)
            if fn is None or fn.decl:
                raise Unsupported("call to external function %s" % self.demn(name))
            args = [self.val(st, fr, t, o) if t.k != 'metadata' else None for t, o, a in d['args']]
            # byval copies
            for i, (t, o, at) in enumerate(d['args']):
                if 'byval' in at:
                    n = ty_size(at['byval'])
                    rid = self.new_region(st, 'cell', 'byval', n)
                    self.memcpy(st, Ptr(rid, 0), args[i], n)
                    args[i] = Ptr(rid, 0)
            if self.B.should_merge(name):
                return self.merged_call(st, fr, ins, fn, args)
            self.push(st, fn, args)
            return None
        args = [self.val(st, fr, t, o) if t.k != 'metadata' else None for t, o, a in d['args']]
        r = h(st, fr, ins, args)
        if isinstance(r, list):
            return r
        if st.stopped:
            return [st]
        return self.finish_call(st, r)

    def finish_call(self, st, v):
        """complete the call instruction the top frame is stopped at"""
        fr = st.frames[-1]
        ins = fr.fn.block(fr.block).ins[fr.ip]
        if ins.res is not None:
            fr.loc[ins.res] = v
        if ins.op == 'invoke':
            r = self.goto(st, fr, ins.a['normal'])
            return r
        fr.ip += 1
        return None

    def push(self, st, fn, args):
        if len(st.frames) > 120:
            raise Unsupported("call depth")
        self.fns_used.add(fn.name)
        f = Frame(fn)
        for (t, nm, at), v in zip(fn.params, args):
            f.loc[nm] = v
        f.block = fn.entry
        st.frames.append(f)
        return f

    def pop_frame(self, st):
        f = st.frames.pop()
        for rid in f.allocas:
            if rid in st.mem:
                del st.mem[rid]
                st.own.discard(rid)
        return f

    def do_return(self, st, v):
        stop = self.L.leaving_frame(st)
        if stop:
            return [st]
        f = self.pop_frame(st)
        if f.root is not None:
            st.stopped = ('root', f.root, v)
            return [st]
        if not st.frames:
            st.stopped = ('end', v)
            return [st]
        r = self.finish_call(st, v)
        return r

    def call_sub(self, st, fn, args):
        """run a function to completion; list of (state, kind, value)"""
        if isinstance(fn, str):
            f = self.mod.functions.get(fn)
            if f is None or f.decl:
                raise Unsupported("call to external function %s" % self.demn(fn))
            fn = f
        fr = self.push(st, fn, args)
        tag = object()
        fr.root = tag
        done = self.explore([st])
        out = []
        for s in done:
            if s.stopped[0] == 'root' and s.stopped[1] is tag:
                v = s.stopped[2]
                s.stopped = None
                out.append((s, 'ret', v))
            elif s.stopped[0] == 'rootexc' and s.stopped[1] is tag:
                s.stopped = None
                out.append((s, 'exc', None))
            else:
                raise EngineError("unexpected stop %r" % (s.stopped,))
        return out

    def merged_call(self, st, fr, ins, fn, args):
        base = st.fork()
        npc = len(base.pc)
        mem0 = dict(base.mem)
        res = self.call_sub(st.fork(), fn, args)
        ok = bool(res)
        for s, k, v in res:
            if k != 'ret' or v is None or isinstance(v, (Ptr, list)) or v is UNDEF:
                ok = False
                break
            for rid, r in s.mem.items():
                if rid in mem0 and mem0[rid] is not r and not self.L.store_same(base, s, rid):
                    ok = False
            if not ok:
                break
        if not ok:
            self.push(st, fn, args)
            return None
        ty = ins.ty
        val = res[-1][2]
        for s, k, v in res[:-1]:
            cond = land(*[e for e in s.pc if e.get_id() not in base.pcids]) if len(s.pc) > npc else True
            val = ite(cond, v, val, None if ty.n == 1 else ty.n)
        val = simp(val)
        # keep lazily created globals and symbolic cells
        for s, k, v in res:
            for rid, r in s.mem.items():
                if rid not in st.mem and (rid.startswith('g:')):
                    st.mem[rid] = r
        return self.finish_call(st, val)

    # ------------------------------------------------------------ exceptions
    def throw(self, st, obj, tinfo):
        st.exc = (obj, tinfo)
        return self.unwind(st, drop=False)

    def unwind(self, st, drop):
        """find the innermost enclosing invoke; drop: leave current frame first"""
        first = not drop
        while st.frames:
            fr = st.frames[-1]
            if first:
                # exception raised by the instruction the frame is at
                first = False
                ins = fr.fn.block(fr.block).ins[fr.ip]
                if ins.op == 'invoke':
                    r = self.goto(st, fr, ins.a['unwind'])
                    return [st] if r is None else r
            stop = self.L.leaving_frame(st)
            if stop:
                return [st]
            f = self.pop_frame(st)
            if f.root is not None:
                st.stopped = ('rootexc', f.root)
                return [st]
            if not st.frames:
                break
            first = True
        st.stopped = ('uncaught',)
        st.frames = []
        return [st]

    def tinfo_chain(self, st, name):
        out = [name]
        seen = 0
        while seen < 10:
            seen += 1
            g = self.mod.global_def(name)
            if g is None or g[1] is None or g[1][0] != 'agg':
                break
            els = g[1][1]
            if len(els) >= 3 and els[2][1][0] == 'g':
                name = els[2][1][1]
                out.append(name)
            else:
                break
        return out

    def sel_id(self, name):
        ids = self.uf.setdefault('__sel', {})
        return ids.setdefault(name, len(ids) + 1)

    def landingpad(self, st, fr, ins):
        cleanup, clauses = ins.a
        obj, ti = st.exc
        chain = self.tinfo_chain(st, ti)
        sel = None
        for k, o in clauses:
            if k == 'catch':
                if o[0] == 'null':
                    sel = self.sel_id('*')
                    break
                if o[0] == 'g' and o[1] in chain:
                    sel = self.sel_id(o[1])
                    break
            else:
                if o[0] == 'zero' or (o[0] == 'agg'):
                    sel = self.sel_id('filter')
                    break
        if sel is None:
            if not cleanup:
                return self.unwind(st, drop=True)
            sel = 0
        self.setl(st, fr, ins, [obj, sel])
        return None

    # ------------------------------------------------------------ top level
    def prove(self, name, budget_s=300):
        """run one proof function; returns number of completed paths"""
        fn = self.mod.functions['@' + name]
        st = State()
        self.push(st, fn, [])
        self.deadline = time.time() + budget_s
        self.paths = 0
        ends = 0
        try:
            done = self.explore([st])
        except EngineError as e:
            self.unsupported["%s: %s" % (name, e)] = 1
            if self.log:
                self.log("ENGINE %s: %s" % (name, e))
            return 0
        for s in done:
            if s.stopped[0] == 'end':
                ends += 1
            elif s.stopped[0] == 'uncaught':
                key = (name, 'exception escapes', '')
                o = self.obls.setdefault(key, Obl("%s: no exception escapes the proof" % name, name, 'exception'))
                o.n += 1
                r, m = self.smt.check(s.pc, [], full=True)
                if r != 'unsat':
                    o.failed += 1
                    o.detail = "exception %s escapes; %s" % (s.exc[1] if s.exc else '?', self.model_str(s, m))
        return ends
