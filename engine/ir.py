"""Parser for the textual LLVM 18 IR of the proof units.

Only the subset that clang emits for the proof units is understood; anything
else raises Unsupported when it is *executed* (not when it is parsed), so that
code that is merely present in the module does not matter.
"""
import re


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed", "_size", "_align")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed
        self._size = None
        self._align = None

    def __repr__(self):
        if self.k == "int":
            return "i%d" % self.n
        if self.k == "array":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ", ".join(map(repr, self.el or []))
        return self.k


VOID = Ty("void")
PTR = Ty("ptr")
DOUBLE = Ty("double")
FLOAT = Ty("float")
LABEL = Ty("label")
META = Ty("metadata")
TOKEN = Ty("token")
_ints = {}


def INT(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("int", n)
    return t


def ty_align(t):
    if t._align is None:
        if t.k == "int":
            a = 1
            while a * 8 < t.n and a < 16:
                a *= 2
            t._align = a
        elif t.k in ("ptr", "double"):
            t._align = 8
        elif t.k == "float":
            t._align = 4
        elif t.k == "fp80":
            t._align = 16
        elif t.k in ("array", "vec"):
            t._align = ty_align(t.el)
        elif t.k == "struct":
            t._align = 1 if t.packed else max([ty_align(e) for e in t.el] or [1])
        else:
            t._align = 1
    return t._align


def ty_size(t):
    if t._size is None:
        if t.k == "int":
            a = ty_align(t)
            t._size = max(a, ((t.n + 7) // 8 + a - 1) // a * a)
        elif t.k in ("ptr", "double"):
            t._size = 8
        elif t.k == "float":
            t._size = 4
        elif t.k == "fp80":
            t._size = 16
        elif t.k in ("array", "vec"):
            t._size = t.n * ty_size(t.el)
        elif t.k == "struct":
            if t.el is None:
                raise Unsupported("opaque type %r" % t)
            off = 0
            for e in t.el:
                if not t.packed:
                    a = ty_align(e)
                    off = (off + a - 1) // a * a
                off += ty_size(e)
            a = ty_align(t)
            t._size = (off + a - 1) // a * a
        else:
            t._size = 0
    return t._size


def field_offset(t, i):
    off = 0
    for j, e in enumerate(t.el):
        if not t.packed:
            a = ty_align(e)
            off = (off + a - 1) // a * a
        if j == i:
            return off
        off += ty_size(e)
    raise IndexError


# ---------------------------------------------------------------- values
# operand representation: tuples
#   ('l', name)            local
#   ('g', name)            global
#   ('i', int)             integer constant (raw, may be negative)
#   ('f', bits)            double constant as bits
#   ('null',) ('undef',) ('zero',) ('agg', [ (ty,op) ... ]) ('str', bytes)
#   ('gep', basety, [(ty,op)...])  constant expressions
#   ('cast', op, ty, operand)
#   ('meta',)

TOK = re.compile(r'''
   (?P<ws>[ \t]+)
 | (?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")
 | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<global>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<comdat>\$(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
 | (?P<str>"(?:[^"\\]|\\.)*")
 | (?P<meta>![-a-zA-Z$._0-9]*(?:"(?:[^"\\]|\\.)*")?)
 | (?P<attr>\#\d+)
 | (?P<num>-?\d+\.\d+(?:e[+-]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
 | (?P<dots>\.\.\.)
 | (?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
 | (?P<punct>[-=,()\[\]{}<>*:|])
''', re.X)


def tokenize(line):
    out = []
    i, n = 0, len(line)
    while i < n:
        c = line[i]
        if c == ';':
            break
        m = TOK.match(line, i)
        if not m:
            raise Unsupported("cannot tokenize: " + line[i:i + 40])
        k = m.lastgroup
        i = m.end()
        if k != 'ws':
            out.append((k, m.group()))
    return out


def unq(s):
    # %"name" -> %name
    if len(s) > 1 and s[1] == '"':
        return s[0] + s[2:-1]
    return s


PARAM_ATTRS = {
    "noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture",
    "readonly", "readnone", "writeonly", "returned", "immarg", "nofree", "nest",
    "swiftself", "swifterror", "dead_on_unwind", "writable", "allocalign",
    "allocptr", "noext"}
PARAM_ATTRS_ARG = {"align", "dereferenceable", "dereferenceable_or_null",
                   "byval", "sret", "byref", "elementtype", "inalloca",
                   "preallocated", "range", "nofpclass", "initializes"}
FAST = {"nuw", "nsw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz",
        "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "samesign"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, d=0):
        return self.t[self.i + d] if self.i + d < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, v):
        if self.i < len(self.t) and self.t[self.i][1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        x = self.next()
        if x[1] != v:
            raise Unsupported("expected %s got %s in %s" % (
                v, x[1], " ".join(y[1] for y in self.t)))

    def eof(self):
        return self.i >= len(self.t)

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'word':
            if v[0] == 'i' and v[1:].isdigit():
                t = INT(int(v[1:]))
            elif v == 'ptr':
                t = PTR
                if self.peek()[1] == 'addrspace':
                    raise Unsupported('addrspace')
            elif v == 'void':
                t = VOID
            elif v == 'double':
                t = DOUBLE
            elif v == 'float':
                t = FLOAT
            elif v == 'x86_fp80':
                t = Ty('fp80')
            elif v == 'label':
                t = LABEL
            elif v == 'metadata':
                t = META
            elif v == 'token':
                t = TOKEN
            elif v == 'opaque':
                t = Ty('struct', el=None, name='opaque')
            else:
                raise Unsupported("type " + v)
        elif k == 'local':
            t = self.mod.named(unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            el = self.type()
            self.expect(']')
            t = Ty('array', n=n, el=el)
        elif v == '{':
            els = []
            if not self.accept('}'):
                while True:
                    els.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            t = Ty('struct', el=els)
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                els = []
                if not self.accept('}'):
                    while True:
                        els.append(self.type())
                        if self.accept('}'):
                            break
                        self.expect(',')
                self.expect('>')
                t = Ty('struct', el=els, packed=True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                el = self.type()
                self.expect('>')
                t = Ty('vec', n=n, el=el)
        else:
            raise Unsupported("type token " + str(v))
        # function type  T (args)
        if self.peek()[1] == '(' and self._is_fnty():
            depth = 0
            while True:
                v = self.next()[1]
                if v == '(':
                    depth += 1
                elif v == ')':
                    depth -= 1
                    if depth == 0:
                        break
            t = Ty('fn', el=t)
        return t

    def _is_fnty(self):
        # in 'call T (args) @f(...)' the parens follow the type and are
        # followed by a callee; elsewhere a '(' never follows a type
        depth, j = 0, self.i
        while j < len(self.t):
            v = self.t[j][1]
            if v == '(':
                depth += 1
            elif v == ')':
                depth -= 1
                if depth == 0:
                    nx = self.t[j + 1] if j + 1 < len(self.t) else (None, None)
                    return nx[0] in ('local', 'global') or nx[1] == 'asm'
            j += 1
        return False

    def attrs(self):
        """skip parameter attributes; return dict of the interesting ones"""
        out = {}
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
                out[v] = True
            elif k == 'word' and v in PARAM_ATTRS_ARG:
                self.next()
                if self.peek()[1] == '(':
                    self.next()
                    if v in ('byval', 'sret', 'byref', 'elementtype'):
                        out[v] = self.type()
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()[1]
                            d += (x == '(') - (x == ')')
                elif v == 'align':
                    self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            elif k == 'attr':
                self.next()
            else:
                return out

    # -- operands
    def operand(self, ty):
        k, v = self.next()
        if k == 'local':
            return ('l', unq(v))
        if k == 'global':
            return ('g', unq(v))
        if k == 'num':
            if ty.k in ('double', 'float'):
                import struct
                if v.startswith('0x'):
                    b = int(v, 16)
                    if ty.k == 'float':
                        d = struct.unpack('<d', struct.pack('<Q', b))[0]
                        return ('f', struct.unpack('<I', struct.pack('<f', d))[0])
                    return ('f', b)
                if ty.k == 'float':
                    return ('f', struct.unpack('<I', struct.pack('<f', float(v)))[0])
                return ('f', struct.unpack('<Q', struct.pack('<d', float(v)))[0])
            if ty.k == 'fp80':
                return ('undef',)
            return ('i', int(v))
        if k == 'cstr':
            s = v[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    b.append(int(s[i + 1:i + 3], 16))
                    i += 3
                else:
                    b.append(ord(s[i]))
                    i += 1
            return ('str', bytes(b))
        if v == 'true':
            return ('i', 1)
        if v == 'false':
            return ('i', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if v == 'none':
            return ('null',)
        if v in ('getelementptr',):
            self.accept('inbounds')
            self.accept('nuw')
            if self.peek()[1] == 'inrange':
                d = 0
                while True:
                    x = self.next()[1]
                    d += (x == '(') - (x == ')')
                    if x == ')' and d == 0:
                        break
            self.expect('(')
            bt = self.type()
            ops = []
            while self.accept(','):
                self.accept('inrange')
                t = self.type()
                ops.append((t, self.operand(t)))
            self.expect(')')
            return ('gep', bt, ops)
        if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext',
                 'addrspacecast'):
            self.expect('(')
            t = self.type()
            o = self.operand(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cast', v, t, o, t2)
        if v in ('add', 'sub', 'xor', 'mul'):
            while self.peek()[1] in FAST:
                self.next()
            self.expect('(')
            t = self.type()
            a = self.operand(t)
            self.expect(',')
            t2 = self.type()
            b = self.operand(t2)
            self.expect(')')
            return ('cbin', v, t, a, b)
        if v in ('{', '[', '<'):
            packed = False
            close = {'{': '}', '[': ']', '<': '>'}[v]
            if v == '<' and self.peek()[1] == '{':
                self.next()
                packed = True
                close = '}'
            els = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    els.append((t, self.operand(t)))
                    if self.accept(close):
                        break
                    self.expect(',')
            if packed:
                self.expect('>')
            return ('agg', els)
        if k == 'meta':
            return ('meta',)
        raise Unsupported("operand %s %s" % (k, v))

    def tv(self):
        t = self.type()
        if t is META:
            # consume until ',' or ')' at depth 0
            d = 0
            while True:
                v = self.peek()[1]
                if v is None or (d == 0 and v in (',', ')')):
                    break
                d += v in ('(', '{', '[')
                d -= v in (')', '}', ']')
                self.next()
            return t, ('meta',)
        self.attrs()
        return t, self.operand(t)


class Instr:
    __slots__ = ("op", "res", "ty", "a", "raw", "line", "dbg")

    def __init__(self, op, res, raw):
        self.op, self.res, self.raw = op, res, raw
        self.ty = None
        self.a = None


class Block:
    __slots__ = ("name", "ins", "phis", "lazy")

    def __init__(self, name):
        self.name = name
        self.lazy = []
        self.ins = None
        self.phis = None


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []      # (ty, name, attrs)
        self.ret = None
        self.blocks = {}
        self.entry = None
        self.parsed = False
        self.mod = None
        self.decl = True
        self.vararg = False
        self._loops = None

    def block(self, name):
        b = self.blocks[name]
        if b.ins is None:
            self.mod.parse_block(self, b)
        return b

    def succs(self, name):
        b = self.block(name)
        t = b.ins[-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[1]] + [x[1] for x in t.a[2]]
        if t.op == 'invoke':
            return [t.a['normal'], t.a['unwind']]
        return []

    def loops(self):
        """natural loops: header -> set of blocks (via dominators)"""
        if self._loops is not None:
            return self._loops
        order = []
        seen = set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        order.reverse()
        idx = {n: i for i, n in enumerate(order)}
        preds = {n: [] for n in order}
        for n in order:
            for s in self.succs(n):
                preds[s].append(n)
        idom = {self.entry: self.entry}
        changed = True
        while changed:
            changed = False
            for n in order[1:]:
                new = None
                for p in preds[n]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            a, b = p, new
                            while a != b:
                                while idx[a] > idx[b]:
                                    a = idom[a]
                                while idx[b] > idx[a]:
                                    b = idom[b]
                            new = a
                if idom.get(n) != new:
                    idom[n] = new
                    changed = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for n in order:
            for s in self.succs(n):
                if s in idx and dom(s, n):
                    body = loops.setdefault(s, {s})
                    st = [n]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(preds[x])
        self._loops = loops
        return loops


class Module:
    def __init__(self, text):
        self.types = {}
        self.type_src = {}
        self.globals = {}      # name -> (ty, init operand or None, const)
        self.gsrc = {}
        self.functions = {}
        self.aliases = {}
        self._parse(text)

    def named(self, name):
        t = self.types.get(name)
        if t is None:
            t = Ty('struct', el=None, name=name)
            self.types[name] = t
            src = self.type_src.get(name)
            if src is not None:
                p = P(tokenize(src), self)
                if p.peek()[1] != 'opaque':
                    x = p.type()
                    t.k, t.el, t.n, t.packed = x.k, x.el, x.n, x.packed
        return t

    def _parse(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            ln = lines[i]
            i += 1
            if not ln:
                continue
            c = ln[0]
            if c == '%':
                m = re.match(r'(%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+) = type (.*)', ln)
                if m:
                    self.type_src[unq(m.group(1))] = m.group(2)
            elif c == '@':
                m = re.match(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+) = (.*)', ln)
                if m:
                    if re.search(r'\balias\b', m.group(2).split('@')[0]):
                        a = re.findall(r'@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+', m.group(2))
                        self.aliases[unq(m.group(1))] = unq(a[-1])
                    else:
                        self.gsrc[unq(m.group(1))] = m.group(2)
            elif ln.startswith('define'):
                f = self._header(ln)
                f.decl = False
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                self._body(f, body)
                self.functions[f.name] = f
            elif ln.startswith('declare'):
                try:
                    f = self._header(ln)
                    self.functions.setdefault(f.name, f)
                except Unsupported:
                    pass

    def _header(self, ln):
        m = re.search(r'(@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)\(', ln)
        f = Function(unq(m.group(1)))
        f.mod = self
        f.hdr = ln
        # parameters
        j = m.end()
        depth = 1
        k = j
        instr = False
        while depth:
            c = ln[k]
            if c == '"':
                instr = not instr
            elif not instr:
                depth += (c == '(') - (c == ')')
            k += 1
        p = P(tokenize(ln[j:k - 1]), self)
        nparam = 0
        while not p.eof():
            if p.peek()[0] == 'dots':
                p.next()
                f.vararg = True
                break
            t = p.type()
            at = p.attrs()
            if p.peek()[0] == 'local':
                nm = unq(p.next()[1])
            else:
                nm = '%%%d' % nparam
            f.params.append((t, nm, at))
            nparam += 1
            p.accept(',')
        # return type: last type before the name
        pre = P(tokenize(ln[:m.start()]), self)
        toks = pre.t
        # find a suffix that parses completely as a type
        for s in range(len(toks) - 1, -1, -1):
            q = P(toks[s:], self)
            try:
                t = q.type()
                if q.eof():
                    f.ret = t
                    break
            except (Unsupported, IndexError, ValueError):
                pass
        f.noexcept = ' nounwind ' in ln
        mm = re.search(r'comdat', ln)
        f.attrgrp = re.findall(r'#(\d+)', ln[k:])
        return f

    def _body(self, f, body):
        cur = None
        i = 0
        first = True
        while i < len(body):
            ln = body[i]
            i += 1
            if not ln.strip():
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                nm = m.group(1)
                if nm[0] == '"':
                    nm = nm[1:-1]
                cur = Block('%' + nm)
                f.blocks[cur.name] = cur
                if first:
                    f.entry = cur.name
                    first = False
                continue
            if cur is None:
                cur = Block('%%%d' % len(f.params))
                f.blocks[cur.name] = cur
                f.entry = cur.name
                first = False
            s = ln.strip()
            # continuation lines
            if s.startswith('switch') and s.endswith('['):
                while not body[i].strip().startswith(']'):
                    s += ' ' + body[i].strip()
                    i += 1
                s += ' ]'
                i += 1
            elif ' landingpad ' in ' ' + s or (re.match(r'%\S+ = landingpad', s)):
                while i < len(body) and re.match(r'\s+(cleanup|catch|filter)', body[i]):
                    s += ' ' + body[i].strip()
                    i += 1
            elif re.match(r'(%\S+ = )?invoke ', s) or ' invoke ' in s.split('(')[0]:
                if ' unwind label ' not in s:
                    s += ' ' + body[i].strip()
                    i += 1
            cur.lazy.append(s)

    def parse_block(self, f, b):
        b.ins = []
        b.phis = []
        for s in b.lazy:
            ins = self._instr(s)
            if ins.op == 'phi':
                b.phis.append(ins)
            else:
                b.ins.append(ins)

    def _instr(self, s):
        p = P(tokenize(s), self)
        res = None
        if p.peek()[0] == 'local' and p.peek(1)[1] == '=':
            res = unq(p.next()[1])
            p.next()
        op = p.next()[1]
        if op in ('tail', 'musttail', 'notail'):
            op = p.next()[1]
        ins = Instr(op, res, s)
        try:
            self._instr2(p, ins, op)
        except (Unsupported, IndexError, ValueError) as e:
            ins.op = 'unsupported'
            ins.a = str(e)
        return ins

    def _instr2(self, p, ins, op):
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'udiv', 'sdiv', 'urem', 'srem', 'fadd', 'fsub', 'fmul', 'fdiv',
                  'frem'):
            while p.peek()[1] in FAST:
                p.next()
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            ins.ty, ins.a = t, (a, b)
        elif op == 'fneg':
            while p.peek()[1] in FAST:
                p.next()
            t, a = p.tv()
            ins.ty, ins.a = t, (a,)
        elif op in ('icmp', 'fcmp'):
            while p.peek()[1] in FAST:
                p.next()
            pred = p.next()[1]
            t = p.type()
            a = p.operand(t)
            p.expect(',')
            b = p.operand(t)
            ins.ty, ins.a = t, (pred, a, b)
        elif op == 'select':
            while p.peek()[1] in FAST:
                p.next()
            _, c = p.tv()
            p.expect(',')
            t, a = p.tv()
            p.expect(',')
            _, b = p.tv()
            ins.ty, ins.a = t, (c, a, b)
        elif op == 'phi':
            while p.peek()[1] in FAST:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.operand(t)
                p.expect(',')
                lab = unq(p.next()[1])
                p.expect(']')
                inc[lab] = v
                if not p.accept(','):
                    break
            ins.ty, ins.a = t, inc
        elif op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = (INT(32), ('i', 1))
            while p.accept(','):
                if p.peek()[1] == 'align':
                    p.next()
                    p.next()
                elif p.peek()[0] == 'meta':
                    break
                else:
                    n = p.tv()
            ins.ty, ins.a = t, n
        elif op == 'load':
            p.accept('atomic')
            p.accept('volatile')
            t = p.type()
            p.expect(',')
            _, a = p.tv()
            ins.ty, ins.a = t, a
        elif op == 'store':
            p.accept('atomic')
            p.accept('volatile')
            t, v = p.tv()
            p.expect(',')
            _, a = p.tv()
            ins.ty, ins.a = t, (v, a)
        elif op == 'getelementptr':
            while p.peek()[1] in FAST:
                p.next()
            bt = p.type()
            ops = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                ops.append(p.tv())
            ins.ty, ins.a = bt, ops
        elif op in ('trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi',
                    'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast',
                    'addrspacecast'):
            while p.peek()[1] in FAST:
                p.next()
            t, v = p.tv()
            p.expect('to')
            ins.ty, ins.a = p.type(), (t, v)
        elif op == 'freeze':
            t, v = p.tv()
            ins.ty, ins.a = t, v
        elif op == 'br':
            if p.peek()[1] == 'label':
                p.next()
                ins.a = [unq(p.next()[1])]
            else:
                _, c = p.tv()
                p.expect(',')
                p.expect('label')
                a = unq(p.next()[1])
                p.expect(',')
                p.expect('label')
                b = unq(p.next()[1])
                ins.a = [c, a, b]
        elif op == 'switch':
            t, v = p.tv()
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cs = []
            while not p.accept(']'):
                t2, c = p.tv()
                p.expect(',')
                p.expect('label')
                cs.append((c[1], unq(p.next()[1])))
            ins.ty, ins.a = t, (v, d, cs)
        elif op == 'ret':
            if p.peek()[1] == 'void':
                ins.ty, ins.a = VOID, None
            else:
                t, v = p.tv()
                ins.ty, ins.a = t, v
        elif op == 'unreachable':
            pass
        elif op == 'resume':
            t, v = p.tv()
            ins.ty, ins.a = t, v
        elif op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while not p.eof():
                k, v = p.next()
                if v == 'cleanup':
                    cleanup = True
                elif v == 'catch':
                    clauses.append(('catch', p.tv()[1]))
                elif v == 'filter':
                    t2, o = p.tv()
                    clauses.append(('filter', o))
                else:
                    raise Unsupported('landingpad')
            ins.ty, ins.a = t, (cleanup, clauses)
        elif op in ('extractvalue', 'insertvalue'):
            t, v = p.tv()
            x = None
            if op == 'insertvalue':
                p.expect(',')
                x = p.tv()
            idx = []
            while p.accept(','):
                if p.peek()[0] == 'meta':
                    break
                idx.append(int(p.next()[1]))
            ins.ty, ins.a = t, (v, x, idx)
        elif op in ('call', 'invoke'):
            while p.peek()[1] in FAST:
                p.next()
            # calling convention / ret attrs
            while True:
                k, v = p.peek()
                if k == 'word' and v in ('fastcc', 'coldcc', 'ccc'):
                    p.next()
                elif k == 'word' and (v in PARAM_ATTRS or v in PARAM_ATTRS_ARG):
                    p.attrs()
                else:
                    break
            rt = p.type()
            if rt.k == 'fn':
                rt = rt.el
            if p.peek()[1] == 'asm':
                raise Unsupported('asm')
            callee = p.operand(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    t = p.type()
                    if t is META:
                        d = 0
                        while True:
                            v = p.peek()[1]
                            if v is None or (d == 0 and v in (',', ')')):
                                break
                            d += v in ('(', '{', '[')
                            d -= v in (')', '}', ']')
                            p.next()
                        args.append((t, ('meta',), {}))
                    else:
                        at = p.attrs()
                        args.append((t, p.operand(t), at))
                    if p.accept(')'):
                        break
                    p.expect(',')
            d = {'callee': callee, 'args': args}
            # skip attribute groups / bundles
            if op == 'invoke':
                while p.peek()[1] != 'to':
                    p.next()
                p.expect('to')
                p.expect('label')
                d['normal'] = unq(p.next()[1])
                p.expect('unwind')
                p.expect('label')
                d['unwind'] = unq(p.next()[1])
            ins.ty, ins.a = rt, d
        elif op == 'atomicrmw':
            p.accept('volatile')
            what = p.next()[1]
            _, a = p.tv()
            p.expect(',')
            t, v = p.tv()
            ins.ty, ins.a = t, (what, a, v)
        elif op == 'cmpxchg':
            while p.peek()[1] in ('weak', 'volatile'):
                p.next()
            _, a = p.tv()
            p.expect(',')
            t, c = p.tv()
            p.expect(',')
            _, v = p.tv()
            ins.ty, ins.a = t, (a, c, v)
        elif op == 'fence':
            pass
        else:
            raise Unsupported('instruction ' + op)

    def global_def(self, name):
        """-> (ty, init|None, is_const)"""
        g = self.globals.get(name)
        if g is None:
            src = self.gsrc.get(name)
            if src is None:
                return None
            toks = tokenize(src)
            i = 0
            ext = False
            while toks[i][1] not in ('global', 'constant'):
                if toks[i][1] in ('external', 'extern_weak'):
                    ext = True
                i += 1
            const = toks[i][1] == 'constant'
            p = P(toks[i + 1:], self)
            t = p.type()
            init = None
            if not ext:
                init = p.operand(t)
            g = self.globals[name] = (t, init, const)
        return g
