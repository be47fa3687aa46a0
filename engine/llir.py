"""Parser for the textual LLVM IR that clang 18 emits from /repo's headers.

Only the subset clang produces at -O0 for this code base is accepted; anything
else raises Unsupported (the caller reports it as an extraction break)."""
import re, struct, subprocess


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "el", "name", "packed", "_sz", "_al", "_offs")

    def __init__(self, k, n=0, el=None, name=None, packed=False):
        self.k, self.n, self.el, self.name, self.packed = k, n, el, name, packed
        self._sz = self._al = self._offs = None

    def __repr__(self):
        if self.k == "i":
            return "i%d" % self.n
        if self.k == "arr":
            return "[%d x %r]" % (self.n, self.el)
        if self.k == "struct":
            return self.name or "{%s}" % ",".join(map(repr, self.el or []))
        return self.k


PTR = Ty("ptr")
VOID = Ty("void")
DOUBLE = Ty("double")
FLOAT = Ty("float")
FP80 = Ty("x86_fp80")
LABEL = Ty("label")
META = Ty("metadata")
_ints = {}


def IntTy(n):
    if n not in _ints:
        _ints[n] = Ty("i", n)
    return _ints[n]


def align_of(t):
    if t._al is None:
        if t.k == "i":
            b = (t.n + 7) // 8
            a = 1
            while a < b:
                a *= 2
            t._al = min(a, 16)
        elif t.k == "ptr" or t.k == "double":
            t._al = 8
        elif t.k == "float":
            t._al = 4
        elif t.k == "x86_fp80":
            t._al = 16
        elif t.k == "arr":
            t._al = align_of(t.el)
        elif t.k == "struct":
            t._al = 1 if t.packed else max([1] + [align_of(e) for e in (t.el or [])])
        else:
            raise Unsupported("align_of %r" % t)
    return t._al


def size_of(t):
    if t._sz is None:
        if t.k == "i":
            b = (t.n + 7) // 8
            a = align_of(t)
            t._sz = (b + a - 1) // a * a
        elif t.k == "ptr" or t.k == "double":
            t._sz = 8
        elif t.k == "float":
            t._sz = 4
        elif t.k == "x86_fp80":
            t._sz = 16
        elif t.k == "arr":
            t._sz = t.n * size_of(t.el)
        elif t.k == "struct":
            offs, o = [], 0
            for e in t.el or []:
                a = 1 if t.packed else align_of(e)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += size_of(e)
            a = align_of(t)
            t._offs = offs
            t._sz = (o + a - 1) // a * a
        else:
            raise Unsupported("size_of %r" % t)
    return t._sz


def field_off(t, i):
    size_of(t)
    return t._offs[i]


# ---------------------------------------------------------------- operands
class Op:
    """Operand: kind in local, global, int, fp, null, undef, zero, cstr, agg, gep, cast, bool"""
    __slots__ = ("k", "ty", "v", "args")

    def __init__(self, k, ty, v=None, args=None):
        self.k, self.ty, self.v, self.args = k, ty, v, args

    def __repr__(self):
        return "%s:%r" % (self.k, self.v)


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "text", "x")

    def __init__(self, op, res, ty=None, a=None, line=0, text="", x=None):
        self.op, self.res, self.ty, self.a, self.line, self.text, self.x = op, res, ty, a or [], line, text, x

    def __repr__(self):
        return self.text.strip()


class Block:
    def __init__(self, name):
        self.name, self.ins = name, []


class Func:
    def __init__(self, name):
        self.name = name
        self.params, self.blocks, self.order, self.ret = [], {}, [], VOID
        self.defined = False
        self.line = 0
        self.vararg = False
        self._raw = None
        self._mod = None
        self._loops = None

    def body(self):
        if self._raw is not None:
            self._mod._parse_body(self)
            self._raw = None
        return self

    # ---- CFG
    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == "br":
            return [x for x in t.x]
        if t.op == "switch":
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == "invoke":
            return [t.x["normal"], t.x["unwind"]]
        return []

    def loops(self):
        """header -> set of body blocks, from back edges (natural loops)."""
        if self._loops is not None:
            return self._loops
        self.body()
        entry = self.order[0]
        # iterative dominators
        preds = {b: [] for b in self.order}
        for b in self.order:
            for s in self.succs(b):
                preds[s].append(b)
        reach, st = set(), [entry]
        while st:
            b = st.pop()
            if b in reach:
                continue
            reach.add(b)
            st.extend(self.succs(b))
        dom = {b: set(reach) for b in reach}
        dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in self.order:
                if b not in reach or b == entry:
                    continue
                ps = [dom[p] for p in preds[b] if p in reach]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]:
                    dom[b] = nd
                    ch = True
        loops = {}
        for b in reach:
            for s in self.succs(b):
                if s in dom[b]:
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x in body:
                            continue
                        body.add(x)
                        stack.extend(p for p in preds[x] if p in reach)
        self._loops = loops
        return loops


TOK = re.compile(r'''\s*(?:
   (?P<str>c?"(?:[^"\\]|\\.)*")
  |(?P<loc>%(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
  |(?P<glo>@(?:"(?:[^"])*"|[-a-zA-Z$._0-9]+))
  |(?P<meta>!(?:"(?:[^"])*"|[-a-zA-Z$._0-9]*))
  |(?P<hash>\#\d+)
  |(?P<num>-?\d+\.\d+(?:e[-+]?\d+)?|0x[KLMHR]?[0-9A-Fa-f]+|-?\d+)
  |(?P<id>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
  |(?P<dots>\.\.\.)
  |(?P<p><\{|\}>|[()\[\]{},=*<>|:])
)''', re.X)

PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "noalias", "nocapture", "readonly", "writeonly", "readnone",
               "returned", "immarg", "dead_on_unwind", "writable", "inreg", "nofree", "allocalign", "allocptr",
               "swiftself", "nest", "byval", "sret", "align", "dereferenceable", "dereferenceable_or_null",
               "elementtype", "inalloca", "preallocated", "noinline", "swifterror"}
LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak",
           "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default",
           "unnamed_addr", "local_unnamed_addr", "thread_local", "dllimport", "dllexport", "externally_initialized"}


class Toks:
    def __init__(self, s):
        self.s = s
        self.t = []
        i, n = 0, len(s)
        while i < n:
            m = TOK.match(s, i)
            if not m:
                if s[i:].strip() == "":
                    break
                raise Unsupported("lex: %r" % s[i:i + 60])
            self.t.append((m.lastgroup, m.group(m.lastgroup)))
            i = m.end()
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def pk(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        r = self.t[self.i]
        self.i += 1
        return r

    def eat(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            raise Unsupported("expected %r at %r in %r" % (v, self.peek(), self.s[:200]))


def unq(n):
    n = n[1:]
    return n[1:-1] if n.startswith('"') else n


def decode_cstr(s):
    s = s[2:-1]
    out, i = bytearray(), 0
    while i < len(s):
        if s[i] == "\\" and s[i + 1] == "\\":
            out.append(92)
            i += 2
        elif s[i] == "\\":
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


class Module:
    def __init__(self, text):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.meta_line = {}
        self.di_lines = []
        self._di = None
        self.aliases = {}
        self._demangled = {}
        self._parse(text)

    # ---------------- types
    def type(self, tk):
        k, v = tk.next()
        if k == "id":
            if v[0] == "i" and v[1:].isdigit():
                t = IntTy(int(v[1:]))
            elif v == "ptr":
                t = PTR
            elif v == "void":
                t = VOID
            elif v == "double":
                t = DOUBLE
            elif v == "float":
                t = FLOAT
            elif v == "x86_fp80":
                t = FP80
            elif v == "label":
                t = LABEL
            elif v == "metadata":
                t = META
            elif v == "opaque":
                t = Ty("opaque")
            else:
                raise Unsupported("type %s" % v)
        elif k == "loc":
            n = unq(v)
            if n not in self.types:
                self.types[n] = Ty("struct", name=n)
            t = self.types[n]
        elif v == "[":
            n = int(tk.next()[1])
            tk.expect("x")
            el = self.type(tk)
            tk.expect("]")
            t = Ty("arr", n, el)
        elif v == "{" or v == "<{":
            el = []
            end = "}" if v == "{" else "}>"
            while not tk.eat(end):
                el.append(self.type(tk))
                tk.eat(",")
            t = Ty("struct", el=el, packed=(v != "{"))
        elif v == "<":
            raise Unsupported("vector type")
        else:
            raise Unsupported("type tok %r in %s" % (v, tk.s[:150]))
        if tk.peek() == "(" and False:
            pass
        return t

    # ---------------- operands
    def value(self, tk, ty):
        k, v = tk.next()
        if k == "loc":
            return Op("local", ty, unq(v))
        if k == "glo":
            return Op("global", ty, unq(v))
        if k == "num":
            if ty.k == "i":
                return Op("int", ty, int(v) & ((1 << ty.n) - 1))
            return Op("fp", ty, v)
        if k == "str" and v.startswith("c"):
            return Op("cstr", ty, decode_cstr(v))
        if k == "id":
            if v == "true":
                return Op("int", ty, 1)
            if v == "false":
                return Op("int", ty, 0)
            if v == "null":
                return Op("null", ty)
            if v in ("undef", "poison"):
                return Op("undef", ty)
            if v == "zeroinitializer":
                return Op("zero", ty)
            if v == "getelementptr":
                while tk.peek() in ("inbounds", "nuw", "nusw"):
                    tk.next()
                if tk.peek() == "inrange":
                    tk.next()
                tk.expect("(")
                bt = self.type(tk)
                tk.expect(",")
                args = []
                while True:
                    tk.eat("inrange")
                    t2 = self.type(tk)
                    args.append(self.value(tk, t2))
                    if not tk.eat(","):
                        break
                tk.expect(")")
                return Op("gep", ty, bt, args)
            if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "sext", "addrspacecast"):
                tk.expect("(")
                t2 = self.type(tk)
                a = self.value(tk, t2)
                tk.expect("to")
                self.type(tk)
                tk.expect(")")
                return Op("cast", ty, v, [a])
            if v in ("sub", "add", "mul", "and", "or", "xor"):
                while tk.peek() in ("nsw", "nuw"):
                    tk.next()
                tk.expect("(")
                t1 = self.type(tk)
                a = self.value(tk, t1)
                tk.expect(",")
                t2 = self.type(tk)
                b = self.value(tk, t2)
                tk.expect(")")
                return Op("cbin", ty, v, [a, b])
        if v in ("[", "{", "<{"):
            end = {"[": "]", "{": "}", "<{": "}>"}[v]
            args = []
            while not tk.eat(end):
                t2 = self.type(tk)
                args.append(self.value(tk, t2))
                tk.eat(",")
            return Op("agg", ty, None, args)
        if k == "meta":
            return Op("meta", ty, v)
        raise Unsupported("value %r of %r in %s" % (v, ty, tk.s[:200]))

    def attrs(self, tk):
        r = {}
        while tk.peek() in PARAM_ATTRS:
            a = tk.next()[1]
            if a in ("sret", "byval", "elementtype", "inalloca", "preallocated"):
                tk.expect("(")
                r[a] = self.type(tk)
                tk.expect(")")
            elif a in ("dereferenceable", "dereferenceable_or_null"):
                tk.expect("(")
                r[a] = int(tk.next()[1])
                tk.expect(")")
            elif a == "align":
                if tk.eat("("):
                    tk.next()
                    tk.expect(")")
                else:
                    tk.next()
            else:
                r[a] = True
        return r

    def tyval(self, tk):
        t = self.type(tk)
        self.attrs(tk)
        return self.value(tk, t)

    # ---------------- module
    def _parse(self, text):
        lines = text.split("\n")
        # first pass: types
        for l in lines:
            if l.startswith("%") and " = type " in l:
                m = re.match(r'%("(?:[^"]*)"|\S+) = type (.*)$', l)
                n = m.group(1).strip('"')
                rest = m.group(2)
                t = self.types.get(n) or Ty("struct", name=n)
                self.types[n] = t
                if rest.strip() == "opaque":
                    t.el = None
                    continue
                s = self.type(Toks(rest))
                t.el, t.packed, = s.el, s.packed
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("@"):
                self._global(l)
            elif l.startswith("declare"):
                self._header(l)
            elif l.startswith("define"):
                f = self._header(l)
                f.defined = True
                j = i + 1
                while lines[j] != "}":
                    j += 1
                f._raw = lines[i + 1:j]
                f._mod = self
                i = j
            elif l.startswith("!"):
                if "!DI" in l[:40] and ("DIComposite" in l or "DIDerived" in l or "DIEnumerator" in l):
                    self.di_lines.append(l)
                elif l.startswith("!") and " = !{" in l[:20]:
                    self.di_lines.append(l)
                m = re.match(r"!(\d+) = (?:distinct )?!DILocation\(line: (\d+)", l)
                if m:
                    self.meta_line[m.group(1)] = int(m.group(2))
            i += 1

    def _global(self, l):
        l = re.sub(r", !dbg !\d+", "", l)
        m = re.match(r'@("(?:[^"]*)"|\S+) = (.*)$', l)
        name = m.group(1).strip('"')
        rest = m.group(2)
        tk = Toks(rest)
        ext = False
        while tk.peek() in LINKAGE:
            v = tk.next()[1]
            if v in ("external", "extern_weak"):
                ext = True
            if v == "thread_local" and tk.eat("("):
                tk.next()
                tk.expect(")")
        kind = tk.next()[1]
        if kind == "alias":
            last = [v for k, v in tk.t if k == "glo"]
            v = last[-1]
            self.aliases[name] = unq(v)
            return
        const = kind == "constant"
        t = self.type(tk)
        init = None
        if not ext:
            init = self.value(tk, t)
        self.globals[name] = (t, init, const)

    def _header(self, l):
        l = re.sub(r"comdat(\(\$[^)]*\))?", "", l)
        l = re.sub(r"prefix .*$", "", l)
        m = re.search(r'@("(?:[^"]*)"|[-a-zA-Z$._0-9]+)\(', l)
        name = m.group(1).strip('"')
        pre = l[:m.start()].split(None, 1)[1] if " " in l[:m.start()].strip() else ""
        tk = Toks(pre)
        while tk.peek() in LINKAGE or tk.peek() in ("fastcc", "ccc"):
            tk.next()
        self.attrs(tk)
        ret = self.type(tk)
        # find params
        depth, i = 0, m.end() - 1
        inq = False
        j = i
        while j < len(l):
            c = l[j]
            if c == '"':
                inq = not inq
            elif not inq:
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        break
            j += 1
        ps = l[i + 1:j]
        f = Func(name)
        f.ret = ret
        tk = Toks(ps)
        idx = 0
        while tk.peek() is not None:
            if tk.eat("..."):
                f.vararg = True
                break
            t = self.type(tk)
            at = self.attrs(tk)
            pn = str(idx)
            if tk.pk()[0] == "loc":
                pn = unq(tk.next()[1])
            f.params.append((pn, t, at))
            idx += 1
            tk.eat(",")
        if name not in self.funcs or not self.funcs[name].defined:
            self.funcs[name] = f
        return self.funcs[name]

    # ---------------- bodies
    def _parse_body(self, f):
        cur = None
        anon = len([p for p in f.params if p[0].isdigit()])
        lines = f._raw
        i = 0
        while i < len(lines):
            l = lines[i]
            i += 1
            if not l.strip():
                continue
            if not l.startswith(" "):
                m = re.match(r'^("(?:[^"]*)"|[-a-zA-Z$._0-9]+):', l)
                n = m.group(1).strip('"')
                cur = Block(n)
                f.blocks[n] = cur
                f.order.append(n)
                continue
            if cur is None:
                cur = Block(str(len(f.params)))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            s = l.strip()
            if s.startswith("switch"):
                while "]" not in s:
                    s += " " + lines[i].strip()
                    i += 1
            if (" = invoke" in s or s.startswith("invoke")) and " unwind label" not in s:
                s += " " + lines[i].strip()
                i += 1
            if " = landingpad" in s:
                while i < len(lines) and re.match(r"\s+(cleanup|catch|filter)", lines[i]):
                    s += " " + lines[i].strip()
                    i += 1
            ins = self._ins(s)
            if ins is not None:
                cur.ins.append(ins)

    def _ins(self, s):
        line = 0
        m = re.search(r", !dbg !(\d+)", s)
        if m:
            line = self.meta_line.get(m.group(1), 0)
        raw = s
        s = re.sub(r",? ![a-zA-Z_.]+ ![0-9]+", "", s)
        s = re.sub(r",? ![a-zA-Z_.]+ !\{\}", "", s)
        if "@llvm.dbg." in s or "@llvm.lifetime" in s or "@llvm.experimental.noalias" in s:
            return None
        tk = Toks(s)
        res = None
        if tk.pk()[0] == "loc" and tk.peek(1) == "=":
            res = unq(tk.next()[1])
            tk.next()
        op = tk.next()[1]
        if op in ("tail", "musttail", "notail"):
            op = tk.next()[1]
        I = Ins(op, res, line=line, text=raw)
        if op == "alloca":
            I.ty = self.type(tk)
            if tk.eat(","):
                if tk.peek() != "align":
                    raise Unsupported("dynamic alloca")
            return I
        if op == "load":
            tk.eat("volatile")
            I.ty = self.type(tk)
            tk.expect(",")
            I.a = [self.tyval(tk)]
            return I
        if op == "store":
            tk.eat("volatile")
            v = self.tyval(tk)
            tk.expect(",")
            p = self.tyval(tk)
            I.a = [v, p]
            return I
        if op == "getelementptr":
            while tk.peek() in ("inbounds", "nuw", "nusw"):
                tk.next()
            I.ty = self.type(tk)
            while tk.eat(","):
                I.a.append(self.tyval(tk))
            return I
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor",
                  "fadd", "fsub", "fmul", "fdiv", "frem"):
            fl = []
            while tk.peek() in ("nsw", "nuw", "exact", "disjoint", "fast", "nnan", "ninf", "nsz", "arcp", "contract",
                                "afn", "reassoc"):
                fl.append(tk.next()[1])
            I.ty = self.type(tk)
            a = self.value(tk, I.ty)
            tk.expect(",")
            b = self.value(tk, I.ty)
            I.a = [a, b]
            I.x = fl
            return I
        if op == "fneg":
            I.ty = self.type(tk)
            I.a = [self.value(tk, I.ty)]
            return I
        if op in ("icmp", "fcmp"):
            while tk.peek() in ("fast", "nnan", "ninf", "nsz", "samesign"):
                tk.next()
            I.x = tk.next()[1]
            t = self.type(tk)
            a = self.value(tk, t)
            tk.expect(",")
            b = self.value(tk, t)
            I.a = [a, b]
            I.ty = IntTy(1)
            return I
        if op in ("trunc", "zext", "sext", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "ptrtoint",
                  "inttoptr", "bitcast"):
            while tk.peek() in ("nneg", "nuw", "nsw"):
                tk.next()
            a = self.tyval(tk)
            tk.expect("to")
            I.ty = self.type(tk)
            I.a = [a]
            return I
        if op == "select":
            c = self.tyval(tk)
            tk.expect(",")
            a = self.tyval(tk)
            tk.expect(",")
            b = self.tyval(tk)
            I.a = [c, a, b]
            I.ty = a.ty
            return I
        if op == "phi":
            I.ty = self.type(tk)
            I.x = []
            while True:
                tk.expect("[")
                v = self.value(tk, I.ty)
                tk.expect(",")
                b = unq(tk.next()[1])
                tk.expect("]")
                I.x.append((v, b))
                if not tk.eat(","):
                    break
            return I
        if op == "br":
            if tk.eat("label"):
                I.x = [unq(tk.next()[1])]
            else:
                I.a = [self.tyval(tk)]
                tk.expect(",")
                tk.expect("label")
                x = unq(tk.next()[1])
                tk.expect(",")
                tk.expect("label")
                I.x = [x, unq(tk.next()[1])]
            return I
        if op == "switch":
            I.a = [self.tyval(tk)]
            tk.expect(",")
            tk.expect("label")
            d = unq(tk.next()[1])
            tk.expect("[")
            cs = []
            while not tk.eat("]"):
                v = self.tyval(tk)
                tk.expect(",")
                tk.expect("label")
                cs.append((v.v, unq(tk.next()[1])))
            I.x = (d, cs)
            return I
        if op == "ret":
            if tk.peek() != "void":
                I.a = [self.tyval(tk)]
            return I
        if op == "unreachable":
            return I
        if op == "resume":
            I.a = [self.tyval(tk)]
            return I
        if op == "extractvalue":
            I.a = [self.tyval(tk)]
            I.x = []
            while tk.eat(","):
                I.x.append(int(tk.next()[1]))
            return I
        if op == "insertvalue":
            a = self.tyval(tk)
            tk.expect(",")
            b = self.tyval(tk)
            I.a = [a, b]
            I.x = []
            while tk.eat(","):
                I.x.append(int(tk.next()[1]))
            I.ty = a.ty
            return I
        if op == "landingpad":
            I.ty = self.type(tk)
            I.x = []
            while tk.peek() is not None:
                k = tk.next()[1]
                if k == "cleanup":
                    I.x.append(("cleanup", None))
                elif k in ("catch", "filter"):
                    I.x.append((k, self.tyval(tk)))
                else:
                    raise Unsupported("landingpad " + s)
            return I
        if op in ("call", "invoke"):
            while tk.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "fastcc", "ccc"):
                tk.next()
            self.attrs(tk)
            I.ty = self.type(tk)
            if tk.peek() == "(":  # function type for varargs
                d = 0
                while True:
                    v = tk.next()[1]
                    if v == "(":
                        d += 1
                    elif v == ")":
                        d -= 1
                        if d == 0:
                            break
            k, v = tk.next()
            if k == "loc":
                callee = Op("local", PTR, unq(v))
            elif k == "glo":
                callee = Op("global", PTR, unq(v))
            else:
                raise Unsupported("callee " + s)
            tk.expect("(")
            args = []
            while not tk.eat(")"):
                t = self.type(tk)
                at = self.attrs(tk)
                if t.k == "metadata":
                    tk.next()
                    args.append(Op("undef", t))
                else:
                    args.append(self.value(tk, t))
                tk.eat(",")
            I.a = args
            I.x = {"callee": callee}
            if op == "invoke":
                while tk.peek() != "to":
                    tk.next()
                tk.expect("to")
                tk.expect("label")
                I.x["normal"] = unq(tk.next()[1])
                tk.expect("unwind")
                tk.expect("label")
                I.x["unwind"] = unq(tk.next()[1])
            return I
        raise Unsupported("instruction: " + s)

    # ---------------- demangling
    def demangle_all(self):
        names = list(self.funcs)
        p = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
        out = p.stdout.split("\n")
        for n, d in zip(names, out):
            self._demangled[n] = canon(d)
        return self._demangled

    def dem(self, n):
        if not self._demangled:
            self.demangle_all()
        return self._demangled.get(n, n)

    # ---------------- debug info: field offsets and enumerators by name
    def di(self):
        if self._di is None:
            comp, memb, inh, enum, lists = {}, {}, {}, {}, {}
            names = {}
            for l in self.di_lines:
                m = re.match(r"!(\d+) = ", l)
                if not m:
                    continue
                i = m.group(1)
                def f(k):
                    r = re.search(r"\b%s: (?:\"([^\"]*)\"|!?([-\w]+))" % k, l)
                    return (r.group(1) if r.group(1) is not None else r.group(2)) if r else None
                if "DICompositeType" in l:
                    comp[i] = dict(name=f("name"), ident=f("identifier"), elements=f("elements"), size=int(f("size") or 0), tag=f("tag"))
                    names.setdefault(f("name"), []).append(i)
                elif "DW_TAG_member" in l:
                    memb.setdefault(f("scope"), []).append((f("name"), int(f("offset") or 0) // 8, int(f("size") or 0) // 8,
                                                            "DIFlagStaticMember" in l))
                elif "DW_TAG_inheritance" in l:
                    inh.setdefault(f("scope"), []).append((f("baseType"), int(f("offset") or 0) // 8))
                elif "DIEnumerator" in l:
                    enum[i] = (f("name"), int(f("value")))
                elif " = !{" in l:
                    lists[i] = re.findall(r"!(\d+)", l.split("{", 1)[1])
            self._di = (comp, memb, inh, enum, lists, names)
        return self._di

    def members(self, cls):
        """{field name: (byte offset, byte size)} of a class by its debug-info name, inherited fields included"""
        comp, memb, inh, enum, lists, names = self.di()
        out = {}

        def rec(i, base):
            for n, off, sz, st in memb.get(i, ()):
                if not st and n not in out:
                    out[n] = (base + off, sz)
            for b, off in inh.get(i, ()):
                rec(b, base + off)
        ids = [i for i in names.get(cls, ()) if i in memb or i in inh]
        if not ids:
            return None
        rec(ids[0], 0)
        return out

    def class_size(self, cls):
        comp, memb, inh, enum, lists, names = self.di()
        s = [comp[i]["size"] // 8 for i in names.get(cls, ()) if comp[i]["size"]]
        return s[0] if s else None

    def enum(self, name):
        comp, memb, inh, enum, lists, names = self.di()
        for i in names.get(name, ()):
            if comp[i]["tag"] == "DW_TAG_enumeration_type" and comp[i]["elements"]:
                return dict(enum[e] for e in lists[comp[i]["elements"]])
        raise Unsupported("enumeration %s not found" % name)

    def demg(self, n):
        if not hasattr(self, "_demg"):
            names = [g for g in self.globals if g.startswith("_Z")]
            p = subprocess.run(["llvm-cxxfilt"], input="\n".join(names), capture_output=True, text=True)
            self._demg = {a: canon(b) for a, b in zip(names, p.stdout.split("\n"))}
        return self._demg.get(n, n)

    def resolve(self, n):
        while n in self.aliases:
            n = self.aliases[n]
        return n


def canon(d):
    """one spelling for the standard stream and string types"""
    for ct in ("char", "wchar_t", "char16_t", "char32_t"):
        d = d.replace("std::__cxx11::basic_string<%s, std::char_traits<%s>, std::allocator<%s>>" % (ct, ct, ct),
                      "std::__cxx11::basic_string<%s>" % ct)
        if ct in ("char", "wchar_t"):
            w = "w" if ct == "wchar_t" else ""
            for k in ("istream", "ostream", "iostream", "ios", "streambuf"):
                d = d.replace("std::basic_%s<%s, std::char_traits<%s>>" % (k, ct, ct), "std::%s%s" % (w, k))
        else:
            for k in ("istream", "ostream", "iostream", "ios", "streambuf"):
                d = d.replace("std::basic_%s<%s, std::char_traits<%s>>" % (k, ct, ct), "std::basic_%s<%s>" % (k, ct))
    return d


if __name__ == "__main__":
    import sys, time, collections
    t = time.time()
    m = Module(open(sys.argv[1]).read())
    print("parsed", len(m.funcs), len(m.globals), time.time() - t)
    ops = collections.Counter()
    bad = 0
    for f in m.funcs.values():
        if f.defined:
            try:
                f.body()
                f.loops()
            except Unsupported as e:
                bad += 1
                print(f.name[:80], e)
            for b in f.blocks.values():
                for i in b.ins:
                    ops[i.op] += 1
    print(ops, bad, time.time() - t)
