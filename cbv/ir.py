"""Parser for the textual LLVM IR that clang-18 prints at -O0 (the subset the drivers need).

Nothing is dropped silently: an instruction that is not understood becomes an 'unsupported' instruction, and executing
it makes the verification of the function that contains it fail as out-of-reach.
"""
import re
import subprocess

TOK = re.compile(r'''
   "(?:[^"\\]|\\.)*"                                 # bare string
 | c"(?:[^"\\]|\\.)*"
 | [%@]"(?:[^"\\]|\\.)*"
 | [%@][-a-zA-Z$._0-9]+
 | ![-a-zA-Z$._0-9]*
 | \#\d+
 | -?\d+\.\d+(?:e[+-]?\d+)?
 | 0x[0-9A-Fa-f]+
 | -?\d+
 | \.\.\.
 | [a-zA-Z_$.][-a-zA-Z$._0-9]*
 | [()\[\]{}<>,=*:|]
''', re.X)


class Ty:
    __slots__ = ()


class TInt(Ty):
    __slots__ = ("w",)

    def __init__(self, w): self.w = w
    def __repr__(self): return "i%d" % self.w


class TPtr(Ty):
    def __repr__(self): return "ptr"


class TVoid(Ty):
    def __repr__(self): return "void"


class TOpaque(Ty):
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


class TNamed(Ty):
    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


class TStruct(Ty):
    def __init__(self, f, packed=False): self.f = f; self.packed = packed
    def __repr__(self): return "{%s}" % ", ".join(map(repr, self.f))


class TArr(Ty):
    def __init__(self, n, e): self.n = n; self.e = e
    def __repr__(self): return "[%d x %r]" % (self.n, self.e)


PTR = TPtr()
VOID = TVoid()


class Instr:
    __slots__ = ("op", "res", "a", "text", "line")

    def __init__(self, op, res, a, text, line=None):
        self.op, self.res, self.a, self.text, self.line = op, res, a, text, line


class Block:
    def __init__(self, name): self.name = name; self.ins = []; self.idx = 0


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, regname, attrs)
        self.ret = None
        self.blocks = {}
        self.entry = None
        self.nounwind = False
        self.dem = name
        self.variadic = False
        self.locals = {}
        self._loops = None

    def succs(self, b):
        t = self.blocks[b].ins[-1]
        if t.op == "br":
            return [t.a["to"]] if "to" in t.a else [t.a["t"], t.a["f"]]
        if t.op == "invoke":
            return [t.a["normal"], t.a["unwind"]]
        if t.op == "switch":
            return [t.a["default"]] + [x[1] for x in t.a["cases"]]
        return []

    def loops(self):
        """natural loops: header -> set of blocks.  (-O0 clang code is reducible.)"""
        if self._loops is not None:
            return self._loops
        names = list(self.blocks)
        order, seen = [], set()
        stack = [(self.entry, iter(self.succs(self.entry)))]
        seen.add(self.entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succs(s))))
                    break
            else:
                order.append(n)
                stack.pop()
        rpo = order[::-1]
        preds = {n: [] for n in rpo}
        for n in rpo:
            for s in self.succs(n):
                preds[s].append(n)
        dom = {n: set(rpo) for n in rpo}
        dom[self.entry] = {self.entry}
        ch = True
        while ch:
            ch = False
            for n in rpo:
                if n == self.entry:
                    continue
                d = set.intersection(*[dom[p] for p in preds[n]]) | {n}
                if d != dom[n]:
                    dom[n] = d
                    ch = True
        loops = {}
        for n in rpo:
            for s in self.succs(n):
                if s in dom[n]:
                    body = loops.setdefault(s, {s})
                    work = [n]
                    while work:
                        x = work.pop()
                        if x not in body:
                            body.add(x)
                            work += preds[x]
        self._loops = loops
        return loops


class P:
    """token cursor"""

    def __init__(self, text, mod):
        self.t = TOK.findall(text)
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ValueError("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        if x == "ptr":
            r = PTR
        elif re.fullmatch(r"i\d+", x):
            r = TInt(int(x[1:]))
        elif x == "void":
            r = VOID
        elif x[0] == "%":
            r = TNamed(x)
        elif x == "{":
            f = []
            while not self.accept("}"):
                f.append(self.type())
                self.accept(",")
            r = TStruct(f)
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            r = TArr(n, e)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                f = []
                while not self.accept("}"):
                    f.append(self.type())
                    self.accept(",")
                self.expect(">")
                r = TStruct(f, True)
            else:
                d = 1
                while d:
                    y = self.next()
                    d += (y == "<") - (y == ">")
                r = TOpaque("vector")
        else:
            r = TOpaque(x)
        while self.peek() == "(":   # function type
            d = 0
            while True:
                y = self.next()
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
            r = TOpaque("fn")
        return r

    ATTRS = {"noundef", "nonnull", "zeroext", "signext", "noalias", "nocapture", "writeonly", "readonly", "immarg",
             "dead_on_unwind", "writable", "returned", "inreg", "readnone", "nofree", "nest", "noreturn", "byval",
             "sret", "align", "dereferenceable", "dereferenceable_or_null", "allocptr", "nofpclass", "range", "captures"}

    def attrs(self):
        out = {}
        while self.peek() in self.ATTRS:
            a = self.next()
            out[a] = True
            if a == "align" and re.fullmatch(r"\d+", self.peek() or ""):
                self.next()
            elif self.peek() == "(":
                self.next()
                if a in ("sret", "byval"):
                    out[a] = self.type()
                    self.expect(")")
                else:
                    d = 1
                    while d:
                        y = self.next()
                        d += (y == "(") - (y == ")")
        return out

    def value(self, ty):
        x = self.next()
        if x[0] == "%":
            return ("reg", x)
        if x[0] == "@":
            return ("glob", x)
        if x == "null":
            return ("null",)
        if x in ("true", "false"):
            return ("int", 1 if x == "true" else 0)
        if re.fullmatch(r"-?\d+", x):
            return ("int", int(x))
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "zeroinitializer":
            return ("zero",)
        if x == "none":
            return ("undef",)
        if x in ("getelementptr", "ptrtoint", "inttoptr", "bitcast"):
            while self.peek() != "(":
                self.next()
            d = 0
            toks = []
            while True:
                y = self.next()
                toks.append(y)
                d += (y == "(") - (y == ")")
                if d == 0:
                    break
            return ("constexpr", x, toks)
        if x == "{":
            vals = []
            while not self.accept("}"):
                t = self.type()
                vals.append((t, self.value(t)))
                self.accept(",")
            return ("agg", vals)
        raise ValueError("value %s in %s" % (x, " ".join(self.t)))

    def tv(self):
        t = self.type()
        self.attrs()
        return t, self.value(t)


class Module:
    def __init__(self, text):
        self.types = {}
        self.funcs = {}
        self.decls = {}
        self.globals = {}
        self.md = {}
        self.parse(text)

    # ---- data layout
    def resolve(self, t):
        while isinstance(t, TNamed):
            t = self.types[t.n]
        return t

    def align(self, t):
        t = self.resolve(t)
        if isinstance(t, TInt):
            return max(1, min(16, (t.w + 7) // 8))
        if isinstance(t, TPtr):
            return 8
        if isinstance(t, TStruct):
            return 1 if t.packed else max([1] + [self.align(x) for x in t.f])
        if isinstance(t, TArr):
            return self.align(t.e)
        raise ValueError("align %r" % t)

    def size(self, t):
        t = self.resolve(t)
        if isinstance(t, TInt):
            n = (t.w + 7) // 8
            return n
        if isinstance(t, TPtr):
            return 8
        if isinstance(t, TStruct):
            o = 0
            for x in t.f:
                if not t.packed:
                    a = self.align(x)
                    o = (o + a - 1) // a * a
                o += self.size(x)
            a = self.align(t)
            return (o + a - 1) // a * a
        if isinstance(t, TArr):
            return t.n * self.size(t.e)
        raise ValueError("size %r" % t)

    def offset(self, t, i):
        t = self.resolve(t)
        if isinstance(t, TArr):
            return i * self.size(t.e), t.e
        o = 0
        for k, x in enumerate(t.f):
            if not t.packed:
                a = self.align(x)
                o = (o + a - 1) // a * a
            if k == i:
                return o, x
            o += self.size(x)
        raise ValueError("offset")

    # ---- parsing
    def parse(self, text):
        self.alias = {}
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                n, d = l.split(" = type ", 1)
                d = d.strip()
                self.types[n.strip()] = TOpaque("opaque") if d == "opaque" else P(d, self).type()
            elif l.startswith("@"):
                m = re.match(r'(@"[^"]*"|@[-a-zA-Z$._0-9]+) = (.*)', l)
                if m:
                    self.globals[m[1]] = m[2]
            elif l.startswith("declare "):
                f = self.header(l)
                self.decls[f.name] = f
            elif l.startswith("define "):
                f = self.header(l)
                i += 1
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                f.body = body
                self.funcs[f.name] = f
            elif l.startswith("!"):
                m = re.match(r"(!\d+) = (.*)", l)
                if m:
                    self.md[m[1]] = m[2]
            i += 1
        names = list(self.funcs) + list(self.decls)
        plain = [n[1:].strip('"') for n in names]
        out = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(plain) + "\n", stdout=subprocess.PIPE,
                             universal_newlines=True, check=True).stdout.split("\n")
        for n, d in self.globals.items():
            m = re.search(r"\balias .*, ptr (@\S+)$", d)
            if m and m[1] in self.funcs:
                self.alias[n] = m[1]
        for n, d in zip(names, out):
            (self.funcs.get(n) or self.decls[n]).dem = d
            if n in self.decls:
                self.decls[n].dem = d

    def header(self, l):
        p = P(re.sub(r"\s*\{\s*$", "", l), self)
        p.next()
        # skip linkage etc. until a type
        LINK = {"weak_odr", "linkonce_odr", "dso_local", "hidden", "internal", "private", "noundef", "available_externally",
                "zeroext", "signext", "nonnull", "noalias", "external", "linkonce", "weak", "unnamed_addr", "local_unnamed_addr",
                "protected", "default", "extern_weak", "dso_preemptable"}
        while True:
            x = p.peek()
            if x in LINK:
                p.next()
            elif x in P.ATTRS:
                p.attrs()
            else:
                break
        ret = p.type()
        name = p.next()
        f = Func(name)
        f.ret = ret
        p.expect("(")
        n = 0
        while not p.accept(")"):
            if p.accept("..."):
                f.variadic = True
                continue
            t = p.type()
            at = p.attrs()
            reg = None
            if p.peek() and p.peek()[0] == "%":
                reg = p.next()
            else:
                reg = "%%%d" % n
            f.params.append((t, reg, at))
            n += 1
            p.accept(",")
        rest = " ".join(p.t[p.i:])
        f.attrs_tail = rest
        f.body = None
        return f

    def materialize(self, f):
        """parse the body of f on first use"""
        if f.entry is not None or f.body is None:
            return f
        cur = None
        pending = ""
        firstname = "%%%d" % len(f.params)
        # clang prints no label for the entry block when it is unnamed; its number is the number of params
        body = []
        for l in f.body:
            s = l.split(" ; ")[0].rstrip() if not l.lstrip().startswith(";") else ""
            if not s.strip():
                continue
            m = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', s)
            if m and not l.startswith(" "):
                body.append(("label", "%" + m[1]))
                continue
            t = s.strip()
            # continuation lines
            if body and body[-1][0] == "ins" and (t.startswith("to label") or t.startswith("catch ") or t.startswith("cleanup")
                                                  or t.startswith("filter") or (body[-1][1].startswith("switch") and not body[-1][1].rstrip().endswith("]"))):
                body[-1] = ("ins", body[-1][1] + " " + t)
            else:
                body.append(("ins", t))
        for kind, t in body:
            if kind == "label":
                cur = Block(t)
                f.blocks[t] = cur
                if f.entry is None:
                    f.entry = t
                continue
            if cur is None:
                cur = Block(firstname)
                f.blocks[firstname] = cur
                f.entry = firstname
            if "dbg.declare" in t or t.startswith("#dbg_declare"):
                q = re.search(r"\(metadata ptr (%[-\w.$]+), metadata (!\d+)|\(ptr (%[-\w.$]+), (!\d+)", t)
                if q:
                    w = re.search(r'name: "(\w+)"', self.md.get(q[2] or q[4], ""))
                    if w:
                        f.locals.setdefault(w[1], q[1] or q[3])
            ins = self.instr(t)
            if ins is not None:
                cur.ins.append(ins)
        return f

    def dbgline(self, t):
        m = re.search(r"!dbg (!\d+)", t)
        if not m:
            return None
        d = self.md.get(m[1], "")
        k = re.search(r"line: (\d+)", d)
        return int(k[1]) if k else None

    def instr(self, t):
        line = self.dbgline(t)
        core = re.sub(r", ![a-zA-Z.]+ !\d+|, !dbg !\d+", "", t)
        try:
            return self.instr0(core, t, line)
        except (ValueError, IndexError, KeyError) as e:
            return Instr("unsupported", None, {"why": str(e)}, t, line)

    def instr0(self, core, text, line):
        if "@llvm.dbg." in core or core.startswith("#dbg"):
            return None
        p = P(core, self)
        res = None
        if p.peek(1) == "=":
            res = p.next()
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        a = {}
        mk = lambda: Instr(op, res, a, text, line)
        if op == "alloca":
            a["ty"] = p.type()
            return mk()
        if op == "load":
            p.accept("volatile")
            a["ty"] = p.type()
            p.expect(",")
            a["p"] = p.tv()[1]
            return mk()
        if op == "store":
            p.accept("volatile")
            a["ty"], a["v"] = p.tv()
            p.expect(",")
            a["p"] = p.tv()[1]
            return mk()
        if op == "getelementptr":
            a["inb"] = p.accept("inbounds")
            a["ty"] = p.type()
            p.expect(",")
            a["p"] = p.tv()[1]
            idx = []
            while p.accept(","):
                idx.append(p.tv())
            a["idx"] = idx
            return mk()
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
            fl = set()
            while p.peek() in ("nsw", "nuw", "exact", "disjoint"):
                fl.add(p.next())
            a["fl"] = fl
            a["ty"] = p.type()
            a["x"] = p.value(a["ty"])
            p.expect(",")
            a["y"] = p.value(a["ty"])
            return mk()
        if op == "icmp":
            a["pred"] = p.next()
            a["ty"] = p.type()
            a["x"] = p.value(a["ty"])
            p.expect(",")
            a["y"] = p.value(a["ty"])
            return mk()
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            a["ty"], a["v"] = p.tv()
            p.expect("to")
            a["to"] = p.type()
            return mk()
        if op == "freeze":
            a["ty"], a["v"] = p.tv()
            return mk()
        if op == "select":
            a["c"] = p.tv()
            p.expect(",")
            a["x"] = p.tv()
            p.expect(",")
            a["y"] = p.tv()
            return mk()
        if op == "phi":
            a["ty"] = p.type()
            inc = []
            while True:
                p.expect("[")
                v = p.value(a["ty"])
                p.expect(",")
                b = p.next()
                p.expect("]")
                inc.append((v, b))
                if not p.accept(","):
                    break
            a["inc"] = inc
            return mk()
        if op == "br":
            if p.peek() == "label":
                p.next()
                a["to"] = p.next()
            else:
                a["c"] = p.tv()[1]
                p.expect(",")
                p.expect("label")
                a["t"] = p.next()
                p.expect(",")
                p.expect("label")
                a["f"] = p.next()
            return mk()
        if op == "switch":
            a["ty"], a["v"] = p.tv()
            p.expect(",")
            p.expect("label")
            a["default"] = p.next()
            p.expect("[")
            cs = []
            while not p.accept("]"):
                t, v = p.tv()
                p.expect(",")
                p.expect("label")
                cs.append((v[1], p.next()))
            a["cases"] = cs
            return mk()
        if op == "ret":
            a["ty"] = p.type()
            a["v"] = None if isinstance(a["ty"], TVoid) else p.value(a["ty"])
            return mk()
        if op in ("call", "invoke"):
            while True:
                x = p.peek()
                if x in ("fastcc", "ccc", "coldcc"):
                    p.next()
                elif x in P.ATTRS:
                    p.attrs()
                else:
                    break
            a["ty"] = p.type()
            if p.peek() == "(":
                raise ValueError("fn type call")
            cal = p.next()
            a["callee"] = cal
            p.expect("(")
            args = []
            while not p.accept(")"):
                t = p.type()
                at = p.attrs()
                if isinstance(t, TOpaque) and t.n == "metadata":
                    return None
                args.append((t, p.value(t), at))
                p.accept(",")
            a["args"] = args
            if op == "invoke":
                while p.peek() != "to":
                    p.next()
                p.expect("to")
                p.expect("label")
                a["normal"] = p.next()
                p.expect("unwind")
                p.expect("label")
                a["unwind"] = p.next()
            return mk()
        if op == "extractvalue":
            a["ty"], a["v"] = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            a["idx"] = idx
            return mk()
        if op == "insertvalue":
            a["ty"], a["v"] = p.tv()
            p.expect(",")
            a["ety"], a["e"] = p.tv()
            idx = []
            while p.accept(","):
                idx.append(int(p.next()))
            a["idx"] = idx
            return mk()
        if op == "landingpad":
            a["catchall"] = bool(re.search(r"catch ptr null", core))
            a["cleanup"] = "cleanup" in core
            a["catches"] = re.findall(r"catch ptr (@\S+)", core)
            return mk()
        if op == "resume":
            return mk()
        if op == "unreachable":
            return mk()
        raise ValueError("op %s" % op)

    # ---- debug info: byte offset of the data members of a class
    def members(self, classname_re):
        """{member: byte offset} of the class whose DW name matches"""
        out = {}
        for k, d in self.md.items():
            if "!DICompositeType" in d and re.search(r'name: "%s"' % classname_re, d):
                m = re.search(r"elements: (!\d+)", d)
                if not m or m[1] not in self.md:
                    continue
                for e in re.findall(r"!\d+", self.md[m[1]]):
                    ed = self.md.get(e, "")
                    if "DW_TAG_member" in ed or "DW_TAG_inheritance" in ed:
                        n = re.search(r'name: "([^"]*)"', ed)
                        o = re.search(r"offset: (\d+)", ed)
                        if n and "DIFlagStaticMember" not in ed:
                            out[n[1]] = (int(o[1]) if o else 0) // 8
                if out:
                    return out
        return out
