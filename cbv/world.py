"""Abstract view of buffers, construction of arbitrary pre-states, and checking of the states a function ends in."""
import re
import z3

from .engine import (AND, EQ, FALSE, MBase, MBulk, MPt, NOT, NULL, OR, TRUE, UNDEF, Engine, Region, State, Unsupported,
                     VAgg, VBool, VElem, VGlob, VInt, VObj, VTok, VUndef, ite, iv, lin, num, simp)
from . import debugging
from .variant import norm


def IMP(a, b):
    if z3.is_true(a):
        return b
    if z3.is_false(a) or z3.is_true(b):
        return TRUE
    return z3.Implies(a, b)


class View:
    """a buffer object in a given state, as fields and as an abstract sequence"""

    def __init__(self, E, st, o):
        V = E.variant
        self.o = o
        m = st.objs[o]
        L = V.cb_layout
        if L is None:
            raise Unsupported("data members of circular_buffer not found")

        def rd(k):
            c = m.get(L[k])
            return c[1] if c else UNDEF
        vals = {k: rd(k) for k in L}
        self.undef = [k for k, v in vals.items() if isinstance(v, VUndef)]
        g = lambda k: vals[k].a if isinstance(vals[k], VElem) else E.fresh("undef")
        self.buff, self.end, self.first, self.last = g("m_buff"), g("m_end"), g("m_first"), g("m_last")
        self.size = E.u(st, vals["m_size"]) if isinstance(vals["m_size"], VInt) else E.fresh("undef")
        a = m.get(V.alloc_off)
        self.aid = a[1].raw if a and isinstance(a[1], VInt) else None
        self.cap = lin(self.end - self.buff)
        self.val = st.val
        self.alive = st.alive
        self.ctrl = None
        if E.variant.so_layout and getattr(st.types.get(o), "n", None) == V.tn.get("SO"):
            S = V.so_layout
            c, n = m.get(S["cap"]), m.get(S["min"])
            if c and n and isinstance(c[1], VInt) and isinstance(n[1], VInt):
                self.ctrl = (E.u(st, c[1]), E.u(st, n[1]))
            else:
                self.undef.append("m_capacity_ctrl")

    def wrap(self, x):
        """x is in [buff, end + cap)"""
        x = lin(x)
        return z3.If(x < self.end, x, x - self.cap)

    def wrapm(self, x):
        """x is in [buff - cap, end)"""
        x = lin(x)
        return z3.If(x >= self.buff, x, x + self.cap)

    def addr(self, i):
        return self.wrap(self.first + i)

    def seq(self, i):
        return self.val.read(self.addr(i))

    def index(self, x):
        return z3.If(x >= self.first, x - self.first, x - self.first + self.cap)

    def slot(self, x):
        return z3.And(self.buff <= x, x < self.end, self.index(x) < self.size)

    def it(self, i):
        """pointer kept by the iterator to index i"""
        n = num(simp(i - self.size))
        if n == 0:
            return iv(0)
        return z3.If(i >= self.size, iv(0), self.addr(i))

    def parts(self):
        return [("sizes", z3.And(0 <= self.size, self.size <= self.cap)),
                ("storage", z3.If(self.cap == 0, z3.And(self.buff == 0, self.end == 0, self.first == 0, self.last == 0),
                                  z3.And(self.buff >= 1, self.first >= self.buff, self.first < self.end,
                                         self.last == self.wrap(self.first + self.size))))]

    def inv(self):
        xs = [f for _, f in self.parts()]
        if self.ctrl:
            xs.append(self.ctrlinv())
        return z3.And(*xs)

    def ctrlinv(self):
        c, n = self.ctrl
        return z3.And(n <= c, self.cap <= c, n >= 0)


class BufModel:
    """what a buffer is after the call"""

    def __init__(self, v, cap=None, size=None, seq=None, same=TRUE, first=None, aid=None, ctrl=None, icap=None, any=False):
        self.v = v                        # view before the call (None for an object under construction)
        self.cap, self.size, self.seq, self.same, self.first, self.aid = cap, size, seq, same, first, aid
        self.ctrl, self.icap = ctrl, icap
        if v is not None:
            if cap is None and icap is None:
                self.cap = v.cap
            if size is None:
                self.size = v.size
            if seq is None:
                self.seq = v.seq
            if aid is None:
                self.aid = v.aid
            if ctrl is None:
                self.ctrl = v.ctrl


class Model:
    def __init__(self):
        self.pre = TRUE
        self.bufs = {}            # objid -> BufModel
        self.ret = None
        self.throws = {}          # kind -> (allowed, must, strong)
        self.ctor = False
        self.moved = []           # addresses whose value may change
        self.moved_ranges = []    # (start, number)
        self.free_storage = False  # a throw may leave other storage behind
        self.copy_exempt = False
        self.copy_sources = []    # predicates on addresses that may be copied from
        self.move_sources = []
        self.streams = []         # single-pass sources that may be consumed
        self.ops_bound = None
        self.notes = []

    def throw(self, kind, allowed=TRUE, must=FALSE, strong=FALSE):
        self.throws[kind] = (allowed, must, strong)
        return self

    def user(self, strong=FALSE, elem=TRUE, alloc=FALSE):
        """element operations (and the allocator) may throw"""
        if not z3.is_false(elem):
            self.throw("elem", elem, FALSE, strong)
        if not z3.is_false(alloc):
            self.throw("alloc", alloc, FALSE, strong)
        return self


# ------------------------------------------------------------------ signatures
def split_params(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_sig(n):
    """'void CB::insert<X>(It, X, X) const' -> (class or '', method, [params], const)"""
    const = n.endswith(" const")
    if const:
        n = n[:-6]
    if not n.endswith(")"):
        return None
    d = 0
    for k in range(len(n) - 1, -1, -1):
        if n[k] == ")":
            d += 1
        elif n[k] == "(":
            d -= 1
            if d == 0:
                break
    head, params = n[:k], split_params(n[k + 1:-1])
    m = re.search(r"(operator *(\(\)|\[\]|->|<=|>=|==|!=|\+\+|--|\+=|-=|<|>|\+|-|\*|=))", head)
    tail = None
    if m:
        pre, op = head[:m.start()], "operator" + m[2]
        name = op
        head = pre
    else:
        # strip the template arguments of the method
        h = head
        if h.endswith(">"):
            d = 0
            for q in range(len(h) - 1, -1, -1):
                if h[q] == ">":
                    d += 1
                elif h[q] == "<":
                    d -= 1
                    if d == 0:
                        break
            h = h[:q]
        d = 0
        q = len(h) - 1
        while q >= 0:
            if h[q] == ">":
                d += 1
            elif h[q] == "<":
                d -= 1
            elif d == 0 and h[q] in ": ":
                break
            q -= 1
        name, head = h[q + 1:], h[:q + 1]
    # head: 'void CB::' / 'boost::' / ''
    head = head.rstrip()
    cls = ""
    if head.endswith("::"):
        h = head[:-2]
        d = 0
        q = len(h) - 1
        while q >= 0:
            if h[q] == ">":
                d += 1
            elif h[q] == "<":
                d -= 1
            elif d == 0 and h[q] == " ":
                break
            q -= 1
        cls = h[q + 1:]
    return cls, name, params, const


def key_of(n):
    p = parse_sig(n)
    if p is None:
        return None
    cls, name, params, const = p
    cls = {"boost": ""}.get(cls, cls)
    return "%s%s(%s)%s" % (cls + "::" if cls else "", name, ",".join(params), " const" if const else "")


# ------------------------------------------------------------------ calls
class Param:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Call:
    """a call of a function under contract: its arguments in abstract form and the state before it"""

    def __init__(self, E, f, key):
        self.E, self.f, self.key = E, f, key
        cls, name, params, const = parse_sig(norm(f.dem))
        self.cls, self.name, self.params, self.const = cls, name, params, const
        self.is_ctor = name in ("circular_buffer", "circular_buffer_space_optimized")
        self.member = cls in ("CB", "SO", "It", "CIt")
        self.p = []
        self.this = None
        self.thiso = None
        self.sret = None
        self.st = None
        self.scenario = ""

    def layout(self):
        """kinds in the order of the IR parameters"""
        out = []
        ps = list(self.f.params)
        if ps and any("sret" in a for a in ps[0][2]):
            out.append("sret")
        if self.member:
            out.append("this")
        for q in self.params:
            out.append(q)
        return out


MIT = "move_iterator<DIt>"
ITTYPE = '%%"struct.boost::cb_details::iterator%s"'


class Worlds:
    """builds the arbitrary pre-state of the function under verification"""

    def __init__(self, E):
        self.E = E
        self.st = State()
        self.bufs = {}       # name -> View
        self.exts = []       # Region
        self.n = 0
        self.slots = []
        E.readonly_objs = set()
        self.consts = set()

    def start(self):
        E, st = self.E, self.st
        V = E.variant
        self.val0 = E.freshfn("val0", V.vsort)
        st.val = MBase(lambda x: self.val0(x), "val0")
        if V.debug:
            st.alive = MBase(lambda x: OR(x <= debugging.LOW, *[f(x) for f in self.slots]), "alive0")
        else:
            st.alive = MBase(lambda x: OR(*[f(x) for f in self.slots]), "alive0")

    def region(self, lo, n, aid, kind, name, live):
        st = self.st
        r = Region(lo, n, aid, kind, name)
        for q in st.regions:
            st.assume(z3.Or(NOT(live), NOT(st.live[q]), lo + n <= q.lo, q.lo + q.n <= lo))
        st.regions = st.regions + [r]
        st.live[r] = live
        return r

    def obj(self, name, ty):
        from .ir import TNamed
        o = name
        self.st.objs[o] = {}
        self.st.types[o] = TNamed(ty) if isinstance(ty, str) else ty
        return o

    def buf(self, name, so=False, const=False):
        E, st = self.E, self.st
        V = E.variant
        o = self.obj(name, V.tn["SO" if so else "CB"])
        if V.cb_layout is None:
            raise Unsupported("data members of circular_buffer not found")
        ints = {k: z3.Int("%s.%s" % (name, k)) for k in ("buff", "cap", "first", "size", "alloc")}
        buff, cap, first, size = ints["buff"], ints["cap"], ints["first"], ints["size"]
        end = z3.Int("%s.end" % name)
        last = z3.Int("%s.last" % name)
        st.assume(end == buff + cap)
        L = V.cb_layout
        st.put(o, V.alloc_off, 8, VInt(64, ints["alloc"]))
        st.put(o, L["m_buff"], 8, VElem(buff))
        st.put(o, L["m_end"], 8, VElem(end))
        st.put(o, L["m_first"], 8, VElem(first))
        st.put(o, L["m_last"], 8, VElem(last))
        st.put(o, L["m_size"], 8, VInt(64, size))
        st.assume(ints["alloc"] >= 0)
        st.assume(ints["alloc"] < (1 << 64))
        st.assume(z3.And(size >= 0, size < (1 << 63)))
        v = View(E, st, o)
        for _, f in v.parts():
            st.assume(f)
        st.assume(v.end <= E.maxa)
        st.assume(v.cap <= E.max_elems)
        if so:
            if not V.so_layout:
                raise Unsupported("data members of circular_buffer_space_optimized not found")
            c, n = z3.Int(name + ".ctrl"), z3.Int(name + ".min")
            st.put(o, V.so_layout["cap"], 8, VInt(64, c))
            st.put(o, V.so_layout["min"], 8, VInt(64, n))
            st.assume(z3.And(0 <= n, n <= c, c < (1 << 64)))
            v = View(E, st, o)
            st.assume(v.ctrlinv())
            st.assume(v.size <= c)
        self.region(v.buff, v.cap, ints["alloc"], "buf", name, simp(v.cap > 0))
        self.slots.append(lambda x, v=v: v.slot(x))
        self.bufs[o] = v
        if const:
            self.consts.add(o)
            E.readonly_objs.add(o)
        return o

    def ext(self, name, n):
        """n elements somewhere outside the buffers"""
        E, st = self.E, self.st
        lo = z3.Int(name)
        st.assume(z3.And(lo >= 1, n >= 0, lo + n <= E.maxa))
        r = self.region(lo, n, None, "ext", name, TRUE)
        self.slots.append(lambda x, lo=lo, n=n: z3.And(lo <= x, x < lo + n))
        self.exts.append(r)
        return lo

    def iterobj(self, name, o, ptr, const):
        E, st = self.E, self.st
        q = self.obj(name, ITTYPE % (".0" if const else ""))
        L = E.variant.it_layout
        if "reg" in L:
            st.put(q, L["reg"], 8, VInt(64, iv(E.variant.oid(o))))
            st.put(q, L["reg"] + 8, 8, NULL)
        st.put(q, L["buff"], 8, VObj(o, 0))
        st.put(q, L["ptr"], 8, VElem(ptr))
        return q


def iter_index(v, p):
    """index an iterator of view v with pointer p denotes"""
    return z3.If(p == 0, v.size, v.index(p))


def check_iter(v, p):
    return z3.Or(p == 0, v.slot(p))


def build(E, f, key, scenario):
    """arguments for the function f under verification: returns (Call, args)"""
    W = Worlds(E)
    W.start()
    c = Call(E, f, key)
    c.scenario = scenario
    c.W = W
    st = W.st
    V = E.variant
    args = []
    lay = c.layout()
    cls = c.cls
    k = 0
    fwd = None
    thisbuf = None
    pend = []
    for kind in lay:
        if kind == "sret":
            o = W.obj("result", f.params[0][2]["sret"])
            c.sret = o
            args.append(VObj(o))
        elif kind == "this":
            if cls in ("CB", "SO"):
                if c.is_ctor:
                    o = W.obj("this", V.tn[cls])
                    c.thiso = o
                else:
                    o = W.buf("this", cls == "SO", c.const)
                    c.thiso = o
                    thisbuf = o
                args.append(VObj(o))
            elif c.name == "iterator":           # a constructor of an iterator
                c.thiso = W.obj("this", ITTYPE % (".0" if cls == "CIt" else ""))
                args.append(VObj(c.thiso))
            else:
                o = W.buf("buf", False, True)
                thisbuf = o
                ptr = z3.Int("self.it")
                st.assume(check_iter(W.bufs[o], ptr))
                q = W.iterobj("this", o, ptr, cls == "CIt")
                c.thiso = q
                c.it = (o, ptr, iter_index(W.bufs[o], ptr))
                if c.const:
                    E.readonly_objs.add(q)
                args.append(VObj(q))
        else:
            nm = "arg%d" % k
            base = kind.replace(" const&", "").replace("&&", "").replace("&", "") if not kind.startswith("Elem") else kind
            if kind in ("size_t", "size_t const&"):
                x = z3.Int(nm)
                st.assume(z3.And(x >= 0, x < (1 << 64)))
                p = Param("n", n=x)
                args.append(VInt(64, x))
            elif kind == "short":
                x = z3.Int(nm)
                if fwd is None:          # a count, not negative
                    fwd = x
                    st.assume(z3.And(x >= 0, x < (1 << 15)))
                    p = Param("n", n=x)
                else:
                    st.assume(z3.And(x >= -(1 << 15), x < (1 << 15)))
                    p = Param("num", d=x)
                args.append(VInt(16, x))
            elif kind == "long":
                x = z3.Int(nm)
                st.assume(z3.And(x >= -(1 << 63), x < (1 << 63)))
                p = Param("d", d=x)
                args.append(VInt(64, x))
            elif kind in ("int",):
                x = z3.Int(nm)
                p = Param("dummy")
                args.append(VInt(32, 0))
            elif kind in ("Elem const&", "Elem&&"):
                if scenario == "alias" and kind == "Elem const&":
                    x = z3.Int(nm)
                    st.assume(W.bufs[thisbuf].slot(x))
                else:
                    x = W.ext(nm, iv(1))
                p = Param("item" if kind == "Elem const&" else "ritem", a=x)
                args.append(VElem(x))
            elif kind == "Elem const*":
                if fwd is None:
                    n = z3.Int(nm + ".n")
                    x = W.ext(nm, n)
                    fwd = (x, n)
                    args.append(VElem(x))
                    p = Param("fwd", a=x, n=n)
                else:
                    args.append(VElem(lin(fwd[0] + fwd[1])))
                    p = Param("fwd-end")
            elif kind == "InIt":
                if fwd is None:
                    n = z3.Int(nm + ".n")
                    x = W.ext(nm, n)
                    so = W.obj(nm + ".src", "%struct.Src")
                    st.put(so, 0, 8, VElem(x))
                    fwd = (x, n, so)
                    vals = [VObj(so), NULL]
                    p = Param("init", a=x, n=n, src=so)
                else:
                    vals = [VObj(fwd[2]), VElem(lin(fwd[0] + fwd[1]))]
                    p = Param("init-end")
                if any("byval" in a for a in f.params[len(args)][2]):       # no registers left: passed in memory
                    q = W.obj(nm + ".mem", "%struct.InIt")
                    st.put(q, 0, 8, vals[0])
                    st.put(q, 8, 8, vals[1])
                    vals = [VObj(q)]
                args += vals
            elif kind == MIT:
                if fwd is None:
                    n = z3.Int(nm + ".n")
                    x = W.ext(nm, n)
                    fwd = (x, n)
                    p = Param("mov", a=x, n=n)
                    at = x
                else:
                    at = lin(fwd[0] + fwd[1])
                    p = Param("mov-end")
                q = W.obj(nm + ".mem", "%struct.InIt")
                st.put(q, 0, 8, VElem(at))
                for off in (8, 16, 24):
                    st.put(q, off, 8, NULL)
                args.append(VObj(q))
            elif kind in ("It", "It const&", "CIt", "CIt const&"):
                const = kind.startswith("CIt")
                o = thisbuf
                if o is None:
                    o = W.buf("buf", False, True)
                    thisbuf = o
                v = W.bufs[o]
                if scenario == "end":
                    ptr = iv(0)
                elif scenario == "inner":
                    ptr = z3.Int(nm + ".it")
                    st.assume(v.slot(ptr))
                else:
                    ptr = z3.Int(nm + ".it")
                    st.assume(check_iter(v, ptr))
                p = Param("iter", o=o, ptr=ptr, idx=iter_index(v, ptr))
                if kind == "CIt" and not V.debug:
                    args += [VObj(o), VElem(ptr)]
                else:
                    q = W.iterobj(nm, o, ptr, const)
                    args.append(VObj(q))
            elif kind in ("CB const&", "CB&", "CB&&", "SO const&", "SO&", "SO&&"):
                if scenario == "self" and (thisbuf or W.bufs):
                    o = thisbuf or next(iter(W.bufs))
                else:
                    o = W.buf(nm, kind.startswith("SO"), kind.endswith("const&"))
                p = Param("buf", o=o)
                args.append(VObj(o))
            elif kind == "Al const&":
                q = W.obj(nm, "%struct.Alloc")
                x = z3.Int(nm + ".id")
                st.assume(z3.And(x >= 0, x < (1 << 64)))
                st.put(q, 0, 8, VInt(64, x))
                E.readonly_objs.add(q)
                p = Param("alloc", aid=x)
                args.append(VObj(q))
            elif kind in ("Cap", "Cap const&"):
                x, y = z3.Int(nm + ".cap"), z3.Int(nm + ".min")
                st.assume(z3.And(0 <= y, y <= x, x < (1 << 64)))
                p = Param("cap", cap=x, min=y)
                if kind == "Cap":
                    args += [VInt(64, x), VInt(64, y)]
                else:
                    if scenario == "self":
                        v = W.bufs[thisbuf]
                        p = Param("cap", cap=v.ctrl[0], min=v.ctrl[1])
                        args.append(VObj(thisbuf, V.so_layout["cap"]))
                    else:
                        q = W.obj(nm, '%"class.boost::cb_details::capacity_control"')
                        st.put(q, 0, 8, VInt(64, x))
                        st.put(q, 8, 8, VInt(64, y))
                        E.readonly_objs.add(q)
                        args.append(VObj(q))
            else:
                raise Unsupported("parameter of type %s" % kind)
            c.p.append(p)
            k += 1
    if len(args) != len(f.params):
        raise Unsupported("parameter passing of %s" % key)
    # reference parameters that are const objects
    c.st = st.copy()
    c.views = dict(W.bufs)
    if c.name == "iterator":
        c.it = (c.p[0].o, c.p[0].ptr, c.p[0].idx)
    if c.member and cls in ("CB", "SO") and not c.is_ctor:
        c.this = W.bufs[c.thiso]
    c.ext = list(W.exts)
    return c, args
