"""Instantiations that are verified, and the assumed contracts of everything outside /repo:
element operations, the allocator, exception objects and std::deque."""
import re
import z3

from . import debugging
from .engine import (AND, EQ, FALSE, MBulk, MPt, NOT, NULL, OR, TRUE, UNDEF, Region, Unsupported, VAgg, VBool, VElem,
                     VGlob, VInt, VObj, VTok, VUndef, ite, iv, lin, num, simp)


def norm(d):
    """shorten the demangled name of a function"""
    for e in ("Elem", "int"):
        A = "Alloc<%s>" % e
        cb = "boost::circular_buffer<%s, %s>" % (e, A)
        d = d.replace("boost::cb_details::iterator<%s, boost::cb_details::const_traits<%s>>" % (cb, A), "CIt")
        d = d.replace("boost::cb_details::iterator<%s, boost::cb_details::nonconst_traits<%s>>" % (cb, A), "It")
        d = d.replace("boost::circular_buffer_space_optimized<%s, %s>" % (e, A), "SO").replace(cb, "CB")
        d = d.replace("boost::cb_details::capacity_control<unsigned long>", "Cap")
        d = d.replace("std::_Deque_iterator<%s, %s&, %s*>" % (e, e, e), "DIt").replace("std::deque<%s, %s>" % (e, A), "Deque")
        d = d.replace(A, "Al")
        if e == "int":
            d = re.sub(r"\bint\b", "Elem", d).replace("operator++(Elem)", "operator++(int)").replace("operator--(Elem)", "operator--(int)")
            d = re.sub(r"\w+<Al>::difference_type", "long", d)
    d = d.replace("boost::integral_constant<bool, false>", "false_").replace("boost::integral_constant<bool, true>", "true_")
    d = d.replace("boost::move_iterator<", "move_iterator<").replace("boost::cb_details::", "").replace("unsigned long", "size_t")
    d = d.replace("boost::empty_::", "")
    return d


def roles(members, names):
    """{name: offset} of the data members; members that were given other names are recognised by the order of declaration"""
    missing = [n for n in names if n not in members]
    others = sorted((o, n) for n, o in members.items() if n not in names)
    if missing and len(others) != len(missing):
        return None
    new = dict(zip(missing, (n for _, n in others)))
    return {n: members[new.get(n, n)] for n in names}


class Variant:
    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.scalar = name == "sc"
        self.debug = name == "db"
        self.it_layout = {"reg": 0, "buff": 16, "ptr": 24} if self.debug else {"buff": 0, "ptr": 8}
        self.alloc_off = 8 if self.debug else 0
        self.oids = {}
        self.track_alive = not self.scalar
        self.elem_type = None if self.scalar else "%struct.Elem"
        self.ctor_throws = name in ("tm", "my", "co")  # move construction
        self.assign_throws = name in ("tm", "mx", "co")  # move assignment
        self.move_throws = self.ctor_throws or self.assign_throws
        self.esz = 4 if self.scalar else 24
        if self.scalar:
            self.vsort = z3.IntSort()
        else:
            self.vsort = z3.DeclareSort("Val")
        I = z3.IntSort()
        self.MF = z3.Function("moved_from", self.vsort, self.vsort)
        self.EQV = z3.Function("elem_eq", self.vsort, self.vsort, z3.BoolSort())
        self.LTV = z3.Function("elem_less", self.vsort, self.vsort, z3.BoolSort())
        self.FROM = z3.Function("from_number", I, self.vsort)
        self.DEF = z3.Const("default_value", self.vsort) if not self.scalar else iv(0)
        self.DALLOC = z3.Int("default_allocator")
        self.registry = None       # contracts
        self.table = {}
        self.patterns = []
        self.setup()
        self.cache = {}
        self.layout = {}
        self.cb_layout = roles(mod.members("circular_buffer<(Elem|int), Alloc<(Elem|int)> ?>"), ("m_buff", "m_end", "m_first", "m_last", "m_size"))
        m2 = roles(mod.members("circular_buffer_space_optimized<(Elem|int), Alloc<(Elem|int)> ?>"), ("m_capacity_ctrl",))
        m3 = roles(mod.members(r"capacity_control<unsigned long>"), ("m_capacity", "m_min_capacity"))
        self.so_layout = None
        if m2 and m3:
            self.so_layout = {"cap": m2["m_capacity_ctrl"] + m3["m_capacity"], "min": m2["m_capacity_ctrl"] + m3["m_min_capacity"]}
        self.tn = {}
        for n in mod.types:
            if re.match(r'%"class\.boost::circular_buffer"', n):
                self.tn["CB"] = n
            if re.match(r'%"class\.boost::circular_buffer_space_optimized"', n):
                self.tn["SO"] = n

    # ---- hooks for the engine
    def extern(self, dem):
        if dem not in self.cache:
            d = norm(dem)
            r = self.table.get(d)
            if r is None:
                for p, f in self.patterns:
                    if p.search(d):
                        r = f
                        break
            self.cache[dem] = r
        return self.cache[dem]

    def extern_name(self, dem):
        return norm(dem)

    def contract_for(self, E, f):
        if self.registry is None:
            return None
        return self.registry.get(E, f)

    def elem_preds(self, name):
        return name in ("elem_eq", "elem_less") or (self.scalar and name.startswith("val0"))

    def buffers(self, E, st):
        out = []
        if self.cb_layout is None:
            return out
        L = self.cb_layout
        for o, ty in st.types.items():
            n = getattr(ty, "n", None)
            if o not in st.objs or n not in (self.tn.get("CB"), self.tn.get("SO")):
                continue
            m = st.objs[o]
            v = {k: m.get(L[k], (0, UNDEF))[1] for k in L}
            if any(isinstance(v[k], VUndef) for k in ("m_buff", "m_end")):
                continue
            if not all(isinstance(v[k], (VElem, VUndef)) for k in ("m_buff", "m_end", "m_first", "m_last")):
                continue
            first = v["m_first"].a if isinstance(v["m_first"], VElem) else v["m_buff"].a
            last = v["m_last"].a if isinstance(v["m_last"], VElem) else v["m_buff"].a
            size = v["m_size"].raw if isinstance(v["m_size"], VInt) else iv(0)
            out.append((o, (v["m_buff"].a, v["m_end"].a, first, last, size)))
        return out[:3]

    def oid(self, o):
        """a number for a buffer"""
        return self.oids.setdefault(o, len(self.oids) + 1)

    # ---- the models
    def setup(self):
        if self.debug:
            debugging.setup(self)
        t = self.table
        P = lambda s, f: self.patterns.append((re.compile(s), f))
        if not self.scalar:
            t["Elem::Elem()"] = self.ctor_default
            t["Elem::Elem(Elem const&)"] = self.ctor_copy
            t["Elem::Elem(Elem&&)"] = self.ctor_move
            t["Elem::Elem(short)"] = self.ctor_number
            t["Elem::operator=(Elem const&)"] = self.assign_copy
            t["Elem::operator=(Elem&&)"] = self.assign_move
            t["Elem::~Elem()"] = self.dtor
            t["operator==(Elem const&, Elem const&)"] = lambda E, st, a, d: self.pred(E, st, a, self.EQV)
            t["operator<(Elem const&, Elem const&)"] = lambda E, st, a, d: self.pred(E, st, a, self.LTV)
        t["Al::Alloc()"] = self.al_default
        t["Al::Al()"] = self.al_default
        t["Al::Alloc(Al const&)"] = self.al_copy
        t["Al::operator=(Al const&)"] = self.al_assign
        t["Al::allocate(size_t)"] = self.allocate
        t["Al::deallocate(Elem*, size_t)"] = self.deallocate
        P(r"^(\w+ )?boost::throw_exception<|^void boost::throw_exception", self.throw_exception)
        P(r"^std::(length_error|out_of_range)::(length_error|out_of_range)\(char const\*\)$", self.noop)
        P(r"^std::(length_error|out_of_range)::~", self.noop)
        P(r"^Deque::deque<InIt", self.deque_ctor)
        P(r"^Deque::size\(\) const", self.deque_size)
        P(r"^Deque::begin\(\)$", self.deque_begin)
        P(r"^Deque::end\(\)$", self.deque_end)
        P(r"^Deque::~deque", self.deque_dtor)
        P(r"^DIt::operator\*\(\) const", self.dit_deref)
        P(r"^DIt::operator\+\+\(\)$", self.dit_inc)
        P(r"^DIt::operator--\(\)$", self.dit_dec)
        P(r"^DIt::operator\+=\(long\)$", self.dit_add)
        P(r"operator==(<.*>)?\(DIt const&, DIt const&\)$", self.dit_eq)
        P(r"operator!=(<.*>)?\(DIt const&, DIt const&\)$", self.dit_ne)
        P(r"operator-(<.*>)?\(DIt const&, DIt const&\)$", self.dit_sub)

    def noop(self, E, st, a, d):
        return [("ret", st, None)]

    def addr(self, E, st, v, what):
        if isinstance(v, VElem):
            return v.a
        if isinstance(v, VUndef):
            E.oblige(st, FALSE, "%s uses an initialised pointer" % what, ("life",))
        raise Unsupported("element operation on %r" % (v,))

    def within(self, E, st, a):
        n = num(a)
        if n is not None and n < 0:
            return TRUE
        return E.in_live_region(st, a)

    # element operations
    def throwing(self, E, st, kind="elem"):
        s = st.copy()
        s.trace = (kind,)
        return s

    def construct(self, E, st, d, v, throws, effect=None):
        """place value v in raw storage d"""
        E.oblige(st, self.within(E, st, d), "construction within allocated storage", ("life", "bounds"))
        E.oblige(st, NOT(st.alive.read(d)), "construction in a slot that holds no element", ("life",))
        outs = []
        if throws:
            outs.append(("throw", self.throwing(E, st), None))
        st.val = MPt(st.val, TRUE, d, v)
        st.alive = MPt(st.alive, TRUE, d, TRUE)
        if effect:
            effect(st)
        outs.insert(0, ("ret", st, None))
        return outs

    def need_alive(self, E, st, a, what):
        E.oblige(st, AND(self.within(E, st, a), st.alive.read(a)), "%s only while the element is alive" % what,
                 ("life",) if what.startswith(("assigned", "destroyed")) else ("life", "func"))    # the value of a dead element is indeterminate

    def ctor_default(self, E, st, a, d):
        E.count(st, "default")
        return self.construct(E, st, self.addr(E, st, a[0], "construction"), self.DEF, True)

    def number(self, n):
        """the element made from a number"""
        return n if self.scalar else self.FROM(n)

    def ctor_number(self, E, st, a, d):
        dst = self.addr(E, st, a[0], "construction")
        return self.construct(E, st, dst, self.FROM(E.s(st, a[1])), True)

    def ctor_copy(self, E, st, a, d):
        dst, src = self.addr(E, st, a[0], "construction"), self.addr(E, st, a[1], "copy")
        self.need_alive(E, st, src, "copied from")
        E.policy(st, "copy", dst, src)
        return self.construct(E, st, dst, st.val.read(src), True)

    def ctor_move(self, E, st, a, d):
        dst, src = self.addr(E, st, a[0], "construction"), self.addr(E, st, a[1], "move")
        self.need_alive(E, st, src, "moved from")
        E.policy(st, "move", dst, src)
        E.elem_write_check(st, src)
        v = st.val.read(src)

        def eff(s):
            s.val = MPt(s.val, TRUE, src, self.MF(v))
        return self.construct(E, st, dst, v, self.ctor_throws, eff)

    def assign_copy(self, E, st, a, d):
        dst, src = self.addr(E, st, a[0], "assignment"), self.addr(E, st, a[1], "copy")
        self.need_alive(E, st, dst, "assigned")
        self.need_alive(E, st, src, "copied from")
        E.policy(st, "copy", dst, src)
        E.elem_write_check(st, dst)
        v = st.val.read(src)
        t = self.throwing(E, st)
        t.val = MPt(t.val, TRUE, dst, E.fresh("half", self.vsort))
        st.val = MPt(st.val, TRUE, dst, v)
        return [("ret", st, VElem(dst)), ("throw", t, None)]

    def assign_move(self, E, st, a, d):
        dst, src = self.addr(E, st, a[0], "assignment"), self.addr(E, st, a[1], "move")
        self.need_alive(E, st, dst, "assigned")
        self.need_alive(E, st, src, "moved from")
        E.policy(st, "move", dst, src)
        E.elem_write_check(st, dst)
        E.elem_write_check(st, src)
        v = st.val.read(src)
        outs = []
        if self.assign_throws:
            t = self.throwing(E, st)
            t.val = MPt(t.val, TRUE, dst, E.fresh("half", self.vsort))
            t.val = MPt(t.val, TRUE, src, E.fresh("half", self.vsort))
            outs.append(("throw", t, None))
        st.val = MPt(MPt(st.val, TRUE, dst, v), TRUE, src, self.MF(v))
        return [("ret", st, VElem(dst))] + outs

    def dtor(self, E, st, a, d):
        x = self.addr(E, st, a[0], "destruction")
        self.need_alive(E, st, x, "destroyed")
        E.elem_write_check(st, x)
        E.count(st, "destroy")
        st.alive = MPt(st.alive, TRUE, x, FALSE)
        return [("ret", st, None)]

    def pred(self, E, st, a, P):
        x, y = self.addr(E, st, a[0], "comparison"), self.addr(E, st, a[1], "comparison")
        self.need_alive(E, st, x, "compared")
        self.need_alive(E, st, y, "compared")
        E.count(st, "compare")
        t = self.throwing(E, st)
        return [("ret", st, VBool(P(st.val.read(x), st.val.read(y)))), ("throw", t, None)]

    # allocator
    def al_get(self, st, v):
        if not isinstance(v, VObj):
            raise Unsupported("allocator %r" % (v,))
        return st.get(v.o, v.off, 8)

    def al_default(self, E, st, a, d):
        E.write_check(st, a[0].o)
        st.put(a[0].o, a[0].off, 8, VInt(64, self.DALLOC))
        return [("ret", st, None)]

    def al_copy(self, E, st, a, d):
        v = self.al_get(st, a[1])
        E.write_check(st, a[0].o)
        st.put(a[0].o, a[0].off, 8, v)
        return [("ret", st, None)]

    def al_assign(self, E, st, a, d):
        self.al_copy(E, st, a, d)
        return [("ret", st, a[0])]

    def allocate(self, E, st, a, d):
        idv = self.al_get(st, a[0])
        if isinstance(idv, VUndef):
            E.oblige(st, FALSE, "allocation through an initialised allocator", ("alloc", "life"))
            raise Unsupported("uninitialised allocator")
        n = E.u(st, a[1])
        E.oblige(st, n > 0, "storage for zero elements is never requested", ("alloc",))
        E.oblige(st, n <= E.max_elems, "storage beyond max_size() is never requested", ("alloc",))
        E.allocs += 1
        t = self.throwing(E, st, "alloc")
        lo = E.fresh("blk")
        r = Region(lo, n, idv.raw, "buf", "new%d" % E.allocs)
        st.assume(z3.And(lo >= 1, lo + n <= E.maxa))
        for q in st.regions:
            st.assume(simp(z3.Or(NOT(st.live[q]), lo + n <= q.lo, q.lo + q.n <= lo)))
        st.regions = st.regions + [r]
        st.live[r] = TRUE
        inr = lambda x: AND(lo <= x, x < lo + n)
        if self.track_alive:
            st.alive = MBulk(st.alive, inr, lambda x: FALSE)
        f = E.freshfn("raw", self.vsort)
        st.val = MBulk(st.val, inr, lambda x: f(x))
        return [("ret", st, VElem(lo)), ("throw", t, None)]

    def deallocate(self, E, st, a, d):
        idv = self.al_get(st, a[0])
        p = self.addr(E, st, a[1], "deallocation")
        n = E.u(st, a[2])
        rs = [r for r in st.regions if r.kind == "buf"]
        E.oblige(st, OR(*[AND(st.live[r], EQ(r.lo, p)) for r in rs]), "storage is returned only once and was acquired from an allocator", ("life", "alloc", "exc"))
        E.oblige(st, AND(*[z3.Implies(AND(st.live[r], EQ(r.lo, p)), EQ(r.n, n)) for r in rs]),
                 "storage is returned with the size it was acquired with", ("alloc", "life", "exc"))
        if isinstance(idv, VUndef):
            E.oblige(st, FALSE, "storage is returned through an initialised allocator", ("alloc",))
        else:
            E.oblige(st, AND(*[z3.Implies(AND(st.live[r], EQ(r.lo, p)), EQ(r.aid, idv.raw)) for r in rs]),
                     "storage is returned to the allocator it was acquired from", ("alloc",))
        if self.track_alive:
            x = E.fresh("x")
            E.oblige(st, z3.Implies(z3.And(p <= x, x < p + n), NOT(st.alive.read(x))),
                     "no element is alive in storage that is returned", ("life", "exc"), assume=False)
        for r in rs:
            if not z3.is_false(st.live[r]):
                st.live[r] = simp(AND(st.live[r], NOT(EQ(r.lo, p))))
        return [("ret", st, None)]

    # exceptions
    def throw_exception(self, E, st, a, d):
        kind = "length_error" if "length_error" in d else "out_of_range" if "out_of_range" in d else "other"
        st.trace = (kind,)
        return [("throw", st, None)]

    # std::deque as a sequence in a block of its own
    def deque_ctor(self, E, st, a, d):
        this = a[0]
        if not isinstance(a[1], VObj):
            raise Unsupported("deque from %r" % (a[1],))
        src = a[1]
        cur = st.get(src.o, src.off, 8)
        stop = a[4] if isinstance(a[4], VElem) else a[2]
        if not isinstance(cur, VElem) or not isinstance(stop, VElem):
            raise Unsupported("deque range")
        n = lin(stop.a - cur.a)
        E.oblige(st, n >= 0, "range given to std::deque is valid", ("life",))
        x = E.fresh("x")
        if self.track_alive:
            E.oblige(st, z3.Implies(z3.And(cur.a <= x, x < stop.a), AND(self.within(E, st, x), st.alive.read(x))),
                     "range given to std::deque holds elements", ("life",), assume=False)
        t = st.copy()
        k = E.fresh("used")
        t.assume(z3.And(cur.a <= k, k <= stop.a))
        t.put(src.o, src.off, 8, VElem(k))
        t2 = t.copy()
        t.assume(n > 0 if not self.scalar else FALSE)
        t.trace = ("elem",)
        t2.trace = ("alloc",)
        lo = E.fresh("deq")
        E.allocs += 1
        r = Region(lo, n, None, "deque", "deque%d" % E.allocs)
        st.assume(z3.And(lo >= 1, lo + n <= E.maxa))
        for q in st.regions:
            st.assume(simp(z3.Or(NOT(st.live[q]), lo + n <= q.lo, q.lo + q.n <= lo)))
        st.regions = st.regions + [r]
        st.live[r] = TRUE
        inr = lambda y: AND(lo <= y, y < lo + n)
        old = st.val
        st.val = MBulk(st.val, inr, lambda y: old.read(lin(cur.a + (y - lo))))
        st.alive = MBulk(st.alive, inr, lambda y: TRUE)
        st.put(src.o, src.off, 8, stop)
        st.put(this.o, this.off, 8, VTok(("deque", r)))
        return [("ret", st, None), ("throw", t, None), ("throw", t2, None)]

    def dq(self, st, v):
        k = st.get(v.o, v.off, 8)
        if not isinstance(k, VTok):
            raise Unsupported("deque")
        return k.n[1]

    def deque_size(self, E, st, a, d):
        return [("ret", st, VInt(64, self.dq(st, a[0]).n))]

    def mkit(self, E, st, dst, p):
        for k in (8, 16, 24):
            st.put(dst.o, dst.off + k, 8, NULL)
        st.put(dst.o, dst.off, 8, VElem(p))

    def deque_begin(self, E, st, a, d):
        r = self.dq(st, a[1])
        self.mkit(E, st, a[0], r.lo)
        return [("ret", st, None)]

    def deque_end(self, E, st, a, d):
        r = self.dq(st, a[1])
        self.mkit(E, st, a[0], lin(r.lo + r.n))
        return [("ret", st, None)]

    def deque_dtor(self, E, st, a, d):
        r = self.dq(st, a[0])
        E.oblige(st, st.live[r], "a temporary deque is destroyed once", ("life",))
        if self.track_alive:
            x = E.fresh("x")
            E.oblige(st, z3.Implies(z3.And(r.lo <= x, x < r.lo + r.n), st.alive.read(x)), "a temporary deque holds its elements when destroyed", ("life",), assume=False)
        st.alive = MBulk(st.alive, lambda y: AND(r.lo <= y, y < r.lo + r.n), lambda y: FALSE)
        st.live[r] = FALSE
        return [("ret", st, None)]

    def cur(self, st, v):
        c = st.get(v.o, v.off, 8)
        if not isinstance(c, VElem):
            raise Unsupported("deque iterator")
        return c.a

    def dit_deref(self, E, st, a, d):
        return [("ret", st, VElem(self.cur(st, a[0])))]

    def dit_inc(self, E, st, a, d):
        st.put(a[0].o, a[0].off, 8, VElem(lin(self.cur(st, a[0]) + 1)))
        return [("ret", st, a[0])]

    def dit_dec(self, E, st, a, d):
        st.put(a[0].o, a[0].off, 8, VElem(lin(self.cur(st, a[0]) - 1)))
        return [("ret", st, a[0])]

    def dit_add(self, E, st, a, d):
        st.put(a[0].o, a[0].off, 8, VElem(lin(self.cur(st, a[0]) + E.s(st, a[1]))))
        return [("ret", st, a[0])]

    def dit_eq(self, E, st, a, d):
        return [("ret", st, VBool(EQ(self.cur(st, a[0]), self.cur(st, a[1]))))]

    def dit_ne(self, E, st, a, d):
        return [("ret", st, VBool(NOT(EQ(self.cur(st, a[0]), self.cur(st, a[1])))))]

    def dit_sub(self, E, st, a, d):
        return [("ret", st, VInt(64, lin(self.cur(st, a[0]) - self.cur(st, a[1]))))]
