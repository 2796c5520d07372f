"""A call of a function under contract is replaced by its contract: the precondition becomes an obligation of the caller,
the postcondition (normal and exceptional) is all the caller gets to know.  The contract itself is discharged separately."""
import z3

from . import debugging
from .engine import (AND, EQ, FALSE, MBulk, MPt, NOT, NULL, OR, TRUE, UNDEF, Region, Unsupported, VAgg, VBool, VElem, VInt,
                     VObj, VUndef, ite, iv, lin, num, simp)
from .variant import norm
from .world import IMP, MIT, Call, Param, View, check_iter, iter_index, key_of


class Inline(Exception):
    """the call has a form the contract cannot be applied to"""


class Consts:
    consts = frozenset()


class Registry:
    def __init__(self, reg, mod, exclude=(), only=None):
        self.reg, self.mod, self.exclude, self.only = reg, mod, exclude, only
        self.names = {}

    def get(self, E, f):
        if f.name not in self.names:
            k = key_of(norm(f.dem)) if f.dem else None
            con = self.reg.get(k)
            self.names[f.name] = Applied(con) if con is not None and k not in self.exclude and (self.only is None or k in self.only) else None
        return self.names[f.name]


class Applied:
    def __init__(self, con):
        self.con, self.key, self.modular = con, con.key, con.modular

    def apply(self, E, st, f, args):
        try:
            return Apply(E, st, f, args, self.con).run()
        except Inline:
            return None


class Apply:
    def __init__(self, E, st, f, args, con):
        self.E, self.st0, self.f, self.args, self.con = E, st, f, args, con
        self.disj = []           # (lo, n, is it an item that may alias) of arguments outside the buffers

    # ---- the arguments in abstract form
    def bind(self):
        E, st, f = self.E, self.st0, self.f
        V = E.variant
        c = Call(E, f, self.con.key)
        c.st = st.copy()
        c.views = {}
        c.W = Consts()
        c.ext = []
        lay = c.layout()
        args = list(self.args)
        fwd = number = None
        self.pre = []            # (goal, name)

        def take():
            if not args:
                raise Inline()
            return args.pop(0)

        def objarg(v):
            if not isinstance(v, VObj):
                raise Inline()
            return v

        def buf(o):
            if o not in c.views:
                if getattr(st.types.get(o), "n", None) not in (V.tn.get("CB"), V.tn.get("SO")):
                    raise Inline()
                c.views[o] = View(E, st, o)
            return o

        for kind in lay:
            if kind == "sret":
                c.sret = objarg(take())
                continue
            if kind == "this":
                v = objarg(take())
                if c.cls not in ("CB", "SO") or v.off != 0:
                    raise Inline()
                c.thiso = v.o
                if not c.is_ctor:
                    buf(v.o)
                    c.this = c.views[v.o]
                elif getattr(st.types.get(v.o), "n", None) not in (V.tn.get("CB"), V.tn.get("SO")):
                    raise Inline()
                continue
            if kind in ("size_t", "size_t const&"):
                p = Param("n", n=E.u(st, take()))
            elif kind == "short":
                x = E.s(st, take())
                if number is None:
                    number = x
                    p = Param("n", n=x)
                    self.pre.append((x >= 0, "the count is not negative"))
                else:
                    p = Param("num", d=x)
            elif kind == "long":
                p = Param("d", d=E.s(st, take()))
            elif kind in ("Elem const&", "Elem&&"):
                v = take()
                if not isinstance(v, VElem):
                    raise Inline()
                p = Param("item" if kind == "Elem const&" else "ritem", a=v.a)
                self.disj.append((v.a, iv(1), kind == "Elem const&" and "alias" in self.con.scenarios))
            elif kind == "Elem const*":
                v = take()
                if not isinstance(v, VElem):
                    raise Inline()
                if fwd is None:
                    fwd = p = Param("fwd", a=v.a, n=None)
                else:
                    fwd.n = lin(v.a - fwd.a)
                    p = Param("fwd-end")
                    self.pre.append((fwd.n >= 0, "the range is valid"))
                    self.disj.append((fwd.a, fwd.n, False))
            elif kind == "InIt":
                s, stop = objarg(take()), take()
                if fwd is None:
                    cur = st.get(s.o, s.off, 8)
                    if not isinstance(cur, VElem) or s.off != 0:
                        raise Inline()
                    fwd = p = Param("init", a=cur.a, n=None, src=s.o)
                else:
                    if not isinstance(stop, VElem) or s.o != fwd.src:
                        raise Inline()
                    fwd.n = lin(stop.a - fwd.a)
                    fwd.stop = stop.a
                    p = Param("init-end")
                    self.pre.append((fwd.n >= 0, "the range is valid"))
                    self.disj.append((fwd.a, fwd.n, False))
            elif kind == MIT:
                v = objarg(take())
                cur = st.get(v.o, v.off, 8)
                if not isinstance(cur, VElem):
                    raise Inline()
                if fwd is None:
                    fwd = p = Param("mov", a=cur.a, n=None)
                else:
                    fwd.n = lin(cur.a - fwd.a)
                    p = Param("mov-end")
                    self.pre.append((fwd.n >= 0, "the range is valid"))
                    self.disj.append((fwd.a, fwd.n, False))
            elif kind in ("It", "It const&", "CIt", "CIt const&"):
                if kind == "CIt" and not V.debug:
                    b, q = take(), take()
                else:
                    v = objarg(take())
                    b, q = st.get(v.o, v.off + V.it_layout["buff"], 8), st.get(v.o, v.off + V.it_layout["ptr"], 8)
                if not isinstance(b, VObj) or b.off != 0 or not isinstance(q, VElem):
                    raise Inline()
                buf(b.o)
                w = c.views[b.o]
                self.pre.append((check_iter(w, q.a), "the iterator passed on is valid"))
                if V.debug:
                    self.pre.append((debugging.getreg(E, st, v) == V.oid(b.o), "the iterator passed on is registered"))
                if c.this is not None and b.o != c.thiso:
                    raise Inline()
                p = Param("iter", o=b.o, ptr=q.a, idx=iter_index(w, q.a))
            elif kind in ("CB const&", "CB&", "CB&&", "SO const&", "SO&", "SO&&"):
                v = objarg(take())
                if v.off != 0:
                    raise Inline()
                if v.o in c.views and "self" not in self.con.scenarios:
                    raise Inline()
                p = Param("buf", o=buf(v.o))
            elif kind == "Al const&":
                v = objarg(take())
                a = st.get(v.o, v.off, 8)
                if not isinstance(a, VInt):
                    raise Inline()
                p = Param("alloc", aid=a.raw)
            elif kind == "Cap":
                x, y = take(), take()
                p = Param("cap", cap=E.u(st, x), min=E.u(st, y))
                self.pre.append((p.min <= p.cap, "the minimum capacity does not exceed the capacity"))
            elif kind == "Cap const&":
                v = objarg(take())
                if v.o == c.thiso and "self" not in self.con.scenarios:
                    raise Inline()
                p = Param("cap", cap=E.u(st, st.get(v.o, v.off, 8)), min=E.u(st, st.get(v.o, v.off + 8, 8)))
                self.pre.append((p.min <= p.cap, "the minimum capacity does not exceed the capacity"))
            else:
                raise Inline()
            c.p.append(p)
        if args or (fwd is not None and fwd.n is None):
            raise Inline()
        return c

    # ---- what the caller has to establish
    def requires(self, c, m):
        E, st = self.E, self.st0
        nm = self.con.key
        ob = lambda g, what, *tags: E.oblige(st, g, "%s: %s" % (nm, what), (tags or ("life", "func")) + ("call",))
        for g, what in self.pre:
            ob(g, what)
        for v in c.views.values():
            for k in v.undef:
                if not (k == "m_capacity_ctrl" and c.cls == "CB"):
                    ob(FALSE, "member %s of %s is initialised" % (k, v.o), "life")
                    raise Unsupported("uninitialised buffer")
            for k, g in v.parts():
                ob(g, "representation invariant (%s) of %s" % (k, v.o), "life")
            ob(AND(v.end <= E.maxa, v.cap <= E.max_elems), "the storage of %s lies in memory" % v.o, "life")
            if v.ctrl and (c.cls == "SO" or "SO" in nm):
                ob(v.ctrlinv(), "capacity bounds of %s" % v.o, "life", "bounds")
            rs = [r for r in st.regions if r.kind == "buf" and not z3.is_false(st.live[r])]
            ob(IMP(v.cap > 0, OR(*[AND(st.live[r], EQ(r.lo, v.buff), EQ(r.n, v.cap), EQ(r.aid, v.aid) if v.aid is not None else FALSE) for r in rs])),
               "the storage of %s is owned and came from its allocator" % v.o, "life", "alloc")
            if E.variant.track_alive:
                x = E.fresh("x")
                E.oblige(st, z3.Implies(z3.And(v.buff <= x, x < v.end, v.cap > 0), st.alive.read(x) == v.slot(x)),
                         "%s: exactly the elements of %s are alive in its storage" % (nm, v.o), ("life", "call"), assume=False)
        vs = list(c.views.values())
        for k, v in enumerate(vs):
            for w in vs[k + 1:]:
                ob(OR(v.cap == 0, w.cap == 0, v.end <= w.buff, w.end <= v.buff), "%s and %s do not share storage" % (v.o, w.o), "life")
        for a, n, alias in self.disj:
            t = st.copy()
            if num(n) == 1:
                x = a
            else:
                x = E.fresh("x")
                t.assume(z3.And(a <= x, x < a + n))
            if E.variant.track_alive:
                E.oblige(t, AND(E.variant.within(E, t, x), t.alive.read(x)), "%s: the elements passed are alive" % nm, ("life", "call"), assume=False)
            else:
                E.oblige(t, E.variant.within(E, t, x), "%s: the elements passed exist" % nm, ("life", "call"), assume=False)
            if alias:
                E.oblige(t, AND(*[OR(v.cap == 0, x < v.buff, x >= v.end, v.slot(x)) for v in vs]), "%s: the element passed is not in free storage" % nm, ("life", "call"), assume=False)
            else:
                E.oblige(t, AND(*[OR(v.cap == 0, x < v.buff, x >= v.end) for v in vs]), "%s: the elements passed do not lie in the buffers" % nm, ("life", "func", "call"), assume=False)
        ob(m.pre, "precondition")
        # element operations of the callee within what the caller may do
        if E.copy_ok is not None and not E.variant.scalar:
            if m.copy_exempt:
                g = E.copy_ok(st, E.fresh("any"))
                if g is not None and not z3.is_true(g):
                    E.oblige(st, FALSE, "%s: elements of a buffer are not copied to relocate them" % nm, ("discipline", "call"), assume=False)
            else:
                x = E.fresh("x")
                items = [p for p in c.p if p.kind in ("item", "fwd", "init")]
                may = OR(*[f(x) for f in m.copy_sources], *[AND(p.a <= x, x < p.a + (p.n if p.kind != "item" else 1)) for p in items])
                g = E.copy_ok(st, x)
                if g is not None and not z3.is_true(g):
                    E.oblige(st, IMP(may, g), "%s: elements of a buffer are not copied to relocate them" % nm, ("discipline", "call"), assume=False)

    # ---- effects
    def write(self, st, o):
        self.E.write_check(st, o)

    def region(self, st, n, aid):
        E = self.E
        E.allocs += 1
        lo = E.fresh("blk")
        r = Region(lo, n, aid, "buf", "new%d" % E.allocs)
        live = simp(n > 0)
        st.assume(IMP(live, z3.And(lo >= 1, lo + n <= E.maxa)))
        for q in st.regions:
            if not z3.is_false(st.live[q]):
                st.assume(simp(z3.Or(NOT(st.live[q]), NOT(live), lo + n <= q.lo, q.lo + q.n <= lo)))
        st.regions = st.regions + [r]
        st.live[r] = live
        return r

    def free(self, st, w, cond=TRUE):
        """the storage of w is given back, its elements are gone"""
        c = simp(AND(cond, w.cap > 0))
        if z3.is_false(c):
            return
        for r in st.regions:
            if r.kind == "buf" and not z3.is_false(st.live[r]):
                st.live[r] = simp(AND(st.live[r], NOT(AND(c, EQ(r.lo, w.buff)))))
        if self.E.variant.track_alive:
            st.alive = MBulk(st.alive, lambda x: AND(c, w.buff <= x, x < w.end), lambda x: FALSE)

    def var(self, st, t, name):
        t = lin(t)
        if t.num_args() == 0:
            return t
        v = self.E.fresh(name)
        st.assume(v == t)
        return v

    def fields(self, st, o, buff, end, first, last, size, aid):
        E = self.E
        L = E.variant.cb_layout
        self.write(st, o)
        st.put(o, E.variant.alloc_off, 8, VInt(64, aid))
        st.put(o, L["m_buff"], 8, VElem(buff))
        st.put(o, L["m_end"], 8, VElem(end))
        st.put(o, L["m_first"], 8, VElem(first))
        st.put(o, L["m_last"], 8, VElem(last))
        st.put(o, L["m_size"], 8, VInt(64, size))

    def ctrl(self, st, o, cap, mn):
        S = self.E.variant.so_layout
        self.write(st, o)
        st.put(o, S["cap"], 8, VInt(64, cap))
        st.put(o, S["min"], 8, VInt(64, mn))

    def settle(self, st, o, same, w, cap, size, aid, firstfact, seq, keepval=False):
        """buffer o gets its storage, its element count and its elements; returns the new view"""
        E = self.E
        if same:
            buff, end, cap = w.buff, w.end, w.cap
        else:
            cap = self.var(st, cap, "cap")
            st.assume(z3.And(cap >= 0, cap <= E.max_elems))
            r = self.region(st, cap, aid)
            buff = E.fresh("buff")
            st.assume(buff == z3.If(cap > 0, r.lo, 0))
            end = E.fresh("end")
            st.assume(end == buff + cap)
        size = self.var(st, size, "size")
        first, last = E.fresh("first"), E.fresh("last")
        self.fields(st, o, buff, end, first, last, size, aid)
        v = View(E, st, o)
        for _, g in v.parts():
            st.assume(g)
        if firstfact is not None:
            st.assume(firstfact(v))
        if E.variant.track_alive:
            st.alive = MBulk(st.alive, lambda x: AND(v.cap > 0, v.buff <= x, x < v.end), lambda x: v.slot(x))
        if not keepval:
            f = E.freshfn("some", E.variant.vsort)
            st.val = MBulk(st.val, lambda x: AND(v.cap > 0, v.buff <= x, x < v.end),
                           lambda x: ite(v.slot(x), seq(v.index(x)), f(x)) if seq is not None else f(x))
            v = View(E, st, o)
        return v

    def nothing_happens(self, st, b):
        """the contract leaves size, order and storage as they are"""
        E = self.E
        w = b.v
        if b.first is None or not getattr(b, "firstcond", TRUE) is TRUE and not E.proves(st, getattr(b, "firstcond", TRUE)):
            return False
        if not E.proves(st, EQ(b.size, w.size)) or not E.proves(st, IMP(w.size > 0, EQ(b.first, w.first))):
            return False
        i = E.fresh("i")
        return E.proves(st, z3.Implies(z3.And(0 <= i, i < w.size), EQ(b.seq(i), w.seq(i))))

    def split(self, st, m):
        """states that differ in whether each buffer keeps its storage"""
        E = self.E
        outs = [(st, {})]
        for o, b in m.bufs.items():
            if b is None or b.v is None or getattr(b, "took", None) is not None:
                continue
            nxt = []
            for s, d in outs:
                g = simp(b.same)
                for val, cond in ((True, g), (False, simp(NOT(g)))):
                    if z3.is_false(cond) or not E.feasible(s, cond):
                        continue
                    t = s.copy()
                    t.assume(cond)
                    nxt.append((t, dict(d, **{o: val})))
            outs = nxt
        return outs

    def normal(self, st, c, m):
        E = self.E
        for kind, (allowed, must, strong) in m.throws.items():
            st.assume(NOT(simp(must)))
        outs = []
        for s, same in self.split(st, m):
            taken = {b.took.o for b in m.bufs.values() if b is not None and getattr(b, "took", None) is not None}
            # storage that is given up
            for o, b in m.bufs.items():
                w = c.views.get(o)
                if w is None or o in taken or same.get(o) is True:
                    continue
                self.free(s, w)
            for a, cond in m.moved:
                old = s.val.read(a)
                s.val = MPt(s.val, TRUE, a, ite(simp(cond), E.fresh("moved", E.variant.vsort), old))
            self.move_from(s, m)
            for o, b in m.bufs.items():
                if b is None:
                    s.objs[o] = {k: (sz, UNDEF) for k, (sz, x) in s.objs[o].items()}
                    continue
                w = b.v
                aid = E.fresh("aid") if getattr(b, "anyaid", False) or b.aid is None else b.aid
                if getattr(b, "anyaid", False):
                    s.assume(z3.And(aid >= 0, aid < (1 << 64)))
                took = getattr(b, "took", None)
                if took is not None:
                    self.fields(s, o, took.buff, took.end, took.first, took.last, took.size, aid)
                    v = View(E, s, o)
                elif same.get(o) is True and self.nothing_happens(s, b):
                    v = View(E, s, o)
                else:
                    cap = b.cap if b.cap is not None else E.fresh("icap")
                    fc = getattr(b, "firstcond", TRUE)
                    ff = (lambda v, b=b, fc=fc: IMP(AND(fc, v.size > 0), EQ(v.first, b.first))) if b.first is not None else None
                    v = self.settle(s, o, same.get(o) is True, w, cap, b.size, aid, ff, b.seq)
                if b.ctrl is not None and c.cls == "SO":
                    self.ctrl(s, o, self.var(s, b.ctrl[0], "ctrl"), self.var(s, b.ctrl[1], "min"))
                elif c.cls == "SO" or (b.ctrl is None and v.ctrl is not None and c.cls == "SO"):
                    x, y = E.fresh("ctrl"), E.fresh("min")
                    s.assume(z3.And(y >= 0, y <= x, x < (1 << 64)))
                    self.ctrl(s, o, x, y)
                v = View(E, s, o)
                if c.cls == "SO" and v.ctrl:
                    s.assume(v.ctrlinv())
                if b.icap is not None:
                    s.assume(simp(b.icap(v)))
            for p in m.streams:
                self.consume(s, p)
            if E.variant.debug:
                debugging.after_call(E, s, c)
            outs.append(("ret", s, self.result(s, c, m)))
        return outs

    def move_from(self, s, m):
        for a, n in m.moved_ranges:
            f = self.E.freshfn("moved", self.E.variant.vsort)
            s.val = MBulk(s.val, lambda x, a=a, n=n: AND(a <= x, x < a + n), lambda x, f=f: f(x))

    def consume(self, s, p):
        k = self.E.fresh("used")
        s.assume(z3.And(p.a <= k, k <= p.a + p.n))
        s.put(p.src, 0, 8, VElem(k))

    def result(self, s, c, m):
        E = self.E
        r = m.ret
        if r is None:
            return VObj(c.thiso) if c.name == "operator=" else None
        if r[0] == "objref":
            return VObj(r[1], r[2])
        if r[0] == "elemptr":
            return VElem(lin(r[1]))
        if r[0] == "iter":
            v = View(E, s, r[1])
            i = self.var(s, r[2], "idx")
            p = E.fresh("it")
            s.assume(p == v.it(i))
            if c.sret is not None:
                L = E.variant.it_layout
                s.put(c.sret.o, c.sret.off + L["buff"], 8, VObj(r[1]))
                s.put(c.sret.o, c.sret.off + L["ptr"], 8, VElem(p))
                if E.variant.debug:
                    debugging.setreg(E, s, c.sret, iv(E.variant.oid(r[1])))
                return None
            return VAgg([VObj(r[1]), VElem(p)])
        raise Inline()

    def thrown(self, st, c, m, kind, allowed, strong):
        E = self.E
        outs = []
        st = st.copy()
        st.assume(simp(allowed))
        if not E.feasible(st):
            return outs
        st.trace = (kind,)

        def sources(s):
            for a, cond in m.moved:
                s.val = MPt(s.val, TRUE, a, E.fresh("half", E.variant.vsort))
            self.move_from(s, m)
            for p in m.streams:
                self.consume(s, p)
        strong = simp(strong)
        if not z3.is_false(strong):
            s = st.copy()
            s.assume(strong)
            if E.feasible(s):
                sources(s)
                outs.append(("throw", s, None))
        if z3.is_true(strong):
            return outs
        st.assume(NOT(strong))
        if not E.feasible(st):
            return outs
        if m.ctor:
            sources(st)
            return outs + [("throw", st, None)]
        todo = [(st, {})]
        for o, b in m.bufs.items():
            if b is None or b.v is None:
                continue
            nxt = []
            for s, d in todo:
                nxt.append((s.copy(), dict(d, **{o: True})))
                free = m.free_storage or getattr(b, "freecap", False)
                g = TRUE if free else simp(NOT(b.same))
                if not z3.is_false(g):
                    t = s.copy()
                    t.assume(g)
                    if E.feasible(t):
                        nxt.append((t, dict(d, **{o: False})))
            todo = nxt
        for s, same in todo:
            sources(s)
            for o, b in m.bufs.items():
                if b is None or b.v is None:
                    continue
                w = b.v
                if not same[o]:
                    self.free(s, w)
                aid = w.aid
                size = E.fresh("size")
                s.assume(size >= 0)
                self.settle(s, o, same[o], w, E.fresh("cap"), size, aid, None, None)
                if c.cls == "SO":
                    if getattr(m, "free_ctrl", False):
                        x, y = E.fresh("ctrl"), E.fresh("min")
                        s.assume(z3.And(y >= 0, y <= x, x < (1 << 64)))
                        self.ctrl(s, o, x, y)
                    v = View(E, s, o)
                    s.assume(v.ctrlinv())
            if E.variant.debug:
                debugging.after_failed_call(E, s, c)
            outs.append(("throw", s, None))
        return outs

    def run(self):
        E = self.E
        c = self.bind()
        m = self.con.fn(c)
        if getattr(m, "it_after", None) is not None or (m.ret is not None and m.ret[0] not in ("iter", "objref", "elemptr")):
            raise Inline()
        self.requires(c, m)
        outs = []
        base = self.st0
        for kind, (allowed, must, strong) in m.throws.items():
            if z3.is_false(simp(allowed)):
                continue
            outs += self.thrown(base, c, m, kind, allowed, strong)
        return self.normal(base.copy(), c, m) + outs
