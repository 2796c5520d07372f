"""Verification of one function against its contract: arbitrary pre-state, execution, obligations on every way out."""
import os
import time
import traceback
import z3

from . import debugging, ir, specs, variant as variantmod
from .engine import (AND, EQ, FALSE, NOT, NULL, OR, TRUE, UNDEF, Budget, Engine, Unsupported, VAgg, VBool, VElem, VInt,
                     VObj, VUndef, ite, iv, lin, num, simp)
from .variant import Variant, norm
from .world import IMP, View, build, iter_index, key_of


def func_props(con):
    return con.props


class Post:
    """obligations on a state the function ends in"""

    def __init__(self, E, c, m):
        self.E, self.c, self.m = E, c, m

    def ob(self, st, goal, name, *tags):
        if self.E.oblige(st, goal, name, tags, assume=False):
            if not z3.is_true(goal) and not z3.is_quantifier(goal):
                st.assume(goal)
            return True
        return False

    # ---- storage and lifetime, common to both ways out
    def memory(self, st, views, throw):
        E, c = self.E, self.c
        T = ("exc",) if throw else ("life",)
        way = "after an exception" if throw else "at return"
        vs = [v for v in views.values()]
        for r in st.regions:
            lv = st.live[r]
            if z3.is_false(lv):
                continue
            if r.kind == "buf":
                own = OR(*[AND(v.cap > 0, EQ(v.buff, r.lo)) for v in vs])
                self.ob(st, IMP(lv, own), "storage %s belongs to a buffer %s (no leak)" % (r.name, way), "alloc", *T)
            elif r.kind == "deque":
                self.ob(st, NOT(lv), "temporary storage is released %s" % way, *T)
        for v in vs:
            cands = [r for r in st.regions if r.kind == "buf" and not z3.is_false(st.live[r])]
            self.ob(st, IMP(v.cap > 0, OR(*[AND(st.live[r], EQ(r.lo, v.buff), EQ(r.n, v.cap)) for r in cands])),
                    "the storage of %s is allocated and capacity() elements large %s" % (v.o, way), "alloc", *T)
            if v.aid is not None:
                self.ob(st, IMP(v.cap > 0, AND(*[IMP(AND(st.live[r], EQ(r.lo, v.buff)), EQ(r.aid, v.aid)) for r in cands])),
                        "the storage of %s came from its allocator %s" % (v.o, way), "alloc")
            else:
                self.ob(st, FALSE, "the allocator of %s is initialised %s" % (v.o, way), "alloc", *T)
        for k, v in enumerate(vs):
            for w in vs[k + 1:]:
                self.ob(st, z3.Or(v.cap == 0, w.cap == 0, v.buff != w.buff), "%s and %s do not share storage %s" % (v.o, w.o, way), "alloc", *T)
        if E.variant.track_alive:
            x = z3.Int("slot!")
            exp = OR(*[v.slot(x) for v in vs], *[AND(r.lo <= x, x < r.lo + r.n) for r in c.ext])
            self.ob(st, IMP(x >= 1, st.alive.read(x) == exp), "exactly the elements of the buffers are alive %s" % way, *T)

    def frame(self, st, views, changed, throw):
        """buffers and ranges that the call has no business with"""
        E, c, m = self.E, self.c, self.m
        for o, v0 in c.views.items():
            if o in changed:
                continue
            v = views[o]
            tags = ("const",) if o in c.W.consts else ("func",)
            self.ob(st, AND(EQ(v.buff, v0.buff), EQ(v.end, v0.end), IMP(v0.cap > 0, EQ(v.first, v0.first)), EQ(v.size, v0.size),
                            EQ(v.aid, v0.aid) if v.aid is not None else FALSE), "%s is not modified" % o, *tags)
            if st.val is not c.st.val:
                y = z3.Int("pos!" + o)
                self.ob(st, IMP(v0.slot(y), EQ(st.val.read(y), c.st.val.read(y))), "no element of %s is modified" % o, "discipline", *tags)
            if v0.ctrl:
                self.ob(st, AND(EQ(v.ctrl[0], v0.ctrl[0]), EQ(v.ctrl[1], v0.ctrl[1])) if v.ctrl else FALSE, "the declared capacity of %s is not modified" % o, *tags)
        if st.val is not c.st.val:
            for r in c.ext:
                y = z3.Int("src!" + r.name)
                excl = OR(*[AND(y == a, TRUE if throw else cond) for a, cond in m.moved], *[AND(a <= y, y < a + n) for a, n in m.moved_ranges])
                self.ob(st, IMP(AND(r.lo <= y, y < r.lo + r.n, NOT(excl)), EQ(st.val.read(y), c.st.val.read(y))),
                        "the source %s is not modified" % r.name, "const", "discipline")

    def inv(self, st, v, throw):
        T = ("exc",) if throw else ("life",)
        ok = True
        for k in v.undef:
            self.ob(st, FALSE, "member %s of %s is initialised" % (k, v.o), *T)
            ok = False
        for nme, f in v.parts():
            ok = self.ob(st, f, "representation invariant (%s) of %s %s" % (nme, v.o, "after an exception" if throw else "at return"),
                         *(T if throw else T + ("func",))) and ok
        if v.ctrl:
            self.ob(st, v.ctrlinv(), "capacity bounds of %s %s" % (v.o, "after an exception" if throw else "at return"), "bounds", *T)
        return ok

    def views(self, st, throw):
        E, c, m = self.E, self.c, self.m
        out = {}
        for o in list(c.views) + ([c.thiso] if c.is_ctor and not throw else []):
            if o in m.bufs and m.bufs[o] is None:
                continue
            out[o] = View(E, st, o)
        return out

    def ret(self, st, val):
        E, c, m = self.E, self.c, self.m
        for kind, (allowed, must, strong) in m.throws.items():
            self.ob(st, NOT(must), "%s is thrown when it has to be" % kind, "func", "strong")
        views = self.views(st, False)
        for o, v in views.items():
            if o in m.bufs:
                self.inv(st, v, False)
        self.memory(st, views, False)
        for o, b in m.bufs.items():
            if b is None:
                continue
            v = views[o]
            if b.cap is not None:
                g = self.ob(st, EQ(v.cap, b.cap), "capacity of %s" % o, "func", *(("stable",) if b.v is not None and b.cap.eq(b.v.cap) else ()))
            if b.size is not None:
                self.ob(st, EQ(v.size, b.size), "size of %s" % o, "func")
            if b.seq is not None:
                i = z3.Int("i!" + o)
                dom = z3.And(0 <= i, i < v.size, i < b.size)
                self.ob(st, IMP(dom, EQ(v.seq(i), b.seq(i))), "elements of %s" % o, "func")
            if not z3.is_false(b.same) and b.v is not None:
                self.ob(st, IMP(b.same, AND(EQ(v.buff, b.v.buff), EQ(v.end, b.v.end))), "storage of %s is not reallocated" % o, "stable")
            if b.first is not None:
                fc = getattr(b, "firstcond", TRUE)
                self.ob(st, IMP(AND(fc, v.size > 0), EQ(v.first, b.first)), "surviving elements of %s keep their addresses" % o, "stable")
            if b.aid is not None and not getattr(b, "anyaid", False):
                self.ob(st, EQ(v.aid, b.aid) if v.aid is not None else FALSE, "allocator of %s" % o, "alloc")
            took = getattr(b, "took", None)
            if took is not None:
                self.ob(st, AND(EQ(v.buff, took.buff), EQ(v.end, took.end)), "%s takes over the storage of %s" % (o, took.o), "stable", "func")
            if b.ctrl is not None:
                self.ob(st, AND(EQ(v.ctrl[0], b.ctrl[0]), EQ(v.ctrl[1], b.ctrl[1])) if v.ctrl else FALSE, "declared capacity of %s" % o, "func")
            if b.icap is not None:
                self.ob(st, b.icap(v), "amount of storage of %s" % o, "bounds")
        self.frame(st, views, m.bufs, False)
        if E.variant.debug:
            debugging.after_return(self, st, views)
        for p in m.streams:
            pass
        self.value(st, val, views)

    def bufof(self, x):
        return x.o if isinstance(x, VObj) and x.off == 0 else None

    def value(self, st, val, views):
        E, c, m = self.E, self.c, self.m
        V = E.variant
        r = m.ret
        it_after = getattr(m, "it_after", None)
        if it_after is not None:
            o, ptr, idx = c.it
            self.iter_is(st, *self.itfields(st, c.thiso), o, it_after, views, "the iterator itself")
        elif c.cls in ("It", "CIt"):
            o, ptr, idx = c.it
            self.iter_is(st, *self.itfields(st, c.thiso), o, idx, views, "the iterator itself")
        if r is None:
            return
        k = r[0]
        if k == "self":
            self.ob(st, TRUE if isinstance(val, VObj) and val.o == c.thiso and val.off == 0 else FALSE, "returns the iterator itself", "func")
        elif k == "int":
            self.ob(st, EQ(self.mathint(st, val), r[1]) if isinstance(val, VInt) else FALSE, "returned number", "func")
        elif k == "bool":
            self.ob(st, self.boolval(val) == r[1], "returned truth value", "func")
        elif k == "boolif":
            self.ob(st, IMP(r[1], self.boolval(val) == r[2]), "returned truth value", "func")
        elif k == "elem":
            self.ob(st, EQ(val.a, r[1]) if isinstance(val, VElem) else FALSE, "returned reference denotes the element", "func")
        elif k == "elemptr":
            self.ob(st, EQ(val.a, r[1]) if isinstance(val, VElem) else FALSE, "returned pointer", "func")
        elif k == "iter":
            b, p = self.iterval(st, val)
            self.iter_is(st, b, p, r[1], r[2], views, "returned iterator")
        elif k == "pair":
            if isinstance(val, VAgg):
                p, n = val.xs
            else:
                p, n = st.get(c.sret, 0, 8), st.get(c.sret, 8, 8)
            self.ob(st, EQ(E.u(st, n), r[3]) if isinstance(n, VInt) else FALSE, "length of the array", "func")
            self.ob(st, IMP(r[3] > 0, EQ(p.a, r[2])) if isinstance(p, VElem) else FALSE, "start of the array", "func")
        elif k == "alloc":
            a = st.get(c.sret, 0, 8) if c.sret else val
            self.ob(st, EQ(a.raw, r[1]) if isinstance(a, VInt) else FALSE, "returned allocator", "func", "alloc")
        elif k == "objref":
            self.ob(st, TRUE if isinstance(val, VObj) and val.o == r[1] and val.off == r[2] else FALSE, "returned reference", "func")
        elif k == "seqeq":
            self.seqeq(st, self.boolval(val), r[1], r[2], r[3])
        elif k == "lexless":
            self.lexless(st, self.boolval(val), r[1], r[2], r[3])
        elif k == "cap":
            x = st.get(val.o, val.off, 8) if isinstance(val, VObj) else val.xs[0]
            y = st.get(val.o, val.off + 8, 8) if isinstance(val, VObj) else val.xs[1]
            self.ob(st, AND(EQ(E.u(st, x), r[1]), EQ(E.u(st, y), r[2])), "returned capacity", "func")
        else:
            raise Unsupported("return form " + k)

    def mathint(self, st, val):
        n = self.c.f
        E = self.E
        if self.c.name == "operator-":
            return E.s(st, val)
        return E.u(st, val)

    def boolval(self, val):
        if isinstance(val, VBool):
            return val.c
        if isinstance(val, VInt) and val.b is not None:
            return val.b
        if isinstance(val, VInt):
            return val.raw % 2 == 1
        raise Unsupported("truth value %r" % (val,))

    def itfields(self, st, o, off=0):
        """(buffer, pointer) of an iterator object"""
        L = self.E.variant.it_layout
        if "reg" in L:
            self.itreg = st.get(o, off + L["reg"], 8)
        return st.get(o, off + L["buff"], 8), st.get(o, off + L["ptr"], 8)

    def iterval(self, st, val):
        """(buffer object value, pointer value) of a returned iterator"""
        c = self.c
        if isinstance(val, VAgg) and len(val.xs) == 2:
            return val.xs[0], val.xs[1]
        if c.sret:
            return self.itfields(st, c.sret)
        if isinstance(val, VObj):
            return self.itfields(st, val.o, val.off)
        raise Unsupported("returned iterator %r" % (val,))

    def iter_is(self, st, b, p, o, idx, views, what):
        v = views[o]
        if self.E.variant.debug:
            self.ob(st, self.itreg.raw == self.E.variant.oid(o) if isinstance(self.itreg, VInt) else FALSE, "%s is valid" % what, "dbg")
        ok = isinstance(b, VObj) and b.o == o and b.off == 0
        self.ob(st, TRUE if ok else FALSE, "%s belongs to %s" % (what, o), "func")
        if not isinstance(p, VElem):
            self.ob(st, FALSE, "%s is initialised" % what, "func")
            return
        self.ob(st, z3.And(z3.Or(p.a == 0, v.slot(p.a)), z3.If(p.a == 0, v.size, v.index(p.a)) == idx), "position of the %s" % what, "func")

    def seqeq(self, st, b, x, y, neg):
        """b (xor neg) <=> sizes equal and all elements equal, in two directions"""
        E = self.E
        V = E.variant
        if neg:
            b = NOT(b)
        eq = (lambda p, q: V.EQV(p, q)) if not V.scalar else (lambda p, q: p == q)
        i = z3.Int("i!cmp")
        self.quant(st, IMP(b, x.size == y.size), "equal buffers have equal size", [])
        self.quant(st, IMP(AND(b, 0 <= i, i < x.size), eq(x.seq(i), y.seq(i))), "equal buffers have equal elements", [i])
        # not b and the sizes agree: some element differs; by negation: all equal for all instances -> b
        F = z3.Function("allidx", z3.IntSort(), z3.BoolSort())
        self.exist(st, z3.And(NOT(b), x.size == y.size), lambda i: IMP(z3.And(0 <= i, i < x.size), eq(x.seq(i), y.seq(i))), "unequal buffers of equal size differ in an element")

    def quant(self, st, goal, name, insts):
        E = self.E
        E.oblige(st, goal, name, ("func",), inst=insts + self.terms(st), assume=False)

    def terms(self, st):
        return [lin(t) for t in getattr(self, "loopterms", [])]

    def exist(self, st, hyp, allprop, name):
        """hyp and (forall i. allprop(i)) is impossible"""
        E = self.E
        q = z3.Int("q!cmp")
        t = st.copy()
        t.assume(hyp)
        t.pc.append(z3.ForAll([q], allprop(q)))
        for k in E.loopvars:
            t.assume(allprop(k))
        t.assume(allprop(iv(0)))
        E.oblige(t, FALSE, name, ("func",), inst=E.loopvars, assume=False)

    def lexless(self, st, b, x, y, neg):
        E = self.E
        V = E.variant
        if neg:
            b = NOT(b)
        lt = (lambda p, q: V.LTV(p, q)) if not V.scalar else (lambda p, q: p < q)
        mn = z3.If(x.size <= y.size, x.size, y.size)
        # b: exists k <= mn: all i<k: not lt(x,y), not lt(y,x);  k<mn and lt(x_k,y_k), or k==mn and |x|<|y|
        # the witness is looked for among the loop counters
        # a and b are lexicographically ordered iff at the first index k where not equivalent: lt(x_k, y_k)
        q, i = z3.Int("q!cmp"), z3.Int("i!cmp")

        def before(k):
            return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.And(NOT(lt(x.seq(i), y.seq(i))), NOT(lt(y.seq(i), x.seq(i))))))

        def wit(k):
            return z3.And(0 <= k, k <= mn, z3.If(k < mn, lt(x.seq(k), y.seq(k)), x.size < y.size))
        cands = E.loopvars + [mn]
        # 1. b implies that some candidate k is a witness with nothing different before it
        t = st.copy()
        t.assume(b)
        js = []
        for k in cands:
            j = E.fresh("j")
            js.append((k, j))
        bad = z3.And(*[z3.Not(z3.And(wit(k), IMP(z3.And(0 <= j, j < k), z3.And(NOT(lt(x.seq(j), y.seq(j))), NOT(lt(y.seq(j), x.seq(j))))))) for k, j in js])
        E.oblige(t, NOT(bad), "a buffer reported smaller is lexicographically smaller", ("func",), inst=[j for _, j in js], assume=False)
        # 2. not b: no witness exists
        t = st.copy()
        t.assume(NOT(b))
        w = z3.Int("w!cmp")
        t.assume(wit(w))
        t.pc.append(before(w))
        for k in E.loopvars:
            t.assume(IMP(z3.And(0 <= k, k < w), z3.And(NOT(lt(x.seq(k), y.seq(k))), NOT(lt(y.seq(k), x.seq(k))))))
        E.oblige(t, FALSE, "a buffer not reported smaller is not lexicographically smaller", ("func",), inst=[w] + E.loopvars, assume=False)

    def throw(self, st):
        E, c, m = self.E, self.c, self.m
        kind = st.trace[0] if st.trace else "unknown"
        allowed, must, strong = m.throws.get(kind, (FALSE, FALSE, FALSE))
        self.ob(st, allowed, "%s is thrown only where documented" % kind, "func", "exc", "nothrow", "strong")
        if z3.is_false(allowed):
            return
        views = self.views(st, True)
        for o in list(views):
            if o in c.views:
                self.inv(st, views[o], True)
        self.memory(st, views, True)
        for o, b in m.bufs.items():
            if b is None or o not in views or b.v is None:
                continue
            v, v0 = views[o], b.v
            if not m.free_storage and not getattr(b, "freecap", False):
                if not z3.is_false(simp(b.same)):
                    self.ob(st, IMP(b.same, AND(EQ(v.buff, v0.buff), EQ(v.end, v0.end))), "storage of %s is kept after an exception" % o, "stable", "exc")
            if v0.ctrl and v.ctrl and not getattr(m, "free_ctrl", False):
                self.ob(st, AND(EQ(v.ctrl[0], v0.ctrl[0]), EQ(v.ctrl[1], v0.ctrl[1])), "declared capacity of %s is kept after an exception" % o, "exc")
        if not z3.is_false(simp(strong)):
            for o, v0 in c.views.items():
                v = views.get(o)
                if v is None:
                    continue
                self.ob(st, IMP(strong, AND(EQ(v.buff, v0.buff), EQ(v.end, v0.end), EQ(v.size, v0.size))), "size, capacity and storage of %s are unchanged (strong guarantee)" % o, "strong")
                if not v.first.eq(v0.first):
                    self.ob(st, IMP(AND(strong, v0.size > 0), EQ(v.first, v0.first)), "elements of %s keep their addresses (strong guarantee)" % o, "strong")
                if st.val is not c.st.val:
                    y = z3.Int("pos!" + o)
                    self.ob(st, IMP(AND(strong, v0.slot(y)), EQ(st.val.read(y), c.st.val.read(y))), "elements of %s are unchanged (strong guarantee)" % o, "strong")
                if v0.ctrl and v.ctrl:
                    self.ob(st, IMP(strong, AND(EQ(v.ctrl[0], v0.ctrl[0]), EQ(v.ctrl[1], v0.ctrl[1]))), "declared capacity of %s is unchanged (strong guarantee)" % o, "strong")
        self.frame(st, views, m.bufs, True)
        if E.variant.debug:
            debugging.after_throw(self, st, views)


class Result:
    def __init__(self, key, scenario, variant):
        self.key, self.scenario, self.variant = key, scenario, variant
        self.status = "ok"
        self.note = ""
        self.obs = []
        self.time = 0.0
        self.outcomes = (0, 0)
        self.loops = []
        self.inlined = []
        self.contracts = []
        self.externs = []
        self.queries = 0
        self.solver_time = 0.0


def discipline(E, c, m):
    """which elements may be copied or moved (C20)"""
    V = E.variant

    def inreg(st, a, kinds):
        return OR(*[AND(st.live[r], r.lo <= a, a < r.lo + r.n) for r in st.regions if r.kind in kinds])
    items = [p for p in c.p if p.kind in ("item", "fwd", "init")]

    def copy_ok(st, a):
        if m.copy_exempt:
            return TRUE
        return OR(*[f(a) for f in m.copy_sources],
                  *[AND(p.a <= a, a < p.a + (p.n if p.kind != "item" else 1)) for p in items],
                  a < 0 if any(p.kind == "num" for p in c.p) else FALSE)     # the item made from a number

    def move_ok(st, a):
        return NOT(inreg(st, a, ("buf",)))
    if V.name in ("nm", "mx"):
        E.copy_ok = copy_ok
    elif V.name in ("tm", "my"):
        E.move_ok = move_ok


def verify(mod, vname, f, con, scenario, budget=120, registry=None, verbose=False):
    V = Variant(vname, mod)
    V.registry = registry
    E = Engine(mod, V, deadline=time.time() + budget, verbose=verbose)
    E.loopvars = []
    E.fn = con.key
    E.root = f.name
    E.rootcon = con
    E.rootcall = None
    res = Result(con.key, scenario, vname)
    t0 = time.time()
    try:
        c, args = build(E, f, con.key, scenario)
        m = con.fn(c)
        c.model = m
        E.rootcall = c
        st = c.W.st
        st.assume(m.pre)
        c.st.assume(m.pre)
        r = E.solver.check(st.pc)
        if r == "unsat":
            res.status, res.note = "vacuous", "the precondition is unsatisfiable"
            return res
        discipline(E, c, m)
        P = Post(E, c, m)
        outs = E.exec_func(st, f, args)
        nr = nt = 0
        for o in outs:
            if not E.feasible(o[1]):
                continue
            if o[0] == "ret":
                nr += 1
                P.ret(o[1], o[2])
            else:
                nt += 1
                P.throw(o[1])
        res.outcomes = (nr, nt)
        if nr == 0:
            res.status, res.note = "vacuous", "no path returns"
    except Unsupported as e:
        res.status, res.note = "unsupported", "%s at %s" % (e, E.where())
        if verbose > 1:
            traceback.print_exc()
    except Budget as e:
        res.status, res.note = "timeout", "%s at %s" % (e, E.where())
    except z3.Z3Exception as e:
        res.status, res.note = "unsupported", "z3: %s" % e
        if verbose:
            traceback.print_exc()
    except Exception as e:
        res.status, res.note = "error", "%s: %s" % (type(e).__name__, e)
        if verbose:
            traceback.print_exc()
    res.time = time.time() - t0
    res.obs = E.obs
    res.loops = E.loops_log
    res.inlined = sorted(E.inlined)
    res.contracts = sorted(E.used_contracts)
    res.externs = sorted(E.externs_used)
    res.queries, res.solver_time = E.solver.n, E.solver.time
    return res


def functions(mod):
    """public functions under contract found in the module: {key: function}"""
    out = {}
    for n, f in mod.funcs.items():
        if f.dem is None:
            continue
        k = key_of(norm(f.dem))
        if k in specs.REG and k not in out:
            out[k] = f
    return out
