"""Iterator debugging (BOOST_CB_ENABLE_DEBUG): the contracts of the registry of valid iterators as they are relied on by
the container (their proof is in cbv/registry.py), and which iterators every operation may invalidate.

An iterator is registered with a buffer (valid) or with none (invalid).  Iterators inside the function under
verification are objects; all iterators outside are represented by the ghost map that says for each slot of each buffer
(and for end()) whether an iterator that pointed there, registered when the function was called, is still registered.
The ghost map shares the map of live elements, at keys that no element address can have."""
import z3

from .engine import AND, EQ, FALSE, MBulk, MPt, NOT, NULL, OR, TRUE, Unsupported, VBool, VElem, VInt, VObj, VUndef, ite, iv, lin, num, simp

K = 1000000
LOW = -500000


KEYS = {}          # ghost keys, by the identity of their term


class MKey(MPt):
    """update of a ghost key: temporaries (small negative addresses) are never meant"""

    def __init__(self, prev, cond, addr, v):
        MPt.__init__(self, prev, cond, addr, v)
        KEYS[addr.get_id()] = addr

    def hit(self, x):
        n = num(x)
        if n is not None and n > LOW:
            return None, None
        return MPt.hit(self, x)


def key(p):
    return lin(-p - K)


def nullkey(V, o):
    return iv(LOW - V.oid(o))


def initial(E):
    """buffers that existed when the function was called"""
    c = E.rootcall
    return c.views if c is not None else {}


def iterators(E, st):
    """objects that hold an iterator"""
    L = E.variant.it_layout
    for o, ty in st.types.items():
        n = getattr(ty, "n", "") or ""
        if o in st.objs and ("cb_details::iterator" in n or "reverse_iterator" in n or "move_iterator" in n):
            c = st.objs[o].get(L["reg"])
            if c is not None and isinstance(c[1], VInt):
                yield o, c[1].raw


def decide(E, st, f):
    f = simp(f)
    if z3.is_true(f) or z3.is_false(f):
        return f
    if E.solver.check(st.pc, f) == "unsat":
        return FALSE
    if E.solver.check(st.pc, NOT(f)) == "unsat":
        return TRUE
    return f


def regid(E, st, v):
    """number of the registry a pointer denotes"""
    if isinstance(v, VObj) and v.off == 0:
        return iv(E.variant.oid(v.o))
    if v is NULL or (isinstance(v, VElem) and num(v.a) == 0):
        return iv(0)
    raise Unsupported("registry %r" % (v,))


def fld(E, st, v, k):
    if not isinstance(v, VObj):
        raise Unsupported("iterator %r" % (v,))
    return st.get(v.o, v.off + E.variant.it_layout[k], 8)


def setreg(E, st, v, raw):
    st.put(v.o, v.off + E.variant.it_layout["reg"], 8, VInt(64, raw))


def getreg(E, st, v):
    c = fld(E, st, v, "reg")
    if not isinstance(c, VInt):
        if isinstance(c, VUndef):
            E.oblige(st, FALSE, "an iterator is initialised when it is used", ("dbg",))
        raise Unsupported("iterator %r" % (c,))
    return c.raw


def it_default(E, st, a, d):
    setreg(E, st, a[0], iv(0))
    return [("ret", st, None)]


def it_ctor(E, st, a, d):
    setreg(E, st, a[0], regid(E, st, a[1]))
    return [("ret", st, None)]


def it_copy(E, st, a, d):
    setreg(E, st, a[0], getreg(E, st, a[1]))
    return [("ret", st, None)]


def it_assign(E, st, a, d):
    setreg(E, st, a[0], getreg(E, st, a[1]))
    return [("ret", st, a[0])]


def it_dtor(E, st, a, d):
    getreg(E, st, a[0])
    setreg(E, st, a[0], iv(0))
    return [("ret", st, None)]


def it_valid(E, st, a, d):
    return [("ret", st, VBool(getreg(E, st, a[0]) == regid(E, st, a[1])))]


def noop(E, st, a, d):
    return [("ret", st, None)]


def local(E, st, o, hit):
    """iterators of the running functions registered with o that hit(pointer) holds of become invalid"""
    V = E.variant
    me = V.oid(o)
    for q, raw in list(iterators(E, st)):
        n = num(raw)
        if n is not None and n != me:
            continue
        p = st.get(q, V.it_layout["ptr"], 8)
        if not isinstance(p, VElem):
            c = TRUE                     # under construction: nobody uses it before it is registered anew
        else:
            c = decide(E, st, hit(p.a))
        if z3.is_false(c):
            continue
        st.put(q, V.it_layout["reg"], 8, VInt(64, ite(AND(c, raw == me), iv(0), raw)))


def invalidate(E, st, a, d):
    o = a[0].o
    p = fld(E, st, a[1], "ptr")
    if not isinstance(p, VElem):
        raise Unsupported("iterator without a position")
    local(E, st, o, lambda q: EQ(q, p.a))
    vs = initial(E)
    if o in vs:
        v = vs[o]
        isnull = decide(E, st, p.a == 0)
        own = TRUE if len(vs) == 1 else AND(v.cap > 0, v.buff <= p.a, p.a < v.end)
        if not z3.is_true(isnull):
            st.alive = MKey(st.alive, AND(NOT(isnull), own), key(p.a), FALSE)
        if not z3.is_false(isnull):
            st.alive = MKey(st.alive, isnull, nullkey(E.variant, o), FALSE)
    return [("ret", st, None)]


def ofbuf(v, x):
    """x is the key of a slot of v"""
    n = num(x)
    if n is not None and n > LOW:
        return FALSE
    p = lin(-x - K)
    return AND(v.cap > 0, v.buff <= p, p < v.end)


def bulk(E, st, o, nulls, others):
    vs = initial(E)
    if o not in vs:
        return
    v = vs[o]
    nk = nullkey(E.variant, o)

    def hit(x):
        n = num(x)
        if n is not None and n > LOW:
            return FALSE
        return OR(AND(nulls, EQ(x, nk)), AND(others, ofbuf(v, x)))
    st.alive = MBulk(st.alive, hit, lambda x: FALSE)


def invalidate_except(E, st, a, d):
    o = a[0].o
    p = fld(E, st, a[1], "ptr")
    if not isinstance(p, VElem) or not z3.is_true(decide(E, st, p.a == 0)):
        raise Unsupported("invalidate_iterators_except of an iterator other than end()")
    local(E, st, o, lambda q: NOT(EQ(q, iv(0))))
    bulk(E, st, o, FALSE, TRUE)
    return [("ret", st, None)]


def invalidate_all(E, st, a, d):
    o = a[0].o
    local(E, st, o, lambda q: TRUE)
    bulk(E, st, o, TRUE, TRUE)
    return [("ret", st, None)]


def assertion(E, st, a, d):
    E.oblige(st, FALSE, "no debug assertion fails in valid use", ("dbg",))
    return []


def fill(E, st, a, d):
    """do_fill_uninitialized_memory: storage that holds no element"""
    if not isinstance(a[0], VElem):
        return [("ret", st, None)]
    p = a[0].a
    n = E.u(st, a[1])
    k = num(n)
    esz = E.variant.esz
    cnt = iv(k // esz) if k is not None and k % esz == 0 else None
    if cnt is None:
        E.oblige(st, n % esz == 0, "whole slots are filled", ("life",))
        cnt = E.fresh("fill")
        st.assume(cnt * esz == n)
    x = E.fresh("x")
    E.oblige(st, z3.Implies(z3.And(p <= x, x < p + cnt), AND(E.variant.within(E, st, x), NOT(st.alive.read(x)))),
             "only storage that holds no element is filled", ("life",), assume=False)
    return [("ret", st, None)]


def setup(V):
    t = V.table
    B, R = "debug_iterator_base::", "debug_iterator_registry::"
    t[B + "debug_iterator_base()"] = it_default
    t[B + "debug_iterator_base(debug_iterator_registry const*)"] = it_ctor
    t[B + "debug_iterator_base(debug_iterator_base const&)"] = it_copy
    t[B + "operator=(debug_iterator_base const&)"] = it_assign
    t[B + "~debug_iterator_base()"] = it_dtor
    t[B + "is_valid(debug_iterator_registry const*) const"] = it_valid
    t[R + "debug_iterator_registry()"] = noop
    t["void " + R + "invalidate_iterators<It>(It const&)"] = invalidate
    t["void " + R + "invalidate_iterators_except<It>(It const&)"] = invalidate_except
    t[R + "invalidate_all_iterators()"] = invalidate_all
    t["void do_fill_uninitialized_memory<Elem>(Elem*, size_t)"] = fill
    import re
    V.patterns.append((re.compile(r"^boost::assertion_failed"), assertion))


# ---------------------------------------------------------------- which iterators stay valid
def zmin(a, b):
    return z3.If(a <= b, a, b)


def keeps(c):
    """{buffer: (index -> stays valid, end() stays valid)} after the call returns"""
    all_, none = (lambda i: TRUE), (lambda i: FALSE)
    out = {}
    key_ = c.key
    this = c.this
    name = c.name
    for o in c.views:
        out[o] = (all_, TRUE)
    bufs = [p.o for p in c.p if p.kind == "buf"]
    if name == "swap" or (name in ("operator=", "circular_buffer", "circular_buffer_space_optimized") and "&&" in key_):
        for o in c.views:
            out[o] = (none, FALSE)
        return out
    if name.startswith("~"):
        out[c.thiso] = (none, FALSE)
        return out
    if this is None or c.const or c.cls not in ("CB", "SO"):
        return out
    o = this.o
    n, cap = this.size, this.cap
    OBS = ("begin", "end", "rbegin", "rend", "operator[]", "at", "front", "back", "array_one", "array_two", "get_allocator")
    if name in OBS:
        return out
    if name == "operator=" and bufs == [o]:
        return out
    if c.cls == "SO":
        out[o] = (none, TRUE)
        return out
    full = n == cap
    p0 = c.p[0] if c.p else None
    k = none
    if name == "push_back":
        k = lambda i: OR(NOT(full), i != 0)
    elif name == "push_front":
        k = lambda i: OR(NOT(full), i + 1 != n)
    elif name == "pop_back":
        k = lambda i: i + 1 != n
    elif name == "pop_front":
        k = lambda i: i != 0
    elif name in ("insert", "rinsert"):
        pos = p0.idx
        cnt = c.p[1].n if len(c.p) > 1 and c.p[1].kind in ("n", "fwd", "init", "mov") else iv(1)
        if name == "insert":
            take = zmin(cnt, cap - n + pos)
            ev = take - zmin(take, cap - n)
            k = lambda i: OR(take == 0, z3.And(i < pos, i >= ev))
        else:
            take = zmin(cnt, cap - pos)
            ev = take - zmin(take, cap - n)
            k = lambda i: OR(take == 0, z3.And(i >= pos, i + ev < n))
    elif name in ("erase", "rerase"):
        a = p0.idx
        b = c.p[1].idx if len(c.p) > 1 else a + 1
        if name == "erase":
            k = lambda i: z3.Or(a == b, i < a)
        else:
            k = lambda i: z3.Or(a == b, i >= b)
    elif name == "erase_begin":
        k = lambda i: i >= p0.n
    elif name == "erase_end":
        k = lambda i: i + p0.n < n
    elif name == "rotate":
        before, after = p0.idx, n - p0.idx
        k = lambda i: z3.Or(full, z3.If(after < before, i < before, i >= before))
    elif name in ("set_capacity", "rset_capacity"):
        k = lambda i: p0.n == cap
    elif name == "resize":
        k = lambda i: z3.And(p0.n <= cap, i < p0.n)
    elif name == "rresize":
        k = lambda i: z3.And(p0.n <= cap, z3.Or(p0.n >= n, i >= n - p0.n))
    elif name == "linearize":
        linear = z3.Or(n == 0, this.first + n <= this.end)
        k = lambda i: linear
    out[o] = (k, TRUE)
    return out


def valid_at(st, v, i):
    """iterators outside that pointed to the element at index i of v are registered"""
    return st.alive.read(key(v.addr(i)))


def after_return(post, st, views):
    E, c = post.E, post.c
    for o, (k, endk) in keeps(c).items():
        v0 = c.views[o]
        i = z3.Int("it!" + o)
        dom = z3.And(0 <= i, i < v0.size)
        post.ob(st, z3.Implies(dom, valid_at(st, v0, i) == k(i)), "exactly the documented iterators of %s are invalidated" % o, "dbg")
        post.ob(st, st.alive.read(nullkey(E.variant, o)) == endk, "end() iterators of %s stay valid exactly when documented" % o, "dbg")
        v = views.get(o)
        if v is not None and not z3.is_false(k(i)):
            post.ob(st, z3.Implies(AND(dom, k(i)), AND(v.slot(v0.addr(i)), EQ(st.val.read(v0.addr(i)), v0.seq(i)))),
                    "iterators of %s that stay valid denote the element they denoted" % o, "dbg")


def after_throw(post, st, views):
    E, c = post.E, post.c
    for o, v0 in c.views.items():
        v = views.get(o)
        i = z3.Int("it!" + o)
        dom = z3.And(0 <= i, i < v0.size)
        post.ob(st, z3.Implies(AND(dom, valid_at(st, v0, i)), v.slot(v0.addr(i)) if v is not None else FALSE),
                "iterators of %s that are valid after an exception denote an element" % o, "dbg")


# ---------------------------------------------------------------- calls replaced by their contract
CONTRACTS = {"CB::%s(%s)" % (f, a) for f in ("insert", "rinsert") for a in ("It,InIt,InIt", "It,move_iterator<DIt>,move_iterator<DIt>", "It,Elem const*,Elem const*", "It,size_t,Elem const&")}


def lose(E, st, o, w, stay, endstay):
    """iterators into w stay registered only as far as stay(address) and endstay say"""
    me = E.variant.oid(o)
    for q, raw in list(iterators(E, st)):
        n = num(raw)
        if n is not None and n != me:
            continue
        p = st.get(q, E.variant.it_layout["ptr"], 8)
        ok = ite(p.a == 0, endstay, stay(p.a)) if isinstance(p, VElem) else E.fresh("reg", z3.BoolSort())
        st.put(q, E.variant.it_layout["reg"], 8, VInt(64, ite(AND(raw == me, NOT(ok)), iv(0), raw)))
    if o in initial(E):
        old = st.alive
        nk = nullkey(E.variant, o)
        st.alive = MBulk(st.alive, lambda x: FALSE if (num(x) or LOW) > LOW else OR(ofbuf(w, x), EQ(x, nk)),
                         lambda x: AND(old.read(x), ite(EQ(x, nk), endstay, stay(key(x)))))


def after_call(E, st, c):
    for o, (k, endk) in keeps(c).items():
        w = c.views[o]
        f = E.freshfn("regs", z3.BoolSort())
        lose(E, st, o, w, lambda p, w=w, k=k, f=f: ite(w.slot(p), k(w.index(p)), f(p)), endk)


def after_failed_call(E, st, c):
    for o, w in c.views.items():
        f = E.freshfn("regs", z3.BoolSort())
        v = View_of(E, st, o)
        lose(E, st, o, w, lambda p, v=v, f=f: AND(f(p), v.slot(p)), E.fresh("regend", z3.BoolSort()))


def View_of(E, st, o):
    from .world import View
    return View(E, st, o)
