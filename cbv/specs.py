"""The contracts.  One entry per public function of circular_buffer, circular_buffer_space_optimized, the iterators and the
comparison operators: what the abstract buffer (capacity, size, sequence, storage) is after the call, what is returned,
what may be thrown.  A contract never refers to how a function computes its effect."""
import z3

from .engine import AND, EQ, FALSE, NOT, OR, TRUE, VInt, ite, iv, lin, num, simp
from .world import BufModel, IMP, MIT, Model, iter_index

REG = {}


class Contract:
    def __init__(self, key, fn, props, scenarios=("",), group=None, modular=True, hints=None):
        self.key, self.fn, self.props, self.scenarios, self.group = key, fn, props, scenarios, group
        self.modular = modular


class LoopInv:
    """an invariant for a loop, over the local variables named in `roles`"""

    def __init__(self, name, roles, fn):
        self.name, self.roles, self.fn = name, roles, fn


def numbers(fn):
    """fn for calls (count, item) through the range templates: the item is first made from a number"""
    def f(c):
        m = fn(c)
        if not c.E.variant.scalar and any(p.kind == "num" for p in c.p):
            al, must, strong = m.throws.get("elem", (FALSE, FALSE, TRUE))
            m.throws["elem"] = (TRUE, must, strong)
        return m
    f.__name__ = fn.__name__
    return f


def spec(*keys, props, scenarios=("",), modular=True):
    def deco(fn):
        if any("short" in k for k in keys):
            fn = numbers(fn)
        for k in keys:
            REG[k] = Contract(k, fn, props, scenarios, fn.__name__, modular)
        return fn
    return deco


def zmin(a, b):
    return z3.If(a <= b, a, b)


def zmax(a, b):
    return z3.If(a >= b, a, b)


I = "Elem const*"
ALLP = ("C09", "C10", "C12", "C19", "C20", "C21", "C22")


# ---------------------------------------------------------------- helpers
def maxn(c):
    return iv(c.E.max_elems)


def item_value(c, p):
    if p.kind == "num":
        return c.E.variant.number(p.d)
    return c.st.val.read(p.a)


def same(v, **k):
    return BufModel(v, **k)


def nm(c):
    """elements move without throwing"""
    return not c.E.variant.move_throws


def cpy(c, cond=TRUE):
    return FALSE if c.E.variant.scalar else cond


def mvt(c, cond=TRUE):
    """relocating an element may throw"""
    return cond if c.E.variant.move_throws else FALSE


def elem_src(c, p):
    """items of an item / range argument: (number, function of the index)"""
    v0 = c.st.val
    if p.kind in ("item", "ritem", "num"):
        x = item_value(c, p)
        return lambda k: x
    return lambda k: v0.read(lin(p.a + k))


# ---------------------------------------------------------------- observers (C01)
def obs(ret, pre=None):
    def fn(c):
        m = Model()
        m.ret = ret(c, c.this)
        if pre is not None:
            m.pre = pre(c, c.this)
        return m
    return fn


def reg(key, fn, props, scenarios=("",), modular=True):
    REG[key] = Contract(key, fn, props, scenarios, key.split("(")[0], modular)


C01 = ("C01", "C22") + ("C09", "C10", "C19", "C12")
for cls in ("CB",):
    for k, r in (("size() const", lambda c, v: ("int", v.size)),
                 ("empty() const", lambda c, v: ("bool", v.size == 0)),
                 ("full() const", lambda c, v: ("bool", v.size == v.cap)),
                 ("reserve() const", lambda c, v: ("int", v.cap - v.size)),
                 ("capacity() const", lambda c, v: ("int", v.cap)),
                 ("max_size() const", lambda c, v: ("int", iv(c.E.max_elems))),
                 ("is_linearized() const", lambda c, v: ("boolif", v.size > 0, z3.Or(v.size == 0, v.first + v.size <= v.end))),
                 ("begin() const", lambda c, v: ("iter", c.thiso, iv(0))),
                 ("cbegin() const", lambda c, v: ("iter", c.thiso, iv(0))),
                 ("begin()", lambda c, v: ("iter", c.thiso, iv(0))),
                 ("end() const", lambda c, v: ("iter", c.thiso, v.size)),
                 ("cend() const", lambda c, v: ("iter", c.thiso, v.size)),
                 ("end()", lambda c, v: ("iter", c.thiso, v.size)),
                 ("rbegin()", lambda c, v: ("iter", c.thiso, v.size)),
                 ("rbegin() const", lambda c, v: ("iter", c.thiso, v.size)),
                 ("rend()", lambda c, v: ("iter", c.thiso, iv(0))),
                 ("rend() const", lambda c, v: ("iter", c.thiso, iv(0))),
                 ("get_allocator() const", lambda c, v: ("alloc", v.aid)),
                 ("get_allocator()", lambda c, v: ("objref", c.thiso, c.E.variant.alloc_off))):
        reg("CB::" + k, obs(r), C01)
    for k, r in (("front()", lambda c, v: ("elem", v.addr(iv(0)))),
                 ("front() const", lambda c, v: ("elem", v.addr(iv(0)))),
                 ("back()", lambda c, v: ("elem", v.addr(v.size - 1))),
                 ("back() const", lambda c, v: ("elem", v.addr(v.size - 1)))):
        reg("CB::" + k, obs(r, lambda c, v: v.size > 0), C01)
    for k in ("operator[](size_t)", "operator[](size_t) const"):
        reg("CB::" + k, obs(lambda c, v: ("elem", v.addr(c.p[0].n)), lambda c, v: c.p[0].n < v.size), C01)


def array_one(c):
    m = Model()
    v = c.this
    n1 = zmin(v.size, v.end - v.first)
    m.ret = ("pair", IMP(v.size > 0, TRUE), v.first, z3.If(v.size > 0, n1, iv(0)))
    return m


def array_two(c):
    m = Model()
    v = c.this
    n1 = zmin(v.size, v.end - v.first)
    n2 = z3.If(v.size > 0, v.size - n1, iv(0))
    m.ret = ("pair", TRUE, v.buff, n2)
    return m


for s in ("()", "() const"):
    reg("CB::array_one" + s, array_one, C01)
    reg("CB::array_two" + s, array_two, C01)


@spec("CB::at(size_t)", "CB::at(size_t) const", props=C01 + ("C11",))
def at(c):
    m = Model()
    v, n = c.this, c.p[0].n
    m.throw("out_of_range", n >= v.size, n >= v.size, TRUE)
    m.ret = ("elem", v.addr(n))
    return m


# ---------------------------------------------------------------- push / pop (C02)
PUSH = ("C02",) + ALLP + ("C11",)


def push_back_model(c, v, val, addr=None):
    m = Model()
    full = v.size == v.cap
    zero = v.cap == 0
    e = z3.If(AND(full, NOT(zero)), iv(1), iv(0))
    n = z3.If(zero, iv(0), z3.If(full, v.size, v.size + 1))
    m.bufs[v.o] = BufModel(v, size=n, seq=lambda i: ite(i == n - 1, val, v.seq(i + e)), first=v.wrap(v.first + e))
    return m, full, zero


def push_front_model(c, v, val, addr=None):
    m = Model()
    full = v.size == v.cap
    zero = v.cap == 0
    n = z3.If(zero, iv(0), z3.If(full, v.size, v.size + 1))
    m.bufs[v.o] = BufModel(v, size=n, seq=lambda i: ite(i == 0, val, v.seq(i - 1)), first=z3.If(zero, v.first, v.wrapm(v.first - 1)))
    return m, full, zero


def push(c, model, strong=True):
    v = c.this
    if c.p:
        p = c.p[0]
        val = item_value(c, p)
        copies = p.kind == "item"
    else:
        p = None
        val = c.E.variant.DEF
        copies = False
    m, full, zero = model(c, v, val)
    if p is not None and p.kind == "ritem":
        m.moved.append((p.a, NOT(zero)))
    if p is not None and p.kind == "item":
        m.copy_sources.append(lambda x: x == p.a)
    if p is None:
        m.user(strong=z3.Or(NOT(full), TRUE if nm(c) else FALSE), elem=cpy(c))       # the default constructor
    elif copies:
        m.user(strong=NOT(full), elem=cpy(c, NOT(zero)))
    else:
        m.user(strong=NOT(full), elem=mvt(c, NOT(zero)))
    return m


@spec("CB::push_back(Elem const&)", props=PUSH, scenarios=("", "alias"))
@spec("CB::push_back(Elem&&)", "CB::push_back()", props=PUSH)
def push_back(c):
    return push(c, push_back_model)


@spec("CB::push_front(Elem const&)", props=PUSH, scenarios=("", "alias"))
@spec("CB::push_front(Elem&&)", "CB::push_front()", props=PUSH)
def push_front(c):
    return push(c, push_front_model)


@spec("CB::pop_back()", props=PUSH)
def pop_back(c):
    m = Model()
    v = c.this
    m.pre = v.size > 0
    m.bufs[v.o] = BufModel(v, size=v.size - 1, first=v.first)
    return m


@spec("CB::pop_front()", props=PUSH)
def pop_front(c):
    m = Model()
    v = c.this
    m.pre = v.size > 0
    m.bufs[v.o] = BufModel(v, size=v.size - 1, seq=lambda i: v.seq(i + 1), first=v.wrap(v.first + 1))
    return m


# ---------------------------------------------------------------- insert (C03) / rinsert (C04)
def one_item(c, k=1):
    if len(c.p) > k:
        p = c.p[k]
        return p, item_value(c, p)
    return None, c.E.variant.DEF


def insert_one_model(c, v, pos, val):
    m = Model()
    full = v.size == v.cap
    nop = AND(full, pos == 0)
    e = z3.If(full, iv(1), iv(0))
    n = z3.If(full, v.size, v.size + 1)
    at_ = pos - e

    def seq(i):
        return ite(nop, v.seq(i), ite(i < at_, v.seq(i + e), ite(i == at_, val, v.seq(i - 1 + e))))
    m.bufs[v.o] = BufModel(v, size=n, seq=seq, first=z3.If(nop, v.first, v.wrap(v.first + e)))
    m.ret = ("iter", v.o, z3.If(nop, iv(0), at_))
    return m, nop, full


def rinsert_one_model(c, v, pos, val):
    m = Model()
    full = v.size == v.cap
    nop = AND(full, pos == v.size)
    n = z3.If(full, v.size, v.size + 1)

    def seq(i):
        return ite(nop, v.seq(i), ite(i < pos, v.seq(i), ite(i == pos, val, v.seq(i - 1))))
    m.bufs[v.o] = BufModel(v, size=n, seq=seq, first=z3.If(nop, v.first, v.wrapm(v.first - 1)))
    m.ret = ("iter", v.o, pos)
    return m, nop, full


def ins_throws(c, m, p, nop, full, edge):
    m.copy_sources.append(lambda x: x == p.a if p is not None and p.kind == "item" else FALSE)
    if p is not None and p.kind == "ritem":
        m.moved.append((p.a, NOT(nop)))
        m.user(strong=AND(edge, NOT(full)), elem=mvt(c, NOT(nop)))
    elif p is None:
        m.user(strong=OR(AND(edge, NOT(full)), TRUE if nm(c) else FALSE), elem=cpy(c))
    else:
        m.user(strong=AND(edge, NOT(full)), elem=cpy(c, NOT(nop)))


INS = ("C03",) + ALLP + ("C11",)
RINS = ("C04",) + ALLP + ("C11",)


@spec("CB::insert(It,Elem const&)", "CB::insert(It,Elem&&)", "CB::insert(It)", props=INS)
def insert_one(c):
    v = c.this
    pos = c.p[0].idx
    p, val = one_item(c)
    m, nop, full = insert_one_model(c, v, pos, val)
    ins_throws(c, m, p, nop, full, pos == v.size)
    return m


@spec("CB::rinsert(It,Elem const&)", "CB::rinsert(It,Elem&&)", "CB::rinsert(It)", props=RINS)
def rinsert_one(c):
    v = c.this
    pos = c.p[0].idx
    p, val = one_item(c)
    m, nop, full = rinsert_one_model(c, v, pos, val)
    ins_throws(c, m, p, nop, full, pos == 0)
    return m


def insert_many_model(c, v, pos, n, src):
    m = Model()
    take = zmin(n, v.cap - v.size + pos)
    con = zmin(take, v.cap - v.size)
    e = take - con

    def seq(i):
        j = i + e
        return ite(j < pos, v.seq(j), ite(j < pos + take, src(n - take + (j - pos)), v.seq(j - take)))
    m.bufs[v.o] = BufModel(v, size=v.size + con, seq=seq, first=v.wrap(v.first + e))
    return m, take


def rinsert_many_model(c, v, pos, n, src):
    m = Model()
    take = zmin(n, v.cap - pos)
    con = zmin(take, v.cap - v.size)

    def seq(i):
        return ite(i < pos, v.seq(i), ite(i < pos + take, src(i - pos), v.seq(i - take)))
    m.bufs[v.o] = BufModel(v, size=v.size + con, seq=seq, first=v.wrapm(v.first - take))
    return m, take


@spec("CB::insert(It,size_t,Elem const&)", "CB::insert(It,short,short)", "CB::insert(It,%s,%s)" % (I, I), "CB::insert(It,InIt,InIt)", "CB::insert(It,%s,%s)" % (MIT, MIT), props=INS)
def insert_many(c):
    v = c.this
    pos = c.p[0].idx
    p = c.p[2] if c.p[1].kind == "n" else c.p[1]
    n = c.p[1].n
    m, take = insert_many_model(c, v, pos, n, elem_src(c, p))
    m.copy_exempt = p.kind != "init"
    m.user(elem=cpy(c, take > 0))
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        # elements before the insertion point stay where they are, if any is left
        m.bufs[v.o].firstcond = simp(pos - take + zmin(take, v.cap - v.size) > 0)
        # one item at a time: where the insertion point stands after t items
        m.prefix = {"index": [lambda t: pos + t - zmax(iv(0), v.size + t - v.cap)]}
    return m


@spec("CB::rinsert(It,size_t,Elem const&)", "CB::rinsert(It,short,short)", "CB::rinsert(It,%s,%s)" % (I, I), "CB::rinsert(It,InIt,InIt)", "CB::rinsert(It,%s,%s)" % (MIT, MIT), props=RINS)
def rinsert_many(c):
    v = c.this
    pos = c.p[0].idx
    p = c.p[2] if c.p[1].kind == "n" else c.p[1]
    n = c.p[1].n
    m, take = rinsert_many_model(c, v, pos, n, elem_src(c, p))
    m.copy_exempt = p.kind != "init"
    m.user(elem=cpy(c, take > 0))
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        m.bufs[v.o].firstcond = simp(pos + take < v.size + zmin(take, v.cap - v.size))
        m.prefix = {"index": [lambda t: pos + t], "bounds": [v.cap - pos]}
    return m


# ---------------------------------------------------------------- erase (C05)
ER = ("C05",) + ALLP


def erase_model(c, v, a, b):
    m = Model()
    k = b - a
    m.bufs[v.o] = BufModel(v, size=v.size - k, seq=lambda i: ite(i < a, v.seq(i), v.seq(i + k)), first=v.first)
    m.ret = ("iter", v.o, a)
    return m


def rerase_model(c, v, a, b):
    m = Model()
    k = b - a
    m.bufs[v.o] = BufModel(v, size=v.size - k, seq=lambda i: ite(i < a, v.seq(i), v.seq(i + k)), first=v.wrap(v.first + k))
    m.ret = ("iter", v.o, z3.If(a == b, a, z3.If(a > 0, a - 1, iv(0))))
    return m


@spec("CB::erase(It)", props=ER)
def erase_one(c):
    v, a = c.this, c.p[0].idx
    m = erase_model(c, v, a, a + 1)
    m.pre = a < v.size
    return m.user(elem=mvt(c, a + 1 < v.size))


@spec("CB::erase(It,It)", props=ER)
def erase_range(c):
    v, a, b = c.this, c.p[0].idx, c.p[1].idx
    m = erase_model(c, v, a, b)
    m.pre = a <= b
    return m.user(elem=mvt(c, AND(a < b, b < v.size)))


@spec("CB::rerase(It)", props=ER)
def rerase_one(c):
    v, a = c.this, c.p[0].idx
    m = rerase_model(c, v, a, a + 1)
    m.pre = a < v.size
    return m.user(elem=mvt(c, a > 0))


@spec("CB::rerase(It,It)", props=ER)
def rerase_range(c):
    v, a, b = c.this, c.p[0].idx, c.p[1].idx
    m = rerase_model(c, v, a, b)
    m.pre = a <= b
    return m.user(elem=mvt(c, AND(a < b, a > 0)))


@spec("CB::erase_begin(size_t)", props=ER)
def erase_begin(c):
    v, n = c.this, c.p[0].n
    m = rerase_model(c, v, iv(0), n)
    m.ret = None
    m.pre = n <= v.size
    return m


@spec("CB::erase_end(size_t)", props=ER)
def erase_end(c):
    v, n = c.this, c.p[0].n
    m = erase_model(c, v, v.size - n, v.size)
    m.ret = None
    m.pre = n <= v.size
    return m


@spec("CB::clear()", props=ER)
def clear(c):
    m = Model()
    m.bufs[c.this.o] = BufModel(c.this, size=iv(0))
    return m


# ---------------------------------------------------------------- capacity (C06)
CAPP = ("C06", "C11") + ALLP


def set_cap(c, front):
    m = Model()
    v, n = c.this, c.p[0].n
    keep = zmin(n, v.size)
    off = iv(0) if front else v.size - keep
    ch = n != v.cap
    m.bufs[v.o] = BufModel(v, cap=n, size=keep, seq=lambda i: v.seq(i + off), same=NOT(ch), first=z3.If(ch, iv(-1), v.first))
    m.bufs[v.o].firstcond = NOT(ch)
    m.throw("length_error", AND(ch, n > maxn(c)), AND(ch, n > maxn(c)), TRUE)
    m.throw("alloc", AND(ch, n > 0), FALSE, TRUE)
    if not nm(c):
        m.throw("elem", AND(ch, keep > 0), FALSE, TRUE)
    return m


@spec("CB::set_capacity(size_t)", props=CAPP)
def set_capacity(c):
    return set_cap(c, True)


@spec("CB::rset_capacity(size_t)", props=CAPP)
def rset_capacity(c):
    return set_cap(c, False)


def resize_model(c, back):
    m = Model()
    v, n = c.this, c.p[0].n
    val = item_value(c, c.p[1])
    grow = n > v.cap
    if back:
        seq = lambda i: ite(i < v.size, v.seq(i), val)
        first = v.first
    else:
        k = n - v.size
        seq = lambda i: ite(k >= 0, ite(i < k, val, v.seq(i - k)), v.seq(i - k))
        first = z3.If(k >= 0, v.wrapm(v.first - k), v.wrap(v.first - k))
    m.bufs[v.o] = BufModel(v, cap=z3.If(grow, n, v.cap), size=n, seq=seq, same=NOT(grow), first=first)
    m.bufs[v.o].firstcond = NOT(grow)
    m.throw("length_error", AND(grow, n > maxn(c)), AND(grow, n > maxn(c)), TRUE)
    m.throw("alloc", grow, FALSE, TRUE)
    m.throw("elem", cpy(c, n > v.size))
    m.free_storage = True
    m.copy_exempt = True
    return m


@spec("CB::resize(size_t,Elem const&)", props=CAPP)
def resize(c):
    return resize_model(c, True)


@spec("CB::rresize(size_t,Elem const&)", props=CAPP)
def rresize(c):
    return resize_model(c, False)


# ---------------------------------------------------------------- construction, assignment (C07)
CON = ("C07", "C11") + ALLP


def newbuf(c, cap, size, seq, aid, ctrl=None, icap=None):
    b = BufModel(None, cap=cap, size=size, seq=seq, same=FALSE, aid=aid, ctrl=ctrl, icap=icap)
    return b


def construct(c, cap, size, seq, aid, elem=True):
    m = Model()
    m.ctor = True
    m.bufs[c.thiso] = newbuf(c, cap, size, seq, aid)
    m.throw("length_error", cap > maxn(c), cap > maxn(c))
    m.throw("alloc", cap > 0)
    if elem is not False:
        m.throw("elem", cpy(c, size > 0) if elem is True else elem)
    return m


@spec("CB::circular_buffer(Al const&)", props=CON)
def ctor_empty(c):
    m = Model()
    m.ctor = True
    m.bufs[c.thiso] = newbuf(c, iv(0), iv(0), lambda i: c.E.variant.DEF, c.p[0].aid)
    return m


@spec("CB::circular_buffer(size_t,Al const&)", props=CON)
def ctor_cap(c):
    return construct(c, c.p[0].n, iv(0), lambda i: c.E.variant.DEF, c.p[1].aid, elem=False)


@spec("CB::circular_buffer(size_t,Elem const&,Al const&)", "CB::circular_buffer(short,short,Al const&)", props=CON)
def ctor_fill(c):
    val = item_value(c, c.p[1])
    m = construct(c, c.p[0].n, c.p[0].n, lambda i: val, c.p[2].aid)
    return m


@spec("CB::circular_buffer(size_t,size_t,Elem const&,Al const&)", "CB::circular_buffer(size_t,short,short,Al const&)", props=CON)
def ctor_cap_fill(c):
    val = item_value(c, c.p[2])
    m = construct(c, c.p[0].n, c.p[1].n, lambda i: val, c.p[3].aid)
    m.pre = c.p[0].n >= c.p[1].n
    return m


@spec("CB::circular_buffer(%s,%s,Al const&)" % (I, I), "CB::circular_buffer(InIt,InIt,Al const&)", "CB::circular_buffer(%s,%s,Al const&)" % (MIT, MIT), props=CON)
def ctor_range(c):
    p = c.p[0]
    m = construct(c, p.n, p.n, elem_src(c, p), c.p[2].aid)
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        m.throw("alloc", TRUE)
        m.throw("length_error", TRUE)
    return m


@spec("CB::circular_buffer(size_t,%s,%s,Al const&)" % (I, I), "CB::circular_buffer(size_t,InIt,InIt,Al const&)", "CB::circular_buffer(size_t,%s,%s,Al const&)" % (MIT, MIT), props=CON)
def ctor_cap_range(c):
    cap, p = c.p[0].n, c.p[1]
    n = p.n
    k = zmin(cap, n)
    src = elem_src(c, p)
    m = construct(c, cap, k, lambda i: src(n - k + i), c.p[3].aid)
    if p.kind == "mov":
        m.moved_ranges.append((lin(p.a + p.n - k), k))
    if p.kind == "init":
        m.streams.append(p)
        m.prefix = {"index": []}
    return m


@spec("CB::circular_buffer(CB const&)", props=CON)
def ctor_copy(c):
    w = c.views[c.p[0].o]
    m = construct(c, w.cap, w.size, w.seq, w.aid)
    m.throw("length_error", FALSE)
    m.copy_sources.append(lambda x: w.slot(x))
    return m


def emptied(c, w, aid):
    b = BufModel(w, cap=iv(0), size=iv(0), same=FALSE, aid=aid)
    b.anyaid = True
    return b


@spec("CB::circular_buffer(CB&&)", props=CON)
def ctor_move(c):
    w = c.views[c.p[0].o]
    m = Model()
    m.ctor = True
    b = newbuf(c, w.cap, w.size, w.seq, w.aid)
    b.took = w
    b.first = w.first
    m.bufs[c.thiso] = b
    m.bufs[w.o] = emptied(c, w, w.aid)
    return m


@spec("CB::~circular_buffer()", props=CON)
def dtor(c):
    m = Model()
    m.bufs[c.thiso] = None
    return m


@spec("CB::operator=(CB const&)", props=CON, scenarios=("", "self"))
def assign_copy(c):
    v, w = c.this, c.views[c.p[0].o]
    m = Model()
    m.ret = ("objref", v.o, 0)
    if v.o == w.o:
        return m
    m.bufs[v.o] = BufModel(v, cap=w.cap, size=w.size, seq=w.seq, same=FALSE)
    m.throw("elem", cpy(c, w.size > 0), FALSE, TRUE)
    m.throw("alloc", w.cap > 0, FALSE, TRUE)
    m.copy_sources.append(lambda x: w.slot(x))
    return m


@spec("CB::operator=(CB&&)", props=CON)
def assign_move(c):
    v, w = c.this, c.views[c.p[0].o]
    m = Model()
    m.ret = ("objref", v.o, 0)
    b = BufModel(v, cap=w.cap, size=w.size, seq=w.seq, same=FALSE, aid=w.aid, first=w.first)
    b.took = w
    m.bufs[v.o] = b
    m.bufs[w.o] = emptied(c, w, w.aid)
    return m


@spec("CB::swap(CB&)", "swap(CB&,CB&)", props=CON, scenarios=("", "self"))
def swap(c):
    if c.this is not None:
        v, w = c.this, c.views[c.p[0].o]
    else:
        v, w = c.views[c.p[0].o], c.views[c.p[1].o]
    m = Model()
    if v.o == w.o:
        return m
    for a, b in ((v, w), (w, v)):
        x = BufModel(a, cap=b.cap, size=b.size, seq=b.seq, same=FALSE, aid=b.aid, first=b.first)
        x.took = b
        m.bufs[a.o] = x
    return m


def assign_model(c, cap, size, seq, p=None, multi=False):
    m = Model()
    v = c.this
    ch = cap != v.cap
    m.bufs[v.o] = BufModel(v, cap=cap, size=size, seq=seq, same=NOT(ch))
    m.throw("length_error", AND(ch, cap > maxn(c)), AND(ch, cap > maxn(c)), ch)
    m.throw("alloc", AND(ch, cap > 0), FALSE, ch)
    m.throw("elem", cpy(c, size > 0), FALSE, ch)
    return m


@spec("CB::assign(size_t,Elem const&)", "CB::assign(short,short)", props=CON)
def assign_fill(c):
    val = item_value(c, c.p[1])
    return assign_model(c, c.p[0].n, c.p[0].n, lambda i: val)


@spec("CB::assign(size_t,size_t,Elem const&)", "CB::assign(size_t,short,short)", props=CON)
def assign_cap_fill(c):
    val = item_value(c, c.p[2])
    m = assign_model(c, c.p[0].n, c.p[1].n, lambda i: val)
    m.pre = c.p[0].n >= c.p[1].n
    return m


@spec("CB::assign(%s,%s)" % (I, I), "CB::assign(InIt,InIt)", "CB::assign(%s,%s)" % (MIT, MIT), props=CON)
def assign_range(c):
    p = c.p[0]
    m = assign_model(c, p.n, p.n, elem_src(c, p))
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        m.throw("alloc", TRUE, FALSE, TRUE)
    return m


@spec("CB::assign(size_t,%s,%s)" % (I, I), "CB::assign(size_t,InIt,InIt)", "CB::assign(size_t,%s,%s)" % (MIT, MIT), props=CON)
def assign_cap_range(c):
    cap, p = c.p[0].n, c.p[1]
    k = zmin(cap, p.n)
    src = elem_src(c, p)
    m = assign_model(c, cap, k, lambda i: src(p.n - k + i))
    if p.kind == "mov":
        m.moved_ranges.append((lin(p.a + p.n - k), k))
    if p.kind == "init":
        m.streams.append(p)
    return m


# ---------------------------------------------------------------- linearize / rotate (C08)
class Claim:
    """what a loop invariant says: formulas, the content of every slot of the buffer, which slots hold elements, a variant"""

    def __init__(self, inv, val, alive, variant):
        self.inv, self.val, self.alive, self.variant = inv, val, alive, variant


def linearize_state(v, g):
    """[buff, dest) holds its final elements; the next ones start at src; what was displaced stands between first and src,
    what was not yet displaced between dest and first"""
    B, C, S = v.buff, v.end, v.size
    d = g.dest - B

    def val(x):
        i = z3.If(x < g.dest, x - B, z3.If(x >= g.src, d + (x - g.src), z3.If(x >= g.first, d + (C - g.src) + (x - g.first), C - g.first + (x - B))))
        return i < S, v.seq(i)
    inv = [B <= g.dest, g.dest <= g.first, g.first <= g.src, g.src <= C, d <= S, g.moved == d, OR(g.first < C, g.dest == g.first),
           OR(d == S, g.first >= v.first), OR(g.dest == g.first, g.first == v.first, AND(g.first >= v.first, g.dest >= v.first)), g.constructed == zmax(iv(0), zmin(g.dest, v.first) - v.last)]
    return inv, val, lambda x: OR(x < v.last, x >= v.first, x < g.dest)


def linearize_passes(c, v, e, g):
    inv, val, alive = linearize_state(v, g)
    return Claim(inv + [g.src == g.first], val, alive, 2 * (v.size - (g.dest - v.buff)) + z3.If(g.dest < g.first, iv(1), iv(0)))


def linearize_pass(c, v, e, g):
    inv, val, alive = linearize_state(v, g)
    return Claim(inv + [g.first >= v.first, g.first < v.end, g.ii == g.src - g.first, g.dest < g.src, g.dest - e.dest == g.ii, e.src == g.first, g.first == e.first], val, alive, v.end - g.src)


@spec("CB::linearize()", props=("C08",) + ALLP)
def linearize(c):
    m = Model()
    v = c.this
    lin_ = v.first + v.size <= v.end
    m.bufs[v.o] = BufModel(v, first=z3.If(lin_, v.first, v.buff))
    m.ret = ("elemptr", z3.If(v.size == 0, iv(0), z3.If(lin_, v.first, v.buff)))
    m.user(elem=mvt(c, NOT(lin_)))
    m.loops = [LoopInv("linearize: a pass over the part at the end of the storage", {"src": "ptr", "dest": "ptr", "first": "ptr", "moved": "int", "constructed": "int", "ii": "int"}, linearize_pass),
               LoopInv("linearize: passes", {"src": "ptr", "dest": "ptr", "first": "ptr", "moved": "int", "constructed": "int"}, linearize_passes)]
    return m


@spec("CB::rotate(CIt)", props=("C08",) + ALLP)
def rotate(c):
    m = Model()
    v, p = c.this, c.p[0].idx
    m.pre = p < v.size
    m.bufs[v.o] = BufModel(v, seq=lambda i: v.seq(z3.If(i + p < v.size, i + p, i + p - v.size)))
    m.user(elem=mvt(c))
    return m


# ---------------------------------------------------------------- iterators (C13)
IT = ("C13", "C22", "C09", "C10", "C19")


def itf(ret, pre=None, upd=None):
    def fn(c):
        o, ptr, idx = c.it
        v = c.views[o]
        m = Model()
        if pre:
            m.pre = pre(c, v, idx)
        m.ret = ret(c, v, idx)
        if upd:
            m.it_after = upd(c, v, idx)
        return m
    return fn


for X in ("It", "CIt"):
    # copied and converted iterators denote the same position
    reg(X + "::iterator(It const&)", itf(lambda c, v, i: None, None, lambda c, v, i: i), IT, modular=False)
    reg(X + "::operator*() const", itf(lambda c, v, i: ("elem", v.addr(i)), lambda c, v, i: i < v.size), IT)
    reg(X + "::operator->() const", itf(lambda c, v, i: ("elem", v.addr(i)), lambda c, v, i: i < v.size), IT)
    reg(X + "::operator[](long) const", itf(lambda c, v, i: ("elem", v.addr(i + c.p[0].d)),
                                           lambda c, v, i: z3.And(i + c.p[0].d >= 0, i + c.p[0].d < v.size)), IT)
    reg(X + "::operator++()", itf(lambda c, v, i: ("self",), lambda c, v, i: i < v.size, lambda c, v, i: i + 1), IT)
    reg(X + "::operator--()", itf(lambda c, v, i: ("self",), lambda c, v, i: i > 0, lambda c, v, i: i - 1), IT)
    reg(X + "::operator++(int)", itf(lambda c, v, i: ("iter", v.o, i), lambda c, v, i: i < v.size, lambda c, v, i: i + 1), IT)
    reg(X + "::operator--(int)", itf(lambda c, v, i: ("iter", v.o, i), lambda c, v, i: i > 0, lambda c, v, i: i - 1), IT)
    for s, op in ((1, "+"), (-1, "-")):
        inr = lambda c, v, i, s=s: z3.And(i + s * c.p[0].d >= 0, i + s * c.p[0].d <= v.size)
        reg(X + "::operator%s=(long)" % op, itf(lambda c, v, i: ("self",), inr, lambda c, v, i, s=s: i + s * c.p[0].d), IT)
        reg(X + "::operator%s(long) const" % op, itf(lambda c, v, i, s=s: ("iter", v.o, i + s * c.p[0].d), inr), IT)
    for Y in ("It", "CIt"):
        reg(X + "::operator-(%s const&) const" % Y, itf(lambda c, v, i: ("int", i - c.p[0].idx)), IT)
        for op, f in (("==", lambda a, b: a == b), ("!=", lambda a, b: a != b), ("<", lambda a, b: a < b),
                      (">", lambda a, b: a > b), ("<=", lambda a, b: a <= b), (">=", lambda a, b: a >= b)):
            reg(X + "::operator%s(%s const&) const" % (op, Y), itf(lambda c, v, i, f=f: ("bool", f(i, c.p[0].idx))), IT)


def plus_free(c):
    m = Model()
    d, p = c.p[0].d, c.p[1]
    v = c.views[p.o]
    m.pre = z3.And(p.idx + d >= 0, p.idx + d <= v.size)
    m.ret = ("iter", p.o, p.idx + d)
    return m


for X in ("It", "CIt"):
    reg("operator+(long,%s const&)" % X, plus_free, IT)


# ---------------------------------------------------------------- comparison (C14)
CMP = ("C14", "C22", "C09", "C10", "C19")


def eqf(neg):
    def fn(c):
        a, b = c.views[c.p[0].o], c.views[c.p[1].o]
        m = Model()
        m.ret = ("seqeq", a, b, neg)
        return m.user(elem=cpy(c, z3.And(a.size == b.size, a.size > 0)), strong=TRUE)
    return fn


def ltf(flip, neg):
    def fn(c):
        a, b = c.views[c.p[0].o], c.views[c.p[1].o]
        if flip:
            a, b = b, a
        m = Model()
        m.ret = ("lexless", a, b, neg)
        return m.user(elem=cpy(c, z3.And(a.size > 0, b.size > 0)), strong=TRUE)
    return fn


for B in ("CB", "SO"):
    for op, fn in (("==", eqf(False)), ("!=", eqf(True)), ("<", ltf(False, False)), (">", ltf(True, False)),
                   ("<=", ltf(True, True)), (">=", ltf(False, True))):
        reg("operator%s(%s const&,%s const&)" % (op, B, B), fn, CMP, scenarios=("", "self"))


# ---------------------------------------------------------------- circular_buffer_space_optimized (C15, C16, C17)
# The contracts of circular_buffer hold with the declared capacity in place of the amount of storage; where the storage
# is and how much of it there is (between size and the declared capacity) is bounded separately.
class Logical:
    """a space-optimized buffer as a circular_buffer of its declared capacity"""

    def __init__(self, v):
        self.o, self.size, self.seq, self.aid, self.ctrl = v.o, v.size, v.seq, v.aid, None
        self.cap = v.ctrl[0]
        self.first = self.buff = self.end = iv(0)
        self.real = v

    def wrap(self, x):
        return iv(0)
    wrapm = wrap


def so_this(c):
    return Logical(c.this)


def keeps(v, n):
    """storage after the removal of elements: never more, never below the minimum capacity or the size"""
    low = zmax(n, v.ctrl[1])
    return lambda w: z3.And(w.cap <= v.cap, w.cap >= zmin(v.cap, low))


def grows(v, n):
    """storage after an insertion that leaves n elements: untouched where it suffices"""
    return lambda w: z3.And(w.cap >= v.cap, IMP(n <= v.cap, w.cap == v.cap))


def exactly(n):
    return lambda w: w.cap == n


def so_lift(c, m, icap, ctrl=None, grow=None):
    """turn a model of the logical buffer into one of the space-optimized buffer"""
    v = c.this
    b = m.bufs[v.o]
    nb = BufModel(v, size=b.size, seq=b.seq, same=FALSE, ctrl=ctrl, icap=icap)
    m.bufs[v.o] = nb
    el = m.throws.get("elem", (FALSE, FALSE, FALSE))[0]
    m.throws = {}
    if grow is None:                     # removal: the storage may be reduced
        m.throw("alloc", v.cap > 0)
        m.throw("elem", OR(el, mvt(c, b.size > 0)))
    else:
        n = b.size
        g = n > v.cap
        m.throw("alloc", g)
        big = n > maxn(c)
        cc = (ctrl or v.ctrl)[0]
        m.throw("length_error", AND(g, OR(big, cc > maxn(c))), AND(g, big))
        m.throw("elem", OR(el, mvt(c, AND(g, v.size > 0))))
    return m


SOP = ("C15",) + ALLP + ("C16", "C17")
SOC = ("C15", "C22", "C16", "C17", "C19")
reg("SO::full() const", obs(lambda c, v: ("bool", v.size == v.ctrl[0])), SOC)
reg("SO::reserve() const", obs(lambda c, v: ("int", v.ctrl[0] - v.size)), SOC)
reg("SO::capacity() const", obs(lambda c, v: ("cap", v.ctrl[0], v.ctrl[1])), SOC)


def so_push(c, model):
    v = c.this
    m = push(c, lambda c_, v_, val: model(c_, so_this(c), val))
    return so_lift(c, m, grows(v, m.bufs[v.o].size), grow=True)


@spec("SO::push_back(Elem const&)", "SO::push_back(Elem&&)", "SO::push_back()", props=SOP)
def so_push_back(c):
    return so_push(c, push_back_model)


@spec("SO::push_front(Elem const&)", "SO::push_front(Elem&&)", "SO::push_front()", props=SOP)
def so_push_front(c):
    return so_push(c, push_front_model)


def so_removal(c, m):
    return so_lift(c, m, keeps(c.this, m.bufs[c.thiso].size))


@spec("SO::pop_back()", props=SOP)
def so_pop_back(c):
    return so_removal(c, pop_back_of(c, so_this(c)))


@spec("SO::pop_front()", props=SOP)
def so_pop_front(c):
    return so_removal(c, pop_front_of(c, so_this(c)))


def pop_back_of(c, v):
    m = Model()
    m.pre = v.size > 0
    m.bufs[v.o] = BufModel(v, size=v.size - 1, seq=v.seq)
    return m


def pop_front_of(c, v):
    m = Model()
    m.pre = v.size > 0
    m.bufs[v.o] = BufModel(v, size=v.size - 1, seq=lambda i: v.seq(i + 1))
    return m


def so_insert_one(c, model, edge):
    v = so_this(c)
    pos = c.p[0].idx
    p, val = one_item(c)
    m, nop, full = model(c, v, pos, val)
    ins_throws(c, m, p, nop, full, edge(v, pos))
    return so_lift(c, m, grows(c.this, m.bufs[v.o].size), grow=True)


@spec("SO::insert(It,Elem const&)", "SO::insert(It,Elem&&)", "SO::insert(It)", props=SOP)
def so_insert(c):
    return so_insert_one(c, insert_one_model, lambda v, pos: pos == v.size)


@spec("SO::rinsert(It,Elem const&)", "SO::rinsert(It,Elem&&)", "SO::rinsert(It)", props=SOP)
def so_rinsert(c):
    return so_insert_one(c, rinsert_one_model, lambda v, pos: pos == 0)


def so_insert_many(c, model):
    v = so_this(c)
    pos = c.p[0].idx
    p = c.p[2] if c.p[1].kind == "n" else c.p[1]
    n = c.p[1].n
    m, take = model(c, v, pos, n, elem_src(c, p))
    m.copy_exempt = True
    m.user(elem=cpy(c, take > 0))
    so_lift(c, m, grows(c.this, m.bufs[v.o].size), grow=True)
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        m.throw("alloc", TRUE)
        m.throw("elem", cpy(c, n > 0))
    return m


@spec("SO::insert(It,size_t,Elem const&)", "SO::insert(It,short,short)", "SO::insert(It,%s,%s)" % (I, I), "SO::insert(It,InIt,InIt)", "SO::insert(It,%s,%s)" % (MIT, MIT), props=SOP)
def so_insert_n(c):
    return so_insert_many(c, insert_many_model)


@spec("SO::rinsert(It,size_t,Elem const&)", "SO::rinsert(It,short,short)", "SO::rinsert(It,%s,%s)" % (I, I), "SO::rinsert(It,InIt,InIt)", "SO::rinsert(It,%s,%s)" % (MIT, MIT), props=SOP)
def so_rinsert_n(c):
    return so_insert_many(c, rinsert_many_model)


def so_erase_any(c, model, one, back):
    v = so_this(c)
    a = c.p[0].idx
    b = a + 1 if one else c.p[1].idx
    m = model(c, v, a, b)
    m.pre = a < v.size if one else a <= b
    m.user(elem=mvt(c, AND(a < b, b < v.size)) if back else mvt(c, AND(a < b, a > 0)))
    return so_removal(c, m)


@spec("SO::erase(It)", props=SOP)
def so_erase(c):
    return so_erase_any(c, erase_model, True, True)


@spec("SO::erase(It,It)", props=SOP)
def so_erase_range(c):
    return so_erase_any(c, erase_model, False, True)


@spec("SO::rerase(It)", props=SOP)
def so_rerase(c):
    return so_erase_any(c, rerase_model, True, False)


@spec("SO::rerase(It,It)", props=SOP)
def so_rerase_range(c):
    return so_erase_any(c, rerase_model, False, False)


@spec("SO::clear()", props=SOP)
def so_clear(c):
    m = Model()
    v = so_this(c)
    m.bufs[v.o] = BufModel(v, size=iv(0), seq=v.seq)
    return so_removal(c, m)


def so_set_cap(c, front):
    m = Model()
    v, C, M = c.this, c.p[0].cap, c.p[0].min
    keep = zmin(C, v.size)
    off = iv(0) if front else v.size - keep

    def icap(w):
        return z3.And(w.cap >= M, IMP(M <= v.cap, w.cap <= v.cap), IMP(AND(C >= v.size, M <= v.cap), w.cap >= zmin(v.cap, zmax(v.size, M))))
    m.bufs[v.o] = BufModel(v, size=keep, seq=lambda i: v.seq(i + off), same=FALSE, ctrl=(C, M), icap=icap)
    m.throw("length_error", M > maxn(c), M > maxn(c), TRUE)
    m.throw("alloc", TRUE, FALSE, TRUE)
    if not nm(c):
        m.throw("elem", keep > 0, FALSE, TRUE)
    return m


@spec("SO::set_capacity(Cap const&)", props=SOP, scenarios=("", "self"))
def so_set_capacity(c):
    return so_set_cap(c, True)


@spec("SO::rset_capacity(Cap const&)", props=SOP, scenarios=("", "self"))
def so_rset_capacity(c):
    return so_set_cap(c, False)


def so_resize_model(c, back):
    m = Model()
    v, n = c.this, c.p[0].n
    val = item_value(c, c.p[1])
    C, M = v.ctrl
    if back:
        seq = lambda i: ite(i < v.size, v.seq(i), val)
    else:
        k = n - v.size
        seq = lambda i: ite(k >= 0, ite(i < k, val, v.seq(i - k)), v.seq(i - k))
    up = n > v.size
    f, g = grows(v, n), keeps(v, n)
    m.bufs[v.o] = BufModel(v, size=n, seq=seq, same=FALSE, ctrl=(z3.If(n > C, n, C), M), icap=lambda w: z3.If(up, f(w), g(w)))
    grow = n > v.cap
    m.throw("length_error", AND(grow, OR(n > maxn(c), C > maxn(c))), AND(grow, n > maxn(c)))
    m.throw("alloc", TRUE)
    m.throw("elem", OR(cpy(c, up), mvt(c)))
    m.free_ctrl = True
    m.copy_exempt = True
    return m


@spec("SO::resize(size_t,Elem const&)", props=SOP)
def so_resize(c):
    return so_resize_model(c, True)


@spec("SO::rresize(size_t,Elem const&)", props=SOP)
def so_rresize(c):
    return so_resize_model(c, False)


def so_construct(c, ctrl, size, seq, aid, low, elem=True):
    m = Model()
    m.ctor = True
    m.bufs[c.thiso] = newbuf(c, None, size, seq, aid, ctrl=ctrl, icap=exactly(low))
    m.throw("length_error", OR(low > maxn(c), size > maxn(c)), OR(low > maxn(c), size > maxn(c)))
    m.throw("alloc", TRUE)
    if elem is not False:
        m.throw("elem", OR(cpy(c, size > 0), mvt(c, size > 0)))
    return m


K = "circular_buffer_space_optimized"


@spec("SO::%s(Al const&)" % K, props=SOP)
def so_ctor_empty(c):
    m = Model()
    m.ctor = True
    m.bufs[c.thiso] = newbuf(c, None, iv(0), lambda i: c.E.variant.DEF, c.p[0].aid, ctrl=(iv(0), iv(0)), icap=lambda w: w.cap == 0)
    return m


@spec("SO::%s(Cap,Al const&)" % K, props=SOP)
def so_ctor_cap(c):
    p = c.p[0]
    return so_construct(c, (p.cap, p.min), iv(0), lambda i: c.E.variant.DEF, c.p[1].aid, p.min, elem=False)


@spec("SO::%s(Cap,Elem const&,Al const&)" % K, props=SOP)
def so_ctor_fill(c):
    p = c.p[0]
    val = item_value(c, c.p[1])
    return so_construct(c, (p.cap, p.min), p.cap, lambda i: val, c.p[2].aid, p.cap)


@spec("SO::%s(Cap,size_t,Elem const&,Al const&)" % K, "SO::%s(Cap,short,short,Al const&)" % K, props=SOP)
def so_ctor_fill_n(c):
    p, n = c.p[0], c.p[1].n
    val = item_value(c, c.p[2])
    m = so_construct(c, (p.cap, p.min), n, lambda i: val, c.p[3].aid, zmax(n, p.min))
    m.pre = p.cap >= n
    return m


@spec("SO::%s(short,short,Al const&)" % K, props=SOP)
def so_ctor_numbers(c):
    n, val = c.p[0].n, item_value(c, c.p[1])
    return so_construct(c, (n, iv(0)), n, lambda i: val, c.p[2].aid, n)


@spec("SO::%s(%s,%s,Al const&)" % (K, I, I), "SO::%s(InIt,InIt,Al const&)" % K, "SO::%s(%s,%s,Al const&)" % (K, MIT, MIT), props=SOP)
def so_ctor_range(c):
    p = c.p[0]
    m = so_construct(c, (p.n, iv(0)), p.n, elem_src(c, p), c.p[2].aid, p.n)
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    if p.kind == "init":
        m.streams.append(p)
        m.throw("length_error", TRUE)
    return m


@spec("SO::%s(Cap,%s,%s,Al const&)" % (K, I, I), "SO::%s(Cap,InIt,InIt,Al const&)" % K, "SO::%s(Cap,%s,%s,Al const&)" % (K, MIT, MIT), props=SOP)
def so_ctor_cap_range(c):
    q, p = c.p[0], c.p[1]
    k = zmin(q.cap, p.n)
    src = elem_src(c, p)
    m = so_construct(c, (q.cap, q.min), k, lambda i: src(p.n - k + i), c.p[3].aid, zmax(q.min, k))
    if p.kind == "mov":
        m.moved_ranges.append((lin(p.a + p.n - k), k))
    if p.kind == "init":
        m.streams.append(p)
        m.throw("length_error", q.cap > maxn(c), q.cap > maxn(c))     # as much as the capacity is allocated in passing
    return m


@spec("SO::%s(SO const&)" % K, props=SOP)
def so_ctor_copy(c):
    w = c.views[c.p[0].o]
    m = so_construct(c, w.ctrl, w.size, w.seq, w.aid, w.size)
    m.throw("length_error", FALSE)
    m.copy_sources.append(lambda x: w.slot(x))
    return m


def so_took(c, v, w):
    b = BufModel(v, cap=w.cap, size=w.size, seq=w.seq, same=FALSE, aid=w.aid, ctrl=w.ctrl)
    b.took = w
    return b


def so_emptied(w):
    b = BufModel(w, cap=iv(0), size=iv(0), same=FALSE)
    b.anyaid = True
    b.ctrl = None
    return b


@spec("SO::%s(SO&&)" % K, props=SOP)
def so_ctor_move(c):
    w = c.views[c.p[0].o]
    m = Model()
    m.ctor = True
    m.bufs[c.thiso] = so_took(c, None, w)
    m.bufs[w.o] = so_emptied(w)
    return m


@spec("SO::operator=(SO const&)", props=SOP, scenarios=("", "self"))
def so_assign_copy(c):
    v, w = c.this, c.views[c.p[0].o]
    m = Model()
    m.ret = ("objref", v.o, 0)
    if v.o == w.o:
        return m
    m.bufs[v.o] = BufModel(v, size=w.size, seq=w.seq, same=FALSE, ctrl=w.ctrl, icap=exactly(w.size))
    m.throw("elem", cpy(c, w.size > 0))
    m.throw("alloc", w.size > 0)
    m.copy_exempt = True             # the contents may pass through a temporary copy
    return m


@spec("SO::operator=(SO&&)", props=SOP)
def so_assign_move(c):
    v, w = c.this, c.views[c.p[0].o]
    m = Model()
    m.ret = ("objref", v.o, 0)
    m.bufs[v.o] = so_took(c, v, w)
    m.bufs[w.o] = so_emptied(w)
    return m


@spec("SO::swap(SO&)", "swap(SO&,SO&)", props=SOP, scenarios=("", "self"))
def so_swap(c):
    if c.this is not None:
        v, w = c.this, c.views[c.p[0].o]
    else:
        v, w = c.views[c.p[0].o], c.views[c.p[1].o]
    m = Model()
    if v.o == w.o:
        return m
    for a, b in ((v, w), (w, v)):
        m.bufs[a.o] = so_took(c, a, b)
    return m


def so_assign_any(c, ctrl, size, seq, low, p=None):
    m = Model()
    v = c.this
    m.bufs[v.o] = BufModel(v, size=size, seq=seq, same=FALSE, ctrl=ctrl, icap=exactly(low))
    big = OR(low > maxn(c), size > maxn(c))
    m.throw("length_error", big, big)
    m.throw("alloc", TRUE)
    m.throw("elem", cpy(c, size > 0))
    if p is not None and p.kind == "init":
        m.streams.append(p)
        m.throw("elem", cpy(c, p.n > 0))
    return m


@spec("SO::assign(size_t,Elem const&)", "SO::assign(short,short)", props=SOP)
def so_assign_fill(c):
    n = c.p[0].n
    val = item_value(c, c.p[1])
    return so_assign_any(c, (n, iv(0)), n, lambda i: val, n)


@spec("SO::assign(Cap,size_t,Elem const&)", "SO::assign(Cap,short,short)", props=SOP)
def so_assign_cap_fill(c):
    q, n = c.p[0], c.p[1].n
    val = item_value(c, c.p[2])
    m = so_assign_any(c, (q.cap, q.min), n, lambda i: val, zmax(q.min, n))
    m.pre = q.cap >= n
    return m


@spec("SO::assign(%s,%s)" % (I, I), "SO::assign(InIt,InIt)", "SO::assign(%s,%s)" % (MIT, MIT), props=SOP)
def so_assign_range(c):
    p = c.p[0]
    m = so_assign_any(c, (p.n, iv(0)), p.n, elem_src(c, p), p.n, p)
    if p.kind == "mov":
        m.moved_ranges.append((p.a, p.n))
    return m


@spec("SO::assign(Cap,%s,%s)" % (I, I), "SO::assign(Cap,InIt,InIt)", "SO::assign(Cap,%s,%s)" % (MIT, MIT), props=SOP)
def so_assign_cap_range(c):
    q, p = c.p[0], c.p[1]
    k = zmin(q.cap, p.n)
    src = elem_src(c, p)
    m = so_assign_any(c, (q.cap, q.min), k, lambda i: src(p.n - k + i), zmax(q.min, k), p)
    if p.kind == "mov":
        m.moved_ranges.append((lin(p.a + p.n - k), k))
    if p.kind == "init":
        m.throw("length_error", q.cap > maxn(c))      # as much as the capacity is allocated in passing
    return m
