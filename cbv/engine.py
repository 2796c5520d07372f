"""Verification-condition generator: symbolic execution of the compiled (-O0 LLVM IR) code of one function, with
contracts at calls, inferred and then inductively checked invariants at loops, z3 for the obligations.

Memory:  ordinary objects (locals, the buffer objects, the allocator) are cells {byte offset -> (size, value)};
         storage of elements is addressed by a mathematical integer in units of elements, with two ghost maps,
         val (address -> element value) and alive (address -> bool), and a list of disjoint regions.
Integers are exact: a machine integer is kept as a mathematical integer congruent to it modulo 2^w, and is reduced to
its signed or unsigned value where an instruction looks at it.
"""
import itertools
import re
import time
import z3

from .ir import TInt, TPtr, TStruct, TNamed, TArr, TVoid, Instr

MAXA = None


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


def iv(n):
    return z3.IntVal(n)


def num(t):
    return t.as_long() if z3.is_int_value(t) else None


def simp(t):
    return z3.simplify(t)


def lin(t):
    """simplify an integer term unless it is a leaf"""
    if t.num_args() == 0:
        return t
    return z3.simplify(t)


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


def AND(*xs):
    ys = [x for x in xs if not z3.is_true(x)]
    if any(z3.is_false(y) for y in ys):
        return z3.BoolVal(False)
    if not ys:
        return z3.BoolVal(True)
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def OR(*xs):
    ys = [x for x in xs if not z3.is_false(x)]
    if any(z3.is_true(y) for y in ys):
        return z3.BoolVal(True)
    if not ys:
        return z3.BoolVal(False)
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def NOT(x):
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def EQ(a, b):
    if a.eq(b):
        return z3.BoolVal(True)
    if z3.is_int(a):
        d = z3.simplify(a - b)
        n = num(d)
        if n is not None:
            return z3.BoolVal(n == 0)
    return a == b


TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class VInt(V):
    __slots__ = ("w", "raw", "el", "b")

    def __init__(self, w, raw, el=None, b=None):
        self.w = w
        self.raw = raw if not isinstance(raw, int) else iv(raw)
        self.el = el
        self.b = b

    def __repr__(self): return "i%d(%s)" % (self.w, self.raw)


class VBool(V):
    __slots__ = ("c",)

    def __init__(self, c): self.c = c
    def __repr__(self): return "bool(%s)" % self.c


class VObj(V):
    __slots__ = ("o", "off")

    def __init__(self, o, off=0): self.o = o; self.off = off
    def __repr__(self): return "&%s+%d" % (self.o, self.off)


class VElem(V):
    __slots__ = ("a",)

    def __init__(self, a): self.a = a
    def __repr__(self): return "E(%s)" % self.a


class VGlob(V):
    __slots__ = ("n",)

    def __init__(self, n): self.n = n
    def __repr__(self): return self.n


class VAgg(V):
    __slots__ = ("xs",)

    def __init__(self, xs): self.xs = list(xs)
    def __repr__(self): return "{%s}" % self.xs


class VUndef(V):
    __slots__ = ()
    def __repr__(self): return "undef"


class VTok(V):
    """exception objects and other opaque things"""
    __slots__ = ("n",)

    def __init__(self, n): self.n = n
    def __repr__(self): return "tok(%s)" % self.n


UNDEF = VUndef()
NULL = VElem(iv(0))


def veq(a, b):
    """structural equality of values"""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, VInt):
        return a.w == b.w and a.raw.eq(b.raw)
    if isinstance(a, VBool):
        return a.c.eq(b.c)
    if isinstance(a, VObj):
        return a.o == b.o and a.off == b.off
    if isinstance(a, VElem):
        return a.a.eq(b.a)
    if isinstance(a, VGlob):
        return a.n == b.n
    if isinstance(a, VAgg):
        return len(a.xs) == len(b.xs) and all(map(veq, a.xs, b.xs))
    if isinstance(a, VTok):
        return a.n == b.n
    return True


def vmerge(c, a, b):
    """ite(c, a, b) or None"""
    if veq(a, b):
        return a
    if isinstance(a, VUndef) or isinstance(b, VUndef):
        return UNDEF       # reading it later is reported; harmless when dead
    if type(a) is not type(b):
        return None
    if isinstance(a, VInt):
        if a.w != b.w:
            return None
        el = ite(c, a.el, b.el) if a.el is not None and b.el is not None else None
        bb = ite(c, a.b, b.b) if a.b is not None and b.b is not None else None
        return VInt(a.w, ite(c, a.raw, b.raw), el, bb)
    if isinstance(a, VBool):
        return VBool(ite(c, a.c, b.c))
    if isinstance(a, VElem):
        return VElem(ite(c, a.a, b.a))
    if isinstance(a, VAgg) and len(a.xs) == len(b.xs):
        xs = [vmerge(c, x, y) for x, y in zip(a.xs, b.xs)]
        return None if None in xs else VAgg(xs)
    return None


# ------------------------------------------------------------------ ghost maps
class Mem:
    """functional map from element addresses; immutable"""
    prev = None

    def read(self, x):
        m = self._memo
        k = x.get_id()
        if k in m:
            return m[k][1]
        # iterate down to avoid deep recursion
        chain = []
        n = self
        while True:
            if k in n._memo:
                r = n._memo[k][1]
                break
            if isinstance(n, (MPt, MBulk)):
                stop, v = n.hit(x)
                if stop is True:
                    r = v
                    n._memo[k] = (x, r)
                    break
                chain.append((n, stop, v))
                n = n.prev
                continue
            r = n.read0(x)
            n._memo[k] = (x, r)
            break
        for n, c, v in reversed(chain):
            r = ite(c, v, r) if c is not None else r
            n._memo[k] = (x, r)
        return r


class MBase(Mem):
    def __init__(self, fn, name=""):
        self.fn = fn
        self._memo = {}
        self.name = name

    def read0(self, x):
        return self.fn(x)


class MPt(Mem):
    def __init__(self, prev, cond, addr, v):
        self.prev, self.cond, self.addr, self.v = prev, cond, addr, v
        self._memo = {}

    def hit(self, x):
        e = EQ(x, self.addr)
        if z3.is_false(e):
            return None, None
        c = AND(self.cond, e)
        if z3.is_true(c):
            return True, self.v
        return c, self.v


class MBulk(Mem):
    def __init__(self, prev, infn, valfn):
        self.prev, self.infn, self.valfn = prev, infn, valfn
        self._memo = {}

    def hit(self, x):
        c = self.infn(x)
        if z3.is_false(c):
            return None, None
        return (True if z3.is_true(c) else c), self.valfn(x)


class MIte(Mem):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b
        self._memo = {}

    def read0(self, x):
        return ite(self.c, self.a.read(x), self.b.read(x))


def mem_updates(m, base):
    """list of (cond, addr, v) point updates from base to m, or None if not of that form"""
    if m is base:
        return []
    if isinstance(m, MPt):
        r = mem_updates(m.prev, base)
        return None if r is None else r + [(m.cond, m.addr, m.v)]
    if isinstance(m, MIte):
        ra, rb = mem_updates(m.a, base), mem_updates(m.b, base)
        if ra is None or rb is None:
            return None
        k = 0
        while k < len(ra) and k < len(rb) and all(p.eq(q) for p, q in zip(ra[k], rb[k])):
            k += 1
        out = ra[:k]
        ra, rb = ra[k:], rb[k:]
        # the same address and value written in both branches: an unconditional update
        if len(ra) == len(rb) and all(z3.simplify(p[1] - q[1]).eq(iv(0)) and p[2].eq(q[2]) and p[0].eq(q[0]) for p, q in zip(ra, rb)):
            return out + ra
        return (out + [(AND(m.c, c), a, v) for c, a, v in ra] + [(AND(NOT(m.c), c), a, v) for c, a, v in rb])
    return None


# ------------------------------------------------------------------ state
class Region:
    """a block of storage: elements lo .. lo+n-1"""
    __slots__ = ("lo", "n", "aid", "kind", "name")

    def __init__(self, lo, n, aid, kind, name):
        self.lo, self.n, self.aid, self.kind, self.name = lo, n, aid, kind, name


class State:
    __slots__ = ("pc", "objs", "val", "alive", "regions", "live", "caught", "facts", "rng", "events", "types", "trace", "ghost")

    def __init__(self):
        self.pc = []
        self.objs = {}
        self.types = {}
        self.val = None
        self.alive = None
        self.regions = []      # list of Region
        self.live = {}         # region -> Bool
        self.caught = ()
        self.facts = ()
        self.rng = {}
        self.events = ()
        self.trace = ()
        self.ghost = {}

    def copy(self):
        s = State()
        s.pc = list(self.pc)
        s.objs = {k: v for k, v in self.objs.items()}
        s.types = dict(self.types)
        s.val, s.alive = self.val, self.alive
        s.regions = list(self.regions)
        s.live = dict(self.live)
        s.caught = self.caught
        s.facts = self.facts
        s.rng = dict(self.rng)
        s.events = self.events
        s.trace = self.trace
        s.ghost = dict(self.ghost)
        return s

    # cells -- objs[o] is a dict off -> (size, V), treated as immutable
    def get(self, o, off, size):
        m = self.objs.get(o)
        if m is None:
            return None
        c = m.get(off)
        if c is not None and c[0] == size:
            return c[1]
        if c is None:
            for k, (sz, v) in m.items():
                if k < off + size and off < k + sz:
                    raise Unsupported("partial read of %s+%d" % (o, off))
            return UNDEF
        raise Unsupported("read of %d bytes at %s+%d of a %d byte cell" % (size, o, off, c[0]))

    def put(self, o, off, size, v):
        m = dict(self.objs[o])
        c = m.get(off)
        if c is None or c[0] != size:
            for k in [k for k, (sz, _) in m.items() if k < off + size and off < k + sz]:
                if not (off <= k and k + m[k][0] <= off + size) and not isinstance(m[k][1], VUndef):
                    raise Unsupported("partial overwrite of %s+%d" % (o, k))
                del m[k]
        m[off] = (size, v)
        self.objs[o] = m

    def assume(self, c):
        if z3.is_true(c):
            return
        if z3.is_and(c):
            for x in c.children():
                self.assume(x)
            return
        self.pc.append(c)


class Obligation:
    __slots__ = ("fn", "name", "tags", "where", "status", "time", "model", "backend", "src", "text")

    def __init__(self, fn, name, tags, where, src=None):
        self.fn, self.name, self.tags, self.where = fn, name, tags, where
        self.status = None
        self.time = 0.0
        self.model = None
        self.backend = "z3"
        self.src = src
        self.text = None


class Solver:
    """one incremental z3 solver whose assertion stack follows the path condition"""

    def __init__(self, timeout=4000):
        self.s = z3.SolverFor("QF_UFLIA") if False else z3.SimpleSolver()
        self.s.set("timeout", timeout)
        self.stack = []
        self.time = 0.0
        self.n = 0
        self.unknown = 0

    def sync(self, pc):
        k = 0
        st = self.stack
        n = min(len(st), len(pc))
        while k < n and (st[k] is pc[k] or st[k].get_id() == pc[k].get_id()):
            k += 1
        if len(st) > k:
            self.s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.s.push()
            self.s.add(c)
            st.append(c)

    def check(self, pc, *extra, timeout=None):
        t = time.time()
        self.sync(pc)
        self.s.push()
        if timeout:
            self.s.set("timeout", timeout)
        try:
            for e in extra:
                self.s.add(e)
            r = self.s.check()
            self.last = self.s.model() if r == z3.sat else None
        finally:
            self.s.pop()
            if timeout:
                self.s.set("timeout", 4000)
        self.n += 1
        self.time += time.time() - t
        if r == z3.unknown:
            self.unknown += 1
        return "sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"


class Engine:
    def __init__(self, mod, variant, deadline=None, verbose=False):
        self.mod = mod
        self.variant = variant
        self.solver = Solver()
        self.obs = []
        self.quiet = 0
        self.cnt = itertools.count()
        self.tmpcnt = 0
        self.fn = "?"
        self.stack = []
        self.verbose = verbose
        self.deadline = deadline
        self.contracts = []
        self.used_contracts = set()
        self.inlined = set()
        self.externs_used = set()
        self.loops_log = []
        self.esz = variant.esz
        self.VS = variant.vsort
        self.maxa = (1 << 63) // self.esz
        self.max_elems = min(((1 << 64) - 1) // self.esz, (1 << 63) - 1)
        self.loopfree = {}
        self.allocs = 0
        self.root = None
        self.readonly_objs = set()
        self.readonly_elems = None
        self.copy_ok = None
        self.move_ok = None

    # ---- names
    def fresh(self, name, sort=None):
        n = "%s!%d" % (name, next(self.cnt))
        if sort is None:
            return z3.Int(n)
        return z3.Const(n, sort)

    def freshfn(self, name, rng):
        return z3.Function("%s!%d" % (name, next(self.cnt)), z3.IntSort(), rng)

    # ---- solver helpers
    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget("time budget exhausted")

    def feasible(self, st, c=TRUE):
        if z3.is_false(c):
            return False
        self.tick()
        return self.solver.check(st.pc, c) != "unsat"

    def proves(self, st, goal, timeout=None):
        if z3.is_true(goal):
            return True
        self.tick()
        if z3.is_false(goal):
            return self.solver.check(st.pc) == "unsat"
        return self.solver.check(st.pc, z3.Not(goal), timeout=timeout) == "unsat"

    def where(self):
        return " < ".join("%s:%s" % (short(f), l) for f, l in reversed(self.stack[-6:]))

    def oblige(self, st, goal, name, tags, inst=(), assume=True):
        """a proof obligation: the goal follows from the path condition"""
        if self.quiet:
            if assume:
                st.assume(goal)
            return True
        t0 = time.time()
        o = Obligation(self.fn, name, frozenset(tags), self.where())
        self.obs.append(o)
        if z3.is_true(goal):
            o.status = "discharged"
            o.backend = "simplifier"
            return True
        pre = []
        for f in st.facts:
            for x in inst:
                pre.append(f(x))
        r = self.solver.check(st.pc, *pre, z3.Not(goal))
        if r == "unknown":
            r = self.hard(st.pc + pre + [z3.Not(goal)], o)
        o.time = time.time() - t0
        if r == "unsat":
            o.status = "discharged"
        elif r == "sat":
            o.status = "refuted"
            o.model = self.solver.last
            o.text = str(simp(goal))[:2000]
        else:
            o.status = "unknown"
            o.text = str(simp(goal))[:2000]
        if self.verbose and r != "unsat":
            print("  OBLIGATION %s: %s [%s] at %s" % (o.status, name, ",".join(sorted(tags)), o.where))
        if assume:
            st.assume(goal)
        return r == "unsat"

    def hard(self, fs, o):
        """second attempts: fresh z3 with other tactics, then cvc5"""
        s = z3.Solver()
        s.set("timeout", 15000)
        s.add(*fs)
        r = s.check()
        self.solver.last = None
        if r == z3.unsat:
            o.backend = "z3 (fresh)"
            return "unsat"
        if r == z3.sat:
            self.solver.last = s.model()
            return "sat"
        try:
            import cvc5
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            c = cvc5.Solver(tm) if tm else cvc5.Solver()
            c.setOption("tlimit-per", "20000")
            p = cvc5.InputParser(c)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, "(set-logic ALL)\n" + s.sexpr() + "\n(check-sat)\n", "q")
            sm = p.getSymbolManager()
            out = ""
            while True:
                cmd = p.nextCommand()
                if cmd.isNull():
                    break
                out = cmd.invoke(c, sm) or out
            if "unsat" in str(out):
                o.backend = "cvc5"
                return "unsat"
        except Exception:
            pass
        return "unknown"

    # ---- integers
    def in_range(self, st, raw, lo, hi):
        n = num(raw)
        if n is not None:
            return lo <= n < hi
        k = (raw.get_id(), lo, hi)
        if k in st.rng:
            return st.rng[k][1]
        r = self.proves(st, z3.And(raw >= lo, raw < hi))
        if r:
            st.rng[k] = (raw, True)
        return r

    def u(self, st, v):
        """unsigned value"""
        if not isinstance(v, VInt):
            raise Unsupported("integer expected, got %r" % (v,))
        m = 1 << v.w
        n = num(v.raw)
        if n is not None:
            return iv(n % m)
        if v.b is not None:
            return v.raw
        if self.in_range(st, v.raw, 0, m):
            return v.raw
        if self.in_range(st, v.raw, -m, 0):
            return lin(v.raw + m)
        if self.in_range(st, v.raw, m, 2 * m):
            return lin(v.raw - m)
        if self.in_range(st, v.raw, -m, m):
            return z3.If(v.raw >= 0, v.raw, v.raw + m)
        return v.raw % m

    def s(self, st, v):
        if not isinstance(v, VInt):
            raise Unsupported("integer expected, got %r" % (v,))
        m = 1 << v.w
        h = m >> 1
        n = num(v.raw)
        if n is not None:
            n %= m
            return iv(n - m if n >= h else n)
        if v.b is not None and v.w > 1:
            return v.raw
        if self.in_range(st, v.raw, -h, h):
            return v.raw
        if self.in_range(st, v.raw, h, m):
            return lin(v.raw - m)
        r = v.raw % m
        return z3.If(r >= h, r - m, r)

    # ---- merging
    def merge(self, outs):
        """merge states with equal shape.  outs: list of (st, val).  Returns a list."""
        if len(outs) <= 1:
            return outs
        res = []
        for st, v in outs:
            for k, (st0, v0) in enumerate(res):
                r = self.merge2(st0, v0, st, v)
                if r:
                    res[k] = r
                    break
            else:
                res.append((st, v))
        return res

    def merge2(self, s1, v1, s2, v2):
        if s1.regions != s2.regions or s1.caught != s2.caught:
            return None
        if s1.objs.keys() != s2.objs.keys():
            return None
        if s1.events != s2.events or s1.trace != s2.trace:
            return None
        k = 0
        n = min(len(s1.pc), len(s2.pc))
        while k < n and s1.pc[k] is s2.pc[k]:
            k += 1
        # a condition that separates the two: a literal of one whose negation is a literal of the other
        negs = [NOT(x) for x in s2.pc[k:]]
        neg = {x.get_id() for x in negs}
        c1 = None
        for x in s1.pc[k:]:
            if x.get_id() in neg:
                c1 = x
                break
        extra1 = extra2 = TRUE
        if c1 is None and len(s1.pc) - k <= 12 and len(s2.pc) - k <= 12:
            # exclusive paths: the condition of the first one selects
            x1, x2 = AND(*s1.pc[k:]), AND(*s2.pc[k:])
            if self.solver.check(s1.pc[:k], x1, x2) == "unsat":
                c1 = simp(x1)
        if c1 is None:
            c1 = z3.Bool("sel!%d" % next(self.cnt))
            extra1, extra2 = c1, NOT(c1)
        # select by c1
        r = State()
        if v1 is None and v2 is None:
            v = None
        elif v1 is None or v2 is None:
            return None
        else:
            v = vmerge(c1, v1, v2)
            if v is None:
                return None
        objs = {}
        for o in s1.objs:
            a, b = s1.objs[o], s2.objs[o]
            if a is b:
                objs[o] = a
                continue
            m = {}
            for off in set(a) | set(b):
                x, y = a.get(off), b.get(off)
                if x is None or y is None:
                    z = x or y
                    m[off] = (z[0], UNDEF)
                    continue
                if x[0] != y[0]:
                    return None
                z = vmerge(c1, x[1], y[1])
                if z is None:
                    return None
                m[off] = (x[0], z)
            objs[o] = m
        r.objs = objs
        r.types = s1.types
        r.val = s1.val if s1.val is s2.val else MIte(c1, s1.val, s2.val)
        r.alive = s1.alive if s1.alive is s2.alive else MIte(c1, s1.alive, s2.alive)
        r.regions = s1.regions
        r.live = {q: (s1.live[q] if s1.live[q].eq(s2.live[q]) else ite(c1, s1.live[q], s2.live[q])) for q in s1.live}
        r.caught = s1.caught
        r.facts = tuple(f for f in s1.facts if f in s2.facts)
        r.facts += tuple((lambda j, f=f: z3.Implies(c1, f(j))) for f in s1.facts if f not in s2.facts)
        r.facts += tuple((lambda j, f=f: z3.Implies(NOT(c1), f(j))) for f in s2.facts if f not in s1.facts)
        r.events = s1.events
        r.ghost = {g: (s1.ghost[g] if s1.ghost[g].eq(s2.ghost[g]) else ite(c1, s1.ghost[g], s2.ghost[g]))
                   for g in s1.ghost if g in s2.ghost}
        r.pc = s1.pc[:k]
        # factor the conjuncts common to both
        i2 = {x.get_id() for x in s2.pc[k:]}
        common = [x for x in s1.pc[k:] if x.get_id() in i2]
        ic = {x.get_id() for x in common}
        r.pc += common
        d1 = AND(extra1, *[x for x in s1.pc[k:] if x.get_id() not in ic])
        d2 = AND(extra2, *[x for x in s2.pc[k:] if x.get_id() not in ic])
        d = OR(d1, d2)
        if z3.is_or(d) and d.num_args() == 2 and (NOT(d1).eq(d2) or NOT(d2).eq(d1)):
            d = TRUE
        r.assume(d)
        r.rng = {q: w for q, w in s1.rng.items() if q in s2.rng}
        r.trace = s1.trace
        return r, v

    # ---- functions
    def lookup(self, name):
        f = self.mod.funcs.get(self.mod.alias.get(name, name))
        if f is not None:
            self.mod.materialize(f)
            return f
        return None

    def contains_loop(self, f, seen=()):
        """does f, or anything it calls, loop?"""
        if f.name in self.loopfree:
            return self.loopfree[f.name]
        if f.name in seen:
            return True
        self.mod.materialize(f)
        r = bool(f.loops())
        if not r:
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op in ("call", "invoke") and i.a["callee"][0] == "@":
                        g = self.mod.funcs.get(self.mod.alias.get(i.a["callee"], i.a["callee"]))
                        if g is not None and self.variant.extern(self.dem(i.a["callee"])) is None:
                            r = r or self.contains_loop(g, seen + (f.name,))
        self.loopfree[f.name] = r
        return r

    def dem(self, name):
        name = self.mod.alias.get(name, name)
        f = self.mod.funcs.get(name) or self.mod.decls.get(name)
        return f.dem if f is not None else name[1:]

    def call(self, st, name, args, argtypes=(), atattrs=()):
        """outcomes of a call: list of ('ret'|'throw', state, value)"""
        dem = self.dem(name)
        ext = self.variant.extern(dem)
        if ext is not None:
            self.externs_used.add(self.variant.extern_name(dem))
            return ext(self, st, args, dem)
        f = self.lookup(name)
        if f is None:
            raise Unsupported("call of external %s" % dem)
        con = self.variant.contract_for(self, f)
        if con is not None and len(self.stack) > 0 and f.name != self.root and con.modular and self.contains_loop(f):
            r = con.apply(self, st, f, args)
            if r is not None:
                self.used_contracts.add(con.key)
                return r
        if len(self.stack) > 40:
            raise Unsupported("call depth")
        if any(x[0] == dem for x in self.stack[:-1]) and sum(1 for x in self.stack if x[0] == dem) > 3:
            raise Unsupported("recursion through %s" % dem)
        self.inlined.add(dem)
        return self.exec_func(st, f, args, merge=True)

    def exec_func(self, st, f, args, merge=False):
        self.mod.materialize(f)
        regs = {}
        for (t, r, at), v in zip(f.params, args):
            regs[r] = v
        mark = set(st.objs)
        tmp0 = self.tmpcnt
        self.stack.append([f.dem, 0])
        frame = {"regs": regs, "f": f, "temps": []}
        try:
            outs = self.run(st, frame, f.entry, None, None)
        finally:
            self.stack.pop()
        res = {"ret": [], "throw": []}
        for o in outs:
            kind, s2 = o[0], o[1]
            # automatic objects end their life
            for q in frame["temps"]:
                al = s2.alive.read(q)
                if not z3.is_false(al):
                    self.oblige(s2, NOT(al), "every temporary of %s has been destroyed when it returns" % short(f.dem), ("life",))
            for k in [k for k in s2.objs if k not in mark]:
                del s2.objs[k]
            res[kind].append((s2, o[2]))
        out = []
        for kind in ("ret", "throw"):
            rs = self.merge(res[kind]) if merge else res[kind]
            out += [(kind, s2, v) for s2, v in rs]
        return out

    # ---- running
    def run(self, st, frame, block, prev, region, header=None):
        """execute from block.  region: set of blocks; an edge out of it, or to header, ends the path.
        outcomes: ('ret', st, v) ('throw', st, exc) ('edge', st, (from, to), regs)"""
        work = [(st, dict(frame["regs"]), block, prev)]
        outs = []
        f = frame["f"]
        loops = f.loops()
        first = True
        while work:
            st, regs, bn, prev = work.pop()
            self.tick()
            if not first:
                if header is not None and bn == header:
                    outs.append(("edge", st, (prev, bn), regs))
                    continue
                if region is not None and bn not in region:
                    outs.append(("edge", st, (prev, bn), regs))
                    continue
            if bn in loops and not (first and bn == header):
                first = False
                for o in self.loop(st, dict(frame, regs=regs), bn, prev, loops[bn]):
                    if o[0] == "edge":
                        work.append((o[1], o[3], o[2][1], o[2][0]))
                    else:
                        outs.append(o)
                continue
            first = False
            self.block(st, regs, frame, bn, prev, work, outs)
        return outs

    def operand(self, st, regs, ty, v):
        k = v[0]
        if k == "reg":
            if v[1] not in regs:
                raise Unsupported("register %s undefined" % v[1])
            return regs[v[1]]
        if k == "null":
            return NULL
        if k == "int":
            if isinstance(ty, TInt) and ty.w == 1:
                return VBool(z3.BoolVal(bool(v[1])))
            return VInt(ty.w, iv(v[1]))
        if k == "undef":
            return UNDEF
        if k == "glob":
            return VGlob(v[1])
        if k == "zero":
            ty = self.mod.resolve(ty)
            if isinstance(ty, TStruct):
                return VAgg([self.operand(st, regs, t, ("zero",)) for t in ty.f])
            if isinstance(ty, TPtr):
                return NULL
            return VInt(ty.w, 0)
        if k == "constexpr":
            return VGlob("constexpr:" + " ".join(v[2]))
        if k == "agg":
            return VAgg([self.operand(st, regs, t, x) for t, x in v[1]])
        raise Unsupported("operand %r" % (v,))

    def block(self, st, regs, frame, bn, prev, work, outs):
        f = frame["f"]
        ins = f.blocks[bn].ins
        self.step(st, regs, frame, bn, prev, ins, 0, work, outs)

    def step(self, st, regs, frame, bn, prev, ins, k, work, outs):
        f = frame["f"]
        mod = self.mod
        n = len(ins)
        while k < n:
            i = ins[k]
            k += 1
            op, a = i.op, i.a
            if i.line:
                self.stack[-1][1] = i.line
            opd = lambda t, v: self.operand(st, regs, t, v)
            if op == "alloca":
                regs[i.res] = self.alloca(st, frame, a["ty"], i.res)
            elif op == "load":
                regs[i.res] = self.load(st, a["ty"], opd(None, a["p"]))
            elif op == "store":
                self.store(st, a["ty"], opd(a["ty"], a["v"]), opd(None, a["p"]))
            elif op == "getelementptr":
                regs[i.res] = self.gep(st, a, opd)
            elif op == "icmp":
                regs[i.res] = VBool(self.icmp(st, a["pred"], opd(a["ty"], a["x"]), opd(a["ty"], a["y"])))
            elif op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr", "and", "or", "xor"):
                regs[i.res] = self.binop(st, op, a["ty"], a["fl"], opd(a["ty"], a["x"]), opd(a["ty"], a["y"]))
            elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
                regs[i.res] = self.cast(st, op, a["ty"], a["to"], opd(a["ty"], a["v"]))
            elif op == "freeze":
                regs[i.res] = opd(a["ty"], a["v"])
            elif op == "select":
                c = opd(*a["c"])
                x, y = opd(*a["x"]), opd(*a["y"])
                r = vmerge(c.c, x, y)
                if r is None:
                    raise Unsupported("select of unlike values")
                regs[i.res] = r
            elif op == "phi":
                for v, b in a["inc"]:
                    if b == prev:
                        regs[i.res] = opd(a["ty"], v)
                        break
                else:
                    raise Unsupported("phi")
            elif op == "extractvalue":
                v = opd(a["ty"], a["v"])
                for q in a["idx"]:
                    if isinstance(v, VUndef):
                        break
                    v = v.xs[q]
                regs[i.res] = v
            elif op == "insertvalue":
                v = opd(a["ty"], a["v"])
                if isinstance(v, VUndef):
                    v = VAgg([UNDEF] * len(mod.resolve(a["ty"]).f))
                v = VAgg(v.xs)
                if len(a["idx"]) != 1:
                    raise Unsupported("insertvalue")
                v.xs[a["idx"][0]] = opd(a["ety"], a["e"])
                regs[i.res] = v
            elif op == "br":
                if "to" in a:
                    work.append((st, regs, a["to"], bn))
                    return
                c = opd(TInt(1), a["c"])
                if isinstance(c, VUndef):
                    self.oblige(st, FALSE, "no branch on an uninitialised value", ("life",))
                    return
                self.branch(st, regs, bn, c.c, a["t"], a["f"], work)
                return
            elif op == "switch":
                x = opd(a["ty"], a["v"])
                if isinstance(x, VUndef):
                    self.oblige(st, FALSE, "no branch on an uninitialised value", ("life",))
                    return
                if not isinstance(x, VInt):
                    raise Unsupported("switch on %r" % (x,))
                xv = self.u(st, x)
                rest = TRUE
                for k, label in a["cases"] + [(None, a["default"])]:
                    c = rest if k is None else AND(rest, EQ(xv, iv(int(k) % (1 << x.w))))
                    if k is not None:
                        rest = AND(rest, NOT(EQ(xv, iv(int(k) % (1 << x.w)))))
                    c = simp(c)
                    if z3.is_false(c) or not (z3.is_true(c) or self.feasible(st, c)):
                        continue
                    s2 = st.copy()
                    s2.assume(c)
                    work.append((s2, dict(regs), label, bn))
                return
            elif op == "ret":
                v = None if a["v"] is None else opd(a["ty"], a["v"])
                outs.append(("ret", st, v))
                return
            elif op == "unreachable":
                # only reached after a noreturn call: nothing to do
                return
            elif op == "landingpad":
                if not (a["catchall"] or a["cleanup"]) or a["catches"]:
                    raise Unsupported("typed catch")
                regs[i.res] = VAgg([VTok("exc"), VTok("sel")])
            elif op == "resume":
                outs.append(("throw", st, None))
                return
            elif op in ("call", "invoke"):
                args = [self.operand(st, regs, t, v) for t, v, at in a["args"]]
                attrs = [at for t, v, at in a["args"]]
                callee = a["callee"]
                if callee[0] != "@":
                    raise Unsupported("indirect call")
                rs = self.intrinsic(st, callee, args)
                if rs is None:
                    rs = self.call(st, callee, args)
                if op == "call":
                    rets = [r for r in rs if r[0] == "ret"]
                    for r in rs:
                        if r[0] == "throw":
                            outs.append(r)
                    if not rets:
                        return
                    for r in rets[1:]:
                        rg = dict(regs)
                        if i.res:
                            rg[i.res] = r[2]
                        self.step(r[1], rg, frame, bn, prev, ins, k, work, outs)
                    st = rets[0][1]
                    if i.res:
                        regs[i.res] = rets[0][2]
                else:
                    for r in rs:
                        rg = dict(regs)
                        if r[0] == "ret":
                            if i.res:
                                rg[i.res] = r[2]
                            work.append((r[1], rg, a["normal"], bn))
                        else:
                            work.append((r[1], rg, a["unwind"], bn))
                    return
            else:
                raise Unsupported("instruction %s: %s" % (op, i.text.strip()[:120]))
        raise Unsupported("block without terminator")

    def branch(self, st, regs, bn, c, t, f, work):
        c = simp(c)
        if z3.is_true(c):
            work.append((st, regs, t, bn))
            return
        if z3.is_false(c):
            work.append((st, regs, f, bn))
            return
        nc = NOT(c)
        ft = self.feasible(st, c)
        ff = self.feasible(st, nc) if ft else True
        if ft and ff:
            s2 = st.copy()
            s2.pc.append(nc)
            st.pc.append(c)
            work.append((s2, dict(regs), f, bn))
            work.append((st, regs, t, bn))
        elif ft:
            st.pc.append(c)
            work.append((st, regs, t, bn))
        else:
            st.pc.append(nc)
            work.append((st, regs, f, bn))

    # ---- instructions
    def selectors(self, f):
        """locals holding the selector of a landing pad"""
        r = getattr(f, "_sel", None)
        if r is None:
            ext = set(i.res for b in f.blocks.values() for i in b.ins if i.op == "extractvalue")
            r = f._sel = set()
            for b in f.blocks.values():
                for i in b.ins:
                    if i.op == "store":
                        m = re.match(r"\s*store i32 (%[-\w.$]+), ptr (%[-\w.$]+)", i.text or "")
                        if m and (m.group(1) in ext or m.group(1)[1:] in ext):
                            r.add(m.group(2))
                            r.add(m.group(2)[1:])
        return r

    def alloca(self, st, frame, ty, reg):
        rt = ty.n if isinstance(ty, TNamed) else None
        if self.variant.scalar and isinstance(ty, TInt) and ty.w == 8 * self.esz and reg not in self.selectors(frame["f"]):
            self.tmpcnt += 1
            return VElem(iv(-(100 + 10 * self.tmpcnt)))
        if rt is not None and rt == self.variant.elem_type:
            self.tmpcnt += 1
            a = iv(-(100 + 10 * self.tmpcnt))
            frame["temps"].append(a)
            return VElem(a)
        o = "%s.%d" % (reg, next(self.cnt))
        st.objs[o] = {}
        st.types[o] = ty
        return VObj(o)

    def flat(self, ty):
        """[(offset, size, type)] of the scalar leaves of ty"""
        t = self.mod.resolve(ty)
        if isinstance(t, TStruct):
            out = []
            for k in range(len(t.f)):
                o, ft = self.mod.offset(t, k)
                out += [(o + x, s, y) for x, s, y in self.flat(ft)]
            return out
        if isinstance(t, TArr):
            es = self.mod.size(t.e)
            return [(k * es + x, s, y) for k in range(t.n) for x, s, y in self.flat(t.e)]
        return [(0, self.mod.size(t), t)]

    def deref_elem(self, st, a, what):
        """access to an element of scalar type through its storage address"""
        v = self.variant
        if not v.scalar:
            raise Unsupported("direct %s of an element of class type" % what)
        if z3.is_int_value(simp(a)) and simp(a).as_long() < 0:
            return                                         # a local variable
        self.oblige(st, self.in_live_region(st, a), "%s within allocated storage" % what, ("life",))

    def in_live_region(self, st, a):
        return OR(*[AND(st.live[r], r.lo <= a, a < r.lo + r.n) for r in st.regions])

    def load(self, st, ty, p):
        mod = self.mod
        if isinstance(p, VObj):
            if p.o not in st.objs:
                self.oblige(st, FALSE, "no read of an object after the end of its lifetime", ("life",))
                raise Unsupported("dangling object")
            fl = self.flat(ty)
            if len(fl) == 1:
                return st.get(p.o, p.off, fl[0][1])
            t = mod.resolve(ty)
            xs = []
            for k in range(len(t.f)):
                o, ft = mod.offset(t, k)
                xs.append(self.load(st, ft, VObj(p.o, p.off + o)))
            return VAgg(xs)
        if isinstance(p, VElem):
            if not isinstance(ty, TInt):
                raise Unsupported("load of %r through an element pointer" % (ty,))
            self.deref_elem(st, p.a, "read")
            r = st.val.read(p.a)
            if not self.variant.scalar:
                raise Unsupported("scalar load")
            st.assume(z3.And(r >= -(1 << (ty.w - 1)), r < (1 << (ty.w - 1))))
            return VInt(ty.w, r)
        if isinstance(p, VUndef):
            self.oblige(st, FALSE, "no dereference of an uninitialised pointer", ("life",))
        raise Unsupported("load through %r" % (p,))

    def store(self, st, ty, v, p):
        mod = self.mod
        if isinstance(p, VObj):
            if p.o not in st.objs:
                self.oblige(st, FALSE, "no write to an object after the end of its lifetime", ("life",))
                raise Unsupported("dangling object")
            self.write_check(st, p.o)
            t = mod.resolve(ty)
            if isinstance(t, TStruct):
                if isinstance(v, VUndef):
                    v = VAgg([UNDEF] * len(t.f))
                for k in range(len(t.f)):
                    o, ft = mod.offset(t, k)
                    self.store(st, ft, v.xs[k], VObj(p.o, p.off + o))
                return
            sz = mod.size(t)
            st.put(p.o, p.off, sz, v)
            return
        if isinstance(p, VElem):
            if not isinstance(ty, TInt):
                raise Unsupported("store of %r through an element pointer" % (ty,))
            self.deref_elem(st, p.a, "write")
            self.elem_write_check(st, p.a)
            if isinstance(v, VUndef):
                v = VInt(ty.w, self.fresh("undef"))
            st.val = MPt(st.val, TRUE, p.a, self.s(st, v))
            return
        if isinstance(p, VUndef):
            self.oblige(st, FALSE, "no write through an uninitialised pointer", ("life",))
        raise Unsupported("store through %r" % (p,))

    def write_check(self, st, o):
        if o in self.readonly_objs:
            self.oblige(st, FALSE, "no write to a const object", ("const",), assume=False)

    def count(self, st, kind):
        m = st.objs.get("#ops")
        if m is not None and num(m[0][1].raw) != -1:
            st.put("#ops", 0, 8, VInt(64, lin(m[0][1].raw + 1)))

    def policy(self, st, op, dst, src):
        self.count(st, op)
        f = self.copy_ok if op == "copy" else self.move_ok
        if f is None:
            return
        g = f(st, src)
        if g is None or z3.is_true(g):
            return
        self.oblige(st, g, "elements of a buffer are not %s" % ("copied to relocate them" if op == "copy" else "moved when moving may throw"),
                    ("discipline",), assume=False)

    def elem_write_check(self, st, a):
        if self.readonly_elems is not None:
            self.oblige(st, NOT(self.readonly_elems(a)), "no write to an element that must not be modified", ("const", "discipline"))

    def gep(self, st, a, opd):
        p = opd(None, a["p"])
        idx = [opd(t, v) for t, v in a["idx"]]
        ty = a["ty"]
        if isinstance(p, VObj):
            off = p.off
            t = ty
            for k, x in enumerate(idx):
                n = num(x.raw) if isinstance(x, VInt) else None
                if n is None:
                    raise Unsupported("variable index into an object")
                if k == 0:
                    off += n * self.mod.size(t)
                else:
                    o, t = self.mod.offset(t, n)
                    off += o
            return VObj(p.o, off)
        if isinstance(p, VElem):
            if len(idx) == 1 and self.mod.size(ty) == self.esz and (self.variant.scalar or (isinstance(ty, TNamed) and ty.n == self.variant.elem_type)):
                x = idx[0]
                if isinstance(x, VUndef):
                    self.oblige(st, FALSE, "no arithmetic on an uninitialised value", ("life",))
                    raise Unsupported("undef index")
                return VElem(lin(p.a + self.s(st, x)))
            if all(isinstance(x, VInt) and num(x.raw) == 0 for x in idx):
                return p
            raise Unsupported("getelementptr into an element")
        if isinstance(p, VGlob):
            return VGlob(p.n + "+gep")
        raise Unsupported("getelementptr on %r" % (p,))

    def icmp(self, st, pred, x, y):
        if isinstance(x, VUndef) or isinstance(y, VUndef):
            self.oblige(st, FALSE, "no comparison of an uninitialised value", ("life",))
            raise Unsupported("undef compare")
        if isinstance(x, (VObj, VElem, VGlob, VTok)) or isinstance(y, (VObj, VElem, VGlob, VTok)):
            if isinstance(x, VElem) and isinstance(y, VElem):
                X, Y = x.a, y.a
                if pred == "eq":
                    return EQ(X, Y)
                if pred == "ne":
                    return NOT(EQ(X, Y))
                return {"ult": X < Y, "ule": X <= Y, "ugt": X > Y, "uge": X >= Y}[pred]
            if pred in ("eq", "ne"):
                if isinstance(x, VObj) and isinstance(y, VObj):
                    e = x.o == y.o and x.off == y.off
                elif isinstance(x, VTok) or isinstance(y, VTok):
                    raise Unsupported("pointer comparison")
                elif isinstance(x, VElem) or isinstance(y, VElem):
                    el = x if isinstance(x, VElem) else y
                    return FALSE if pred == "eq" else TRUE   # an object and an element slot (or null) never coincide
                else:
                    e = veq(x, y)
                return z3.BoolVal(e if pred == "eq" else not e)
            raise Unsupported("pointer order")
        if isinstance(x, VBool) and isinstance(y, VBool):
            if pred == "eq":
                return x.c == y.c
            if pred == "ne":
                return x.c != y.c
            raise Unsupported("bool order")
        if pred in ("eq", "ne"):
            if x.el is not None and y.el is not None:
                e = EQ(x.el, y.el)
            else:
                m = 1 << x.w
                h = m >> 1
                for lo, hi in ((0, m), (-h, h)):
                    if self.in_range(st, x.raw, lo, hi) and self.in_range(st, y.raw, lo, hi):
                        e = EQ(x.raw, y.raw)
                        break
                else:
                    e = EQ(self.u(st, x), self.u(st, y))
            return e if pred == "eq" else NOT(e)
        g = self.u if pred[0] == "u" else self.s
        X, Y = g(st, x), g(st, y)
        return {"lt": X < Y, "le": X <= Y, "gt": X > Y, "ge": X >= Y}[pred[1:]]

    def binop(self, st, op, ty, fl, x, y):
        if isinstance(x, VUndef) or isinstance(y, VUndef):
            self.oblige(st, FALSE, "no arithmetic on an uninitialised value", ("life",))
            raise Unsupported("undef arithmetic")
        w = ty.w
        if w == 1:
            X, Y = x.c, y.c
            if op == "and":
                return VBool(AND(X, Y))
            if op == "or":
                return VBool(OR(X, Y))
            if op == "xor":
                return VBool(NOT(X) if z3.is_true(Y) else NOT(Y) if z3.is_true(X) else z3.Xor(X, Y))
            raise Unsupported("i1 " + op)
        if not isinstance(x, VInt) or not isinstance(y, VInt):
            raise Unsupported("arithmetic on %r and %r" % (x, y))
        if op in ("add", "sub"):
            if "nsw" in fl:
                X, Y = self.s(st, x), self.s(st, y)
                r = lin(X + Y if op == "add" else X - Y)
                h = 1 << (w - 1)
                if num(r) is None and not self.in_range(st, r, -h, h):
                    self.oblige(st, z3.And(r >= -h, r < h), "no signed overflow in %s" % op, ("life",))
                return VInt(w, r)
            if op == "sub" and x.el is not None and y.el is not None:
                d = lin(x.el - y.el)
                return VInt(w, lin(d * self.esz), el=d)
            # keep the representative small: use unsigned views when they are known
            r = lin(x.raw + y.raw if op == "add" else x.raw - y.raw)
            return VInt(w, r)
        if op == "mul":
            n = num(y.raw)
            if n is None:
                n = num(x.raw)
                x = y
            if n is None:
                raise Unsupported("non-linear multiplication")
            if "nsw" in fl:
                X = self.s(st, x)
                r = lin(X * n)
                h = 1 << (w - 1)
                if not self.in_range(st, r, -h, h):
                    self.oblige(st, z3.And(r >= -h, r < h), "no signed overflow in mul", ("life",))
                return VInt(w, r)
            return VInt(w, lin(x.raw * n))
        if op == "shl":
            n = num(y.raw)
            if n is None:
                raise Unsupported("variable shift")
            return VInt(w, lin(x.raw * (1 << n)))
        if op in ("sdiv", "udiv", "srem", "urem", "lshr"):
            n = num(y.raw)
            if n is None:
                return self.vardiv(st, op, w, x, y)
            if op == "lshr":
                n = 1 << n
                op = "udiv"
            if op == "sdiv" and n == self.esz and x.el is not None:
                return VInt(w, x.el)
            if op in ("udiv", "urem"):
                X = self.u(st, x)
                q = X / iv(n) if num(X) is None else iv(num(X) // n)
                return VInt(w, q if op == "udiv" else lin(X - q * n))
            X = self.s(st, x)
            if n <= 0:
                raise Unsupported("sdiv")
            q = z3.If(X >= 0, X / iv(n), -((-X) / iv(n)))
            return VInt(w, simp(q) if op == "sdiv" else simp(X - q * n))
        if op == "and" and num(y.raw) is not None and (num(y.raw) & (num(y.raw) + 1)) == 0 and num(y.raw) >= 0:
            X = self.u(st, x)
            return VInt(w, X % (num(y.raw) + 1))
        if op == "ashr" and num(y.raw) is not None:
            X = self.s(st, x)
            return VInt(w, X / iv(1 << num(y.raw)))
        if op in ("and", "or", "xor") and x.b is not None and y.b is not None:
            c = AND(x.b, y.b) if op == "and" else OR(x.b, y.b) if op == "or" else z3.Xor(x.b, y.b)
            return VInt(w, z3.If(c, iv(1), iv(0)), b=c)
        raise Unsupported("arithmetic %s" % op)

    def vardiv(self, st, op, w, x, y):
        """division or remainder by a variable: introduced by its defining (non-linear free) facts"""
        if op not in ("udiv", "urem"):
            raise Unsupported("variable division")
        X, Y = self.u(st, x), self.u(st, y)
        self.oblige(st, Y != 0, "no division by zero", ("life",))
        q, r = self.fresh("quo"), self.fresh("rem")
        st.assume(z3.And(q >= 0, r >= 0, r < Y, q <= X, r <= X,
                         z3.Implies(X < Y, z3.And(q == 0, r == X)),
                         z3.Implies(z3.And(X >= Y, X < 2 * Y), z3.And(q == 1, r == X - Y)),
                         z3.Implies(X >= 2 * Y, q >= 2)))
        return VInt(w, q if op == "udiv" else r)

    def cast(self, st, op, ty, to, v):
        if op == "ptrtoint":
            if isinstance(v, VElem):
                return VInt(64, lin(v.a * self.esz), el=v.a)
            if isinstance(v, VObj):
                raise Unsupported("ptrtoint of an object")
            raise Unsupported("ptrtoint")
        if isinstance(v, VUndef):
            return v
        if op == "zext":
            if isinstance(v, VBool):
                return VInt(to.w, ite(v.c, iv(1), iv(0)), b=v.c)
            return VInt(to.w, self.u(st, v), b=v.b)
        if op == "sext":
            if isinstance(v, VBool):
                return VInt(to.w, ite(v.c, iv(-1), iv(0)))
            return VInt(to.w, self.s(st, v))
        if op == "trunc":
            if to.w == 1:
                if v.b is not None:
                    return VBool(v.b)
                return VBool(self.u(st, v) % 2 == 1)
            return VInt(to.w, v.raw)
        if op == "bitcast":
            return v
        raise Unsupported("cast " + op)

    # ---- intrinsics
    def intrinsic(self, st, name, args):
        if not name.startswith("@llvm."):
            if name in ("@__cxa_begin_catch",):
                st.caught = st.caught + ((st.trace, False),)
                return [("ret", st, VTok("excobj"))]
            if name == "@__cxa_end_catch":
                tr, re_ = st.caught[-1]
                st.caught = st.caught[:-1]
                if not re_:
                    st.trace = ()
                return [("ret", st, None)]
            if name == "@__cxa_rethrow":
                tr, re_ = st.caught[-1]
                st.caught = st.caught[:-1] + ((tr, True),)
                st.trace = tr
                return [("throw", st, None)]
            if name == "@__clang_call_terminate" or name in ("@_ZSt9terminatev", "@abort"):
                self.oblige(st, FALSE, "no exception escapes a function that must not throw", ("exc", "nothrow"), assume=True)
                return []
            return None
        if name.startswith("@llvm.memcpy") or name.startswith("@llvm.memmove"):
            d, s, n = args[0], args[1], num(args[2].raw)
            if n is None:
                raise Unsupported("memcpy of variable size")
            if isinstance(d, VObj) and isinstance(s, VObj):
                self.write_check(st, d.o)
                src = [(k, c) for k, c in st.objs[s.o].items() if s.off <= k < s.off + n]
                for k, (sz, v) in src:
                    if k + sz > s.off + n:
                        raise Unsupported("memcpy splits a cell")
                    st.put(d.o, d.off + k - s.off, sz, v)
                return [("ret", st, None)]
            if isinstance(d, VElem) and isinstance(s, VElem) and self.variant.scalar and n == self.esz:
                self.deref_elem(st, s.a, "read")
                self.deref_elem(st, d.a, "write")
                st.val = MPt(st.val, TRUE, d.a, st.val.read(s.a))
                return [("ret", st, None)]
            raise Unsupported("memcpy")
        if name.startswith("@llvm.memset"):
            d, b, n = args[0], args[1], num(args[2].raw)
            if n is not None and isinstance(d, VObj) and num(b.raw) == 0:
                o = self.mod.resolve(st.types[d.o])
                for k, sz, t in self.flat(o):
                    if d.off <= k < d.off + n:
                        st.put(d.o, k, sz, NULL if isinstance(t, TPtr) else VInt(sz * 8, 0))
                return [("ret", st, None)]
            raise Unsupported("memset")
        if name.startswith("@llvm.lifetime") or name.startswith("@llvm.assume") or name.startswith("@llvm.expect"):
            return [("ret", st, args[0] if name.startswith("@llvm.expect") else None)]
        if name.startswith("@llvm.eh.typeid"):
            return [("ret", st, VInt(32, self.fresh("typeid")))]
        if name.startswith("@llvm.is.constant"):
            return [("ret", st, VBool(self.fresh("isconst", z3.BoolSort())))]
        if name.startswith("@llvm.trap"):
            self.oblige(st, FALSE, "no trap", ("life",))
            return []
        raise Unsupported("intrinsic " + name)

    # ---- loops: see loops.py
    def loop(self, st, frame, header, prev, body):
        from . import loops
        return loops.handle(self, st, frame, header, prev, body)


def short(dem):
    from .variant import norm
    d = norm(dem)
    d = re.sub(r"^(\w+[ *&]+)+", "", d) if " " in d.split("(")[0] else d
    return d if len(d) < 70 else d[:67] + "..."
