"""Proof of the registry of valid iterators (debug.hpp): every function under the contract the container's proofs rely on.

Heap: one map per data member (m_registry, m_next, m_it, m_iterators).  Ghost state: for every registry R the sequence
L(R,0..k(R)-1) of the iterators registered with it, and idx(n), the place of n in it.  Class invariant over all living
iterators and all registries:
  for 0 <= i < k(R): L(R,i) is a living iterator whose m_registry is R, idx(L(R,i)) = i, and whose m_next is L(R,i+1),
  or null for the last one;  m_iterators of R is L(R,0), or null if k(R) = 0;
  every living iterator n whose m_registry is not null is L(m_registry, idx(n)) with 0 <= idx(n) < k(m_registry).
The functions the contracts name are verified from the compiled code of the current tree, small helpers (remove, next,
set_next, register_self, ...) are part of the body that calls them.  Loops are verified by invariants over the sequence;
the local variables that walk the chain are found by trial."""
import itertools
import re
import time

import z3

from . import variant as V

I, B = z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    pass


class Fld:
    """address of a member, or of a base class at offset 0"""

    def __init__(self, base, cls, off):
        self.base, self.cls, self.off = base, cls, off


class Loc:
    def __init__(self, frame, n):
        self.k = (frame, n)


FIELDS = {"debug_iterator_base": {0: "reg", 8: "next"}, "iterator": {0: "reg", 8: "next"}, "debug_iterator_registry": {0: "head"}}


def cls_of(t):
    m = re.search(r"cb_details::(debug_iterator_base|debug_iterator_registry|iterator)(\.\d+)?\"?$", getattr(t, "n", "") or "")
    return m[1] if m else None


class Ghost:
    def __init__(self, L, k, idx):
        self.L, self.k, self.idx = L, k, idx


class State:
    def __init__(self):
        self.loc, self.pc, self.heap = {}, [], {}

    def copy(self):
        s = State()
        s.loc, s.pc, s.heap = dict(self.loc), list(self.pc), dict(self.heap)
        return s


def upd(f, a, v):
    return lambda x: z3.If(x == a, v, f(x))


class Prover:
    """one function against its contract"""

    def __init__(self, mod, f, con, budget=60):
        self.mod, self.f, self.con = mod, f, con
        self.n = 0
        self.obs, self.loops, self.inlined = [], [], set()
        self.queries, self.solver_time = 0, 0.0
        self.end = time.time() + budget
        self.fields = {k: dict(v) for k, v in FIELDS.items()}
        self.fields["iterator"][iterator_member(mod)] = "it"
        self.base_hyps = []

    def fresh(self, s, sort=I):
        self.n += 1
        return z3.Const("%s!%d" % (s, self.n), sort)

    def fun(self, s, *sorts):
        self.n += 1
        return z3.Function("%s!%d" % (s, self.n), *sorts)

    def check(self, hyps, goal, timeout=10000):
        """discharged | open"""
        if time.time() > self.end:
            raise Unsupported("time budget")
        t0 = time.time()
        s = z3.Solver()
        s.set("auto_config", False)
        s.set("mbqi", False)
        s.set("timeout", timeout)
        s.add(*self.base_hyps)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r = s.check()
        self.queries += 1
        self.solver_time += time.time() - t0
        return r == z3.unsat

    def oblige(self, hyps, goal, name, quiet=None, where=""):
        t0 = time.time()
        ok = self.check(hyps, goal)
        if quiet is not None:
            if ok:
                quiet.append((name, where, time.time() - t0))
            return ok
        self.obs.append({"name": name, "tags": ["dbg"], "status": "discharged" if ok else "unknown", "where": where or V.norm(self.f.dem),
                         "backend": "z3", "time": time.time() - t0, **({} if ok else {"goal": str(goal)[:400], "model": None})})
        return ok

    # ------------------------------------------------------------ the class invariant
    def invariant(self, h, g, live, patterns=False, head_of=None):
        """as hypotheses (over function symbols, with patterns) or as goals"""
        R, i, n = z3.Int("R"), z3.Int("i"), z3.Int("n")
        e = g.L(R, i)
        inr = z3.And(R != 0, 0 <= i, i < g.k(R))
        a1 = z3.Implies(inr, z3.And(live(e), e != 0, h["reg"](e) == R, g.idx(e) == i))
        a2 = z3.Implies(inr, h["next"](e) == z3.If(i + 1 < g.k(R), g.L(R, i + 1), 0))
        a3 = z3.Implies(z3.And(R != 0, head_of(R) if head_of else True), h["head"](R) == z3.If(g.k(R) == 0, 0, g.L(R, 0)))
        a4 = z3.Implies(R != 0, g.k(R) >= 0)
        r = h["reg"](n)
        a5 = z3.Implies(z3.And(live(n), r != 0), z3.And(0 <= g.idx(n), g.idx(n) < g.k(r), g.L(r, g.idx(n)) == n))
        a6 = z3.Implies(live(n), n != 0)
        P = (lambda *ps: {"patterns": list(ps)}) if patterns else (lambda *ps: {})
        return [("every iterator of the chain is alive, registered there and in its place", z3.ForAll([R, i], a1, **P(e))),
                ("the chain links its iterators in order and ends with null", z3.ForAll([R, i], a2, **P(h["next"](e) if patterns else None))),
                ("the registry points to the first iterator of its chain", z3.ForAll([R], a3, **P(h["head"](R) if patterns else None))),
                ("the chain has a length", z3.ForAll([R], a4, **P(g.k(R)))),
                ("every registered iterator is in the chain of its registry", z3.ForAll([n], a5, **P(r if patterns else None))),
                ("living iterators have addresses", z3.ForAll([n], a6, **P(live(n))))]

    def symbols(self, tag, only=("reg", "next", "head", "it")):
        return {k: self.fun(k + tag, I, I) for k in only}

    def ghosts(self, tag):
        return Ghost(self.fun("L" + tag, I, I, I), self.fun("k" + tag, I, I), self.fun("idx" + tag, I, I))

    # ------------------------------------------------------------ execution
    def val(self, fr, v):
        if v[0] == "reg":
            return fr["regs"][v[1]]
        if v[0] in ("null", "zero"):
            return z3.IntVal(0)
        if v[0] == "int":
            return z3.IntVal(v[1])
        raise Unsupported("value %s" % (v,))

    def scalar(self, x):
        if isinstance(x, Fld):
            if x.off != 0:
                raise Unsupported("interior pointer")
            return x.base
        if isinstance(x, Loc):
            raise Unsupported("address of a local variable")
        return x

    def cell(self, p):
        if isinstance(p, Fld):
            k = self.fields[p.cls].get(p.off)
            if k is None:
                raise Unsupported("member at %d of %s" % (p.off, p.cls))
            return k, p.base
        raise Unsupported("access through an untyped pointer")

    def load(self, st, p):
        if isinstance(p, Loc):
            if p.k not in st.loc:
                raise Unsupported("uninitialised local")
            return st.loc[p.k]
        k, b = self.cell(p)
        return st.heap[k](b)

    def store(self, st, p, v):
        if isinstance(p, Loc):
            st.loc[p.k] = v
            return
        k, b = self.cell(p)
        st.heap[k] = upd(st.heap[k], b, self.scalar(v))

    def call(self, f, args, st, depth):
        if depth > 8:
            raise Unsupported("call depth")
        if not f.blocks:
            self.mod.materialize(f)
        if not f.blocks:
            raise Unsupported("call of " + V.norm(f.dem))
        self.n += 1
        fr = {"id": self.n, "f": f, "regs": {}, "depth": depth, "in": ()}
        for (t, r, a), v in zip(f.params, args):
            fr["regs"][r] = v
        return self.run(fr, f.entry, None, st, [])

    def run(self, fr, blk, frm, st, backs):
        """executes from blk on; outcomes [(state, result)].  States that come back to a loop under way go to backs"""
        f = fr["f"]
        if blk in fr["in"]:
            if blk == fr["in"][-1]:
                backs.append((st, fr))
                return []
            raise Unsupported("jump to an outer loop")
        if blk in f.loops():
            return self.loop(fr, blk, st, backs)
        return self.block(fr, blk, frm, st, backs)

    def block(self, fr, blk, frm, st, backs):
        f = fr["f"]
        fr = dict(fr, regs=dict(fr["regs"]))
        if fr["in"] and blk not in f.loops()[fr["in"][-1]]:
            fr["in"] = fr["in"][:-1]
            if fr["in"]:
                raise Unsupported("nested loops")
        R = fr["regs"]
        for k, i in enumerate(f.blocks[blk].ins):
            a = i.a
            if i.op == "alloca":
                R[i.res] = Loc(fr["id"], i.res)
            elif i.op == "load":
                R[i.res] = self.load(st, self.val(fr, a["p"]))
            elif i.op == "store":
                self.store(st, self.val(fr, a["p"]), self.val(fr, a["v"]))
            elif i.op == "getelementptr":
                p = self.val(fr, a["p"])
                c = cls_of(a["ty"])
                off, t = 0, a["ty"]
                for q, (ti, vi) in enumerate(a["idx"]):
                    if vi[0] != "int":
                        raise Unsupported("pointer arithmetic")
                    if q == 0:
                        if vi[1] != 0:
                            raise Unsupported("pointer arithmetic")
                        continue
                    o, t = self.mod.offset(t, vi[1])
                    off += o
                if c is None:
                    raise Unsupported("type %s" % a["ty"])
                if isinstance(p, Fld):
                    p = self.scalar(p)
                if isinstance(p, Loc):
                    raise Unsupported("local object")
                R[i.res] = Fld(p, c, off)
            elif i.op == "icmp":
                x, y = self.scalar(self.val(fr, a["x"])), self.scalar(self.val(fr, a["y"]))
                if z3.is_bool(x) or z3.is_bool(y):
                    raise Unsupported("comparison")
                if a["pred"] not in ("eq", "ne"):
                    raise Unsupported("comparison " + a["pred"])
                R[i.res] = x == y if a["pred"] == "eq" else x != y
            elif i.op in ("bitcast",):
                R[i.res] = self.val(fr, a["v"])
            elif i.op in ("zext", "trunc"):
                R[i.res] = self.val(fr, a["v"])           # bool <-> i8
            elif i.op == "xor" and z3.is_bool(self.val(fr, a["x"])) and a["y"] == ("int", 1):
                R[i.res] = z3.Not(self.val(fr, a["x"]))
            elif i.op == "select":
                c = self.val(fr, a["c"][1])
                R[i.res] = z3.If(c, self.scalar(self.val(fr, a["x"][1])), self.scalar(self.val(fr, a["y"][1])))
            elif i.op == "phi":
                v = [x for x, b in a["inc"] if b == frm]
                if len(v) != 1:
                    raise Unsupported("phi")
                w = self.val(fr, v[0])
                if getattr(a["ty"], "w", 0) == 1 and z3.is_int_value(w):
                    w = z3.BoolVal(w.as_long() != 0)
                R[i.res] = w
            elif i.op in ("call", "invoke"):
                g = self.mod.funcs.get(a["callee"])
                d = V.norm(g.dem) if g is not None else a["callee"]
                if a["callee"].startswith("@llvm.dbg") or a["callee"].startswith("@llvm.lifetime"):
                    continue
                if g is None or not ("debug_iterator" in d):
                    raise Unsupported("call of " + d)
                self.inlined.add(d)
                out = []
                for st2, rv in self.call(g, [self.val(fr, v) for t, v, at in a["args"]], st, fr["depth"] + 1):
                    fr2 = dict(fr, regs=dict(R))
                    if i.res:
                        fr2["regs"][i.res] = rv
                    out.append((st2, fr2))
                res = []
                for st2, fr2 in out:
                    res += self.rest(fr2, blk, k + 1, a.get("normal"), st2, backs)
                return res
            elif i.op in ("br", "ret", "unreachable", "switch"):
                return self.terminate(fr, blk, i, st, backs)
            else:
                raise Unsupported("instruction " + i.op)
        raise Unsupported("block without end")

    def rest(self, fr, blk, k, normal, st, backs):
        if normal is not None:
            return self.run(fr, normal, blk, st, backs)
        f = fr["f"]
        b = f.blocks[blk]
        # the remaining instructions of the block as a block of their own
        nm = "%s+%d" % (blk, k)
        if nm not in f.blocks:
            nb = type(b)(nm)
            nb.ins = b.ins[k:]
            f.blocks[nm] = nb
            for s in f.loops().values():
                if blk in s:
                    s.add(nm)
        return self.block(fr, nm, blk, st, backs)

    def terminate(self, fr, blk, i, st, backs):
        a = i.a
        if i.op == "ret":
            return [(st, None if a["v"] is None else self.val(fr, a["v"]))]
        if i.op == "unreachable":
            return []
        if i.op == "switch":
            raise Unsupported("switch")
        at = blk.split("+")[0]
        if "to" in a:
            return self.run(fr, a["to"], at, st, backs)
        c = self.val(fr, a["c"])
        if not z3.is_bool(c):
            c = c != 0
        c = z3.simplify(c)
        res = []
        if not z3.is_false(c):
            s = st.copy()
            s.pc.append(c)
            res += self.run(fr, a["t"], at, s, backs)
        if not z3.is_true(c):
            s = st.copy()
            s.pc.append(z3.Not(c))
            res += self.run(fr, a["f"], at, s, backs)
        return res

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st, backs):
        if fr["in"]:
            raise Unsupported("nested loops")
        f = fr["f"]
        body = f.loops()[h]
        ptrs, other = set(), set()
        for b in body:
            for i in f.blocks[b].ins:
                if i.op == "store" and i.a["p"][0] == "reg":
                    p = fr["regs"].get(i.a["p"][1])
                    if isinstance(p, Loc):
                        (ptrs if repr(i.a["ty"]) == "ptr" else other).add(p.k)
        if other:
            raise Unsupported("loop with local variables other than pointers")
        live_in = [k for k in sorted(ptrs) if k in st.loc]
        dead = [k for k in ptrs if k not in st.loc]
        for s in (self.con.loop or ()):
            for ks in (ks for k in range(min(len(live_in), s.width), -1, -1) for ks in itertools.permutations(live_in, k)):
                if len(ks) > s.width or (len(ks) == 0) != (s.width == 0):
                    continue
                log = []
                r = self.attempt(fr, h, st, s, ks, dead, log)
                if r is not None:
                    for nm, where, t in log:
                        self.obs.append({"name": nm, "tags": ["dbg", "term"] if "terminates" in nm else ["dbg"], "status": "discharged", "where": where, "backend": "z3", "time": t})
                    self.loops.append({"fn": V.norm(f.dem), "exact": True, "how": s.name})
                    return r
        raise Unsupported("no invariant for the loop in " + V.norm(f.dem))

    def attempt(self, fr, h, st, s, ks, dead, log):
        c, where = self.con, V.norm(fr["f"].dem)
        names = dict(zip(("p", "prev"), ks))
        val0 = {x: self.scalar(st.loc[k]) for x, k in names.items()}
        # established
        w = s.entry(self)
        for nm, goal in s.inv(self, st.heap, val0, w):
            if not self.oblige(st.pc, goal, "loop invariant holds on entry: " + nm, log, where):
                return None
        st1 = st.copy()
        for k in dead:
            st1.loc.pop(k, None)
        v1 = {}
        for x, k in names.items():
            v1[x] = self.fresh(x)
            st1.loc[k] = v1[x]
        heap1, w1 = s.havoc(self, st.heap)
        st1.heap = heap1
        st1.pc += [g for nm, g in s.inv(self, heap1, v1, w1, hyp=True)]
        back = []
        n0 = len(self.obs)
        res = self.block(dict(fr, **{"in": (h,)}), h, None, st1, back)
        if len(self.obs) != n0:
            raise Unsupported("nested obligations")
        for st2, fr2 in back:
            v2 = {x: self.scalar(st2.loc[k]) for x, k in names.items()}
            w2 = s.step(self, st2.heap, v2, w1)
            for nm, goal in s.inv(self, st2.heap, v2, w2):
                if not self.oblige(st2.pc, goal, "loop invariant is kept: " + nm, log, where):
                    return None
            if not self.oblige(st2.pc, s.variant(w1, w2), "loop terminates", log, where):
                return None
        return res

    # ------------------------------------------------------------ one function
    def verify(self):
        t0 = time.time()
        status, note = "ok", ""
        try:
            self.con.prove(self)
            if any(o["status"] != "discharged" for o in self.obs):
                status, note = "ok", ""
        except (Unsupported, KeyError, AttributeError, ValueError, TypeError, IndexError, z3.Z3Exception) as e:
            status, note = "undecided", "%s: %s" % (type(e).__name__, e)
        return {"key": V.norm(self.f.dem), "scenario": "", "variant": "db", "status": status, "note": note, "time": time.time() - t0,
                "outcomes": (1, 0), "queries": self.queries, "solver_time": self.solver_time, "inlined": sorted(self.inlined), "contracts": [],
                "externs": [], "loops": self.loops, "obs": self.obs}


# ---------------------------------------------------------------- loop invariants

class Walk:
    """looks for x in its chain; nothing changes.  w = j, the place of p"""
    name, width = "walk along the chain", 2

    def __init__(self, x, short=False):
        self.x, self.short = x, short

    def entry(self, P):
        return z3.IntVal(0)

    def havoc(self, P, heap):
        self.heap0 = heap
        return dict(heap), P.fresh("j")

    def inv(self, P, heap, v, j, hyp=False):
        g = P.g0
        R = P.h0["reg"](self.x)
        out = [("position", z3.And(0 <= j, j < g.idx(self.x) if self.short else j <= g.idx(self.x))), ("current iterator", v["p"] == g.L(R, j))]
        if "prev" in v:
            out.append(("previous iterator", v["prev"] == z3.If(j == 0, 0, g.L(R, j - 1))))
        if not hyp and hasattr(self, "heap0"):
            out += [("nothing is written", z3.BoolVal(all(heap[k] is self.heap0[k] for k in heap)))]
        return out

    def step(self, P, heap, v, j):
        return j + 1

    def variant(self, j, j2):
        return z3.And(j2 > j)


class Purge:
    """iterators of R for which match holds are unregistered and taken out.  w = (ghost, j)"""
    name, width = "iterators found are taken out of the chain", 2

    def __init__(self, R, match):
        self.R, self.match = R, match

    def entry(self, P):
        return P.g0, z3.IntVal(0)

    def havoc(self, P, heap):
        h = dict(heap, **P.symbols("'", ("reg", "next", "head")))
        return h, (P.ghosts("'"), P.fresh("j"))

    def inv(self, P, heap, v, w, hyp=False):
        g, j = w
        R, i, n = self.R, z3.Int("i"), z3.Int("n")
        e = g.L(R, i)
        pat = (lambda p: {"patterns": [p]}) if hyp else (lambda p: {})
        out = P.invariant(heap, g, P.live0, patterns=hyp)
        r0 = P.h0["reg"](n)
        out += [("position", z3.And(0 <= j, j <= g.k(R))), ("current iterator", v["p"] == z3.If(j < g.k(R), g.L(R, j), 0)),
                ("no iterator before the position is to be invalidated",
                 z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < j), z3.Not(self.match(P, e))), **pat(e))),
                ("only iterators that are to be invalidated have changed",
                 z3.ForAll([n], z3.Implies(P.live0(n), z3.Or(heap["reg"](n) == r0, z3.And(heap["reg"](n) == 0, r0 == R, self.match(P, n)))),
                           **({"patterns": [heap["reg"](n), r0]} if hyp else {})))]
        if "prev" in v:
            out.append(("previous iterator", v["prev"] == z3.If(j == 0, 0, g.L(R, j - 1))))
        return out

    def step(self, P, heap, v, w):
        g, j = w
        R = self.R
        rm = heap["reg"](g.L(R, j)) != R
        L = lambda r, i: z3.If(z3.And(r == R, rm, i >= j), g.L(r, i + 1), g.L(r, i))
        k = lambda r: z3.If(z3.And(r == R, rm), g.k(r) - 1, g.k(r))
        idx = lambda n: z3.If(z3.And(rm, heap["reg"](n) == R, g.idx(n) > j), g.idx(n) - 1, g.idx(n))
        return Ghost(L, k, idx), z3.If(rm, j, j + 1)

    def variant(self, w, w2):
        return w2[0].k(self.R) - w2[1] < w[0].k(self.R) - w[1]


class Mark:
    """all iterators of R are unregistered, the chain stays as it is.  w = j"""
    name, width = "iterators are marked along the chain", 1

    def __init__(self, R):
        self.R = R

    def entry(self, P):
        return z3.IntVal(0)

    def regs(self, P, j):
        r, g = P.h0["reg"], P.g0
        return lambda n: z3.If(z3.And(P.live0(n), r(n) == self.R, g.idx(n) < j), 0, r(n))

    def havoc(self, P, heap):
        self.heap0 = heap
        j = P.fresh("j")
        f = P.fun("reg'", I, I)
        n = z3.Int("n")
        P.base_hyps.append(z3.ForAll([n], z3.Implies(P.live0(n), f(n) == self.regs(P, j)(n)), patterns=[f(n)]))
        return dict(heap, reg=f), j

    def inv(self, P, heap, v, j, hyp=False):
        g, R = P.g0, self.R
        n = z3.Int("n")
        out = [("position", z3.And(0 <= j, j <= g.k(R))), ("current iterator", v["p"] == z3.If(j < g.k(R), g.L(R, j), 0))]
        if not hyp:
            out.append(("the iterators before the position are invalid, no other has changed",
                        z3.ForAll([n], z3.Implies(P.live0(n), heap["reg"](n) == self.regs(P, j)(n)))))
            if hasattr(self, "heap0"):
                out.append(("the chain stays", z3.BoolVal(all(heap[k] is self.heap0[k] for k in ("next", "head", "it")))))
        return out

    def step(self, P, heap, v, j):
        return j + 1

    def variant(self, j, j2):
        return j2 > j


class Consume(Mark):
    """all iterators of R are unregistered, the registry points to the first one that is left"""
    name, width = "iterators are taken from the front of the chain", 0

    def head(self, P, j):
        g, R = P.g0, self.R
        return z3.If(j < g.k(R), g.L(R, j), 0)

    def havoc(self, P, heap):
        h, j = Mark.havoc(self, P, heap)
        return dict(h, head=upd(heap["head"], self.R, self.head(P, j))), j

    def inv(self, P, heap, v, j, hyp=False):
        g, R = P.g0, self.R
        n, r = z3.Int("n"), z3.Int("r")
        out = [("position", z3.And(0 <= j, j <= g.k(R)))]
        if not hyp:
            out += [("the iterators before the position are invalid, no other has changed",
                     z3.ForAll([n], z3.Implies(P.live0(n), heap["reg"](n) == self.regs(P, j)(n)))),
                    ("the registry points to the first iterator left",
                     z3.And(heap["head"](R) == self.head(P, j), z3.ForAll([r], z3.Implies(r != R, heap["head"](r) == P.h0["head"](r)))))]
            if hasattr(self, "heap0"):
                out.append(("the chain stays", z3.BoolVal(all(heap[k] is self.heap0[k] for k in ("next", "it")))))
        return out


# ---------------------------------------------------------------- contracts

class Contract:
    """pre(P, args) -> hypotheses;  live(P, args, n), reg(P, args, n): who lives and where it is registered afterwards;
    ghost(P, args) -> the chains afterwards;  ret(P, args, result) -> what the result is"""
    loop = None

    def __init__(self, text, pre, live, reg, ghost, ret=None, loop=None, newhead=None, check=True):
        self.text, self.pre, self.live, self.reg, self.ghost, self.ret, self.mkloop, self.newhead = text, pre, live, reg, ghost, ret, loop, newhead
        self.check = check

    def prove(self, P):
        f = P.f
        if not f.blocks:
            P.mod.materialize(f)
        args = [P.fresh("arg%d" % i) for i in range(len(f.params))]
        P.h0, P.g0 = P.symbols("0"), P.ghosts("0")
        P.live0 = P.fun("live0", I, B)
        P.args = args
        head_of = (lambda R: R != args[0]) if self.newhead else None
        P.base_hyps += [g for nm, g in P.invariant(P.h0, P.g0, P.live0, patterns=True, head_of=head_of)]
        P.base_hyps += self.pre(P, *args)
        if P.check([], z3.BoolVal(False), 2000):
            raise Unsupported("contradictory assumptions")
        self.loop = self.mkloop(P, *args) if self.mkloop else None
        st = State()
        st.heap = dict(P.h0)
        outs = P.call(f, args, st, 0)
        n = z3.Int("n")
        if not outs:
            raise Unsupported("no path through the function")
        for st, rv in outs:
            h = st.heap
            live = lambda x: self.live(P, x, *args)
            g = self.ghost(P, *args)
            for nm, goal in P.invariant(h, g, live):
                P.oblige(st.pc, goal, "class invariant: " + nm)
            P.oblige(st.pc, z3.ForAll([n], z3.Implies(live(n), h["reg"](n) == self.reg(P, n, *args))), "ensures: " + self.text)
            P.oblige(st.pc, z3.BoolVal(True) if h["it"] is P.h0["it"] else z3.ForAll([n], h["it"](n) == P.h0["it"](n)),
                     "ensures: no iterator moves")
            if self.ret:
                P.oblige(st.pc, self.ret(P, P.scalar(rv), *args), "ensures: the result is right")


def same(P, *a):
    return P.g0


def prepended(P, r, x):
    g = P.g0
    reg0 = P.h0["reg"]
    on = r != 0
    return Ghost(lambda R, i: z3.If(z3.And(on, R == r), z3.If(i == 0, x, g.L(R, i - 1)), g.L(R, i)),
                 lambda R: z3.If(z3.And(on, R == r), g.k(R) + 1, g.k(R)),
                 lambda n: z3.If(n == x, 0, z3.If(z3.And(on, P.live0(n), reg0(n) == r), g.idx(n) + 1, g.idx(n))))


def removed(P, x, g=None, reg=None):
    g, reg = g or P.g0, reg or P.h0["reg"]
    r, j = reg(x), g.idx(x)
    on = r != 0
    return Ghost(lambda R, i: z3.If(z3.And(on, R == r, i >= j), g.L(R, i + 1), g.L(R, i)),
                 lambda R: z3.If(z3.And(on, R == r), g.k(R) - 1, g.k(R)),
                 lambda n: z3.If(z3.And(on, reg(n) == r, g.idx(n) > j), g.idx(n) - 1, g.idx(n)))


def reassigned(P, x, r):
    """x leaves its chain and becomes the first of r's; nothing if it is there already"""
    g, reg0 = P.g0, P.h0["reg"]
    g1 = removed(P, x)
    on = r != 0
    g2 = Ghost(lambda R, i: z3.If(z3.And(on, R == r), z3.If(i == 0, x, g1.L(R, i - 1)), g1.L(R, i)),
               lambda R: z3.If(z3.And(on, R == r), g1.k(R) + 1, g1.k(R)),
               lambda n: z3.If(n == x, 0, z3.If(z3.And(on, reg0(n) == r), g1.idx(n) + 1, g1.idx(n))))
    st = reg0(x) == r
    return Ghost(lambda R, i: z3.If(st, g.L(R, i), g2.L(R, i)), lambda R: z3.If(st, g.k(R), g2.k(R)), lambda n: z3.If(st, g.idx(n), g2.idx(n)))


def purged(P, *a):
    return P.con.loop_end(P)


def reg0(P, n):
    return P.h0["reg"](n)


def fresh_this(P, this, *a):
    return [this != 0, z3.Not(P.live0(this))]


def alive_this(P, this, *a):
    return [P.live0(this)]


def match_eq(it):
    return lambda P, n: P.h0["it"](n) == P.h0["it"](it)


def match_ne(it):
    return lambda P, n: P.h0["it"](n) != P.h0["it"](it)


class Invalidate(Contract):
    """the chain afterwards is the one the loop leaves: the contract's ghost state comes from the loop"""

    def __init__(self, text, match):
        self.match_of = match
        Contract.__init__(self, text, lambda P, this, *a: [this != 0], lambda P, x, *a: P.live0(x),
                          lambda P, n, this, *a: z3.If(z3.And(reg0(P, n) == this, match(*a)(P, n)), 0, reg0(P, n)), None)

    def prove(self, P):
        me = self
        loops = []

        def mk(P, this, *a):
            p = Purge(this, me.match_of(*a))
            hv = p.havoc

            def havoc(P, heap):
                h, w = hv(P, heap)
                loops.append(w)
                return h, w
            p.havoc = havoc
            return [p]
        self.mkloop = mk
        self.ghost = lambda P, *a: loops[-1][0] if loops else P.g0
        Contract.prove(self, P)


def cleared(P, R):
    g = P.g0
    return Ghost(g.L, lambda r: z3.If(r == R, 0, g.k(r)), g.idx)


BASE, REG = "debug_iterator_base::", "debug_iterator_registry::"


def contracts():
    live0 = lambda P, x, *a: P.live0(x)
    plus = lambda P, x, this, *a: z3.Or(x == this, P.live0(x))
    minus = lambda P, x, this, *a: z3.And(x != this, P.live0(x))
    keep = lambda P, n, *a: reg0(P, n)
    walk = lambda k: lambda P, *a: [Walk(a[k]), Walk(a[k], True)]
    return {
        REG + "debug_iterator_registry()": Contract(
            "a new registry has no iterators, no other registry changes", lambda P, this: [this != 0, z3.ForAll([z3.Int("n")], z3.Implies(P.live0(z3.Int("n")), P.h0["reg"](z3.Int("n")) != this), patterns=[P.h0["reg"](z3.Int("n"))])],
            live0, keep, same, newhead=True),
        BASE + "debug_iterator_base()": Contract(
            "a new iterator is invalid, no other iterator changes", fresh_this, plus, lambda P, n, this: z3.If(n == this, 0, reg0(P, n)), lambda P, this: P.g0),
        BASE + "debug_iterator_base(debug_iterator_registry const*)": Contract(
            "a new iterator is registered with the container it was made by, no other iterator changes", fresh_this, plus,
            lambda P, n, this, r: z3.If(n == this, r, reg0(P, n)), lambda P, this, r: prepended(P, r, this)),
        BASE + "debug_iterator_base(debug_iterator_base const&)": Contract(
            "a copy is registered where its source is, no other iterator changes", lambda P, this, o: fresh_this(P, this) + [P.live0(o)], plus,
            lambda P, n, this, o: z3.If(n == this, reg0(P, o), reg0(P, n)), lambda P, this, o: prepended(P, reg0(P, o), this)),
        BASE + "~debug_iterator_base()": Contract(
            "an iterator that goes away leaves its registry, no other iterator changes", alive_this, minus, keep, lambda P, this: removed(P, this), loop=walk(0)),
        BASE + "operator=(debug_iterator_base const&)": Contract(
            "the iterator assigned to is registered where its source is, no other iterator changes", lambda P, this, o: [P.live0(this), P.live0(o)], live0,
            lambda P, n, this, o: z3.If(n == this, reg0(P, o), reg0(P, n)), lambda P, this, o: reassigned(P, this, reg0(P, o)),
            ret=lambda P, rv, this, o: rv == this, loop=walk(0)),
        BASE + "is_valid(debug_iterator_registry const*) const": Contract(
            "nothing changes", lambda P, this, r: [P.live0(this), r != 0], live0, keep, same, ret=lambda P, rv, this, r: rv == (reg0(P, this) == r)),
        REG + "register_iterator(debug_iterator_base const*) const": Contract(
            "the iterator is registered, no other iterator changes", lambda P, this, x: [this != 0, x != 0, z3.Not(P.live0(x)), reg0(P, x) == this],
            lambda P, x, this, y: z3.Or(x == y, P.live0(x)), keep, lambda P, this, x: prepended(P, this, x)),
        REG + "unregister_iterator(debug_iterator_base const*) const": Contract(
            "the iterator is no longer in the chain, no other iterator changes", lambda P, this, x: [this != 0, P.live0(x), reg0(P, x) == this],
            lambda P, x, this, y: z3.And(x != y, P.live0(x)), keep, lambda P, this, x: removed(P, x), loop=walk(1)),
        REG + "invalidate_all_iterators()": Contract(
            "exactly the iterators of this container become invalid", lambda P, this: [this != 0], live0,
            lambda P, n, this: z3.If(reg0(P, n) == this, 0, reg0(P, n)), cleared, loop=lambda P, this: [Mark(this), Consume(this)]),
        "void " + REG + "invalidate_iterators<It>(It const&)": Invalidate(
            "exactly the iterators of this container at the position of the argument become invalid", match_eq),
        "void " + REG + "invalidate_iterators_except<It>(It const&)": Invalidate(
            "exactly the iterators of this container not at the position of the argument become invalid", match_ne),
    }


def iterator_member(mod):
    """offset of m_it, the same in iterators to const and to non-const elements"""
    offs = set()
    for n, t in mod.types.items():
        if re.search(r"cb_details::iterator(\.\d+)?\"?$", n):
            s = mod.resolve(t) if hasattr(mod, "resolve") else t
            if len(getattr(s, "f", ())) == 3:
                offs.add(mod.offset(s, 2)[0])
    if len(offs) != 1:
        raise Unsupported("layout of iterators")
    return offs.pop()


def verify_all(mod, budget=60):
    """results of all contracts; functions that are not there any more"""
    fs = {}
    for f in mod.funcs.values():
        d = V.norm(f.dem or "")
        if "debug_iterator" in d:
            fs[d] = f
    out, missing = [], []
    for key, con in contracts().items():
        if key in fs:
            out.append(Prover(mod, fs[key], con, budget).verify())
        else:
            missing.append(key)
    return out, missing
