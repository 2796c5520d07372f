"""Loops: inference of invariants and their inductive verification.

At a loop head the state is described by a ghost iteration counter t >= 0:
  - every cell the body changes gets a closed form f(t) (constant, +-k*t, cyclic step within a buffer, iterator step) or
    is left arbitrary, with inequalities to other values kept as far as they are inductive;
  - t is bounded by every term of a pool (sizes, distances) that is an inductive bound: this also shows termination;
  - the ghost maps val and alive get closed forms: the updates of iterations 0..t-1 over the initial map.
All of these are guesses until the inductive step has been proved: one symbolic execution of the body from the state
described at t must lead to the state described at t+1.  The obligations of the body are then generated once, from the
described state at arbitrary t.
"""
import z3

from . import debugging
from .engine import (AND, EQ, FALSE, MBase, MBulk, MIte, MPt, NOT, OR, TRUE, UNDEF, Unsupported, VAgg, VBool, VElem, VInt,
                     VObj, VUndef, ite, iv, lin, mem_updates, num, simp, veq, short)


class Form:
    def __init__(self, name, f):
        self.name, self.f = name, f


def changed(a, b):
    out = set()
    for o in a.objs:
        x, y = a.objs[o], b.objs.get(o)
        if y is None:
            raise Unsupported("object ends its lifetime in a loop")
        if x is y:
            continue
        for k in set(x) | set(y):
            if k not in x or k not in y:
                out.add((o, k))
            elif x[k][0] != y[k][0] or not veq(x[k][1], y[k][1]):
                out.add((o, k))
    return out


def cell(st, c):
    m = st.objs[c[0]].get(c[1])
    return m


def havoc_value(E, st, v):
    if isinstance(v, VInt):
        if v.b is not None:
            b = E.fresh("hb", z3.BoolSort())
            return VInt(v.w, z3.If(b, iv(1), iv(0)), b=b)
        x = E.fresh("h")
        st.assume(z3.And(x >= 0, x < (1 << v.w)))
        return VInt(v.w, x)
    if isinstance(v, VElem):
        return VElem(E.fresh("hp"))
    if isinstance(v, VBool):
        return VBool(E.fresh("hb", z3.BoolSort()))
    return UNDEF


def go(E, st, frame, header, prev, body, quiet):
    E.quiet += quiet
    try:
        outs = E.run(st, frame, header, prev, body, header)
    finally:
        E.quiet -= quiet
    back = [(o[1], None) for o in outs if o[0] == "edge" and o[2][1] == header]
    exits = [o for o in outs if not (o[0] == "edge" and o[2][1] == header)]
    return back, exits


def one(E, back):
    m = E.merge(back)
    if len(m) != 1:
        raise Unsupported("loop body has back edges that cannot be joined")
    return m[0][0]


def houdini(E, pc, cands):
    """largest subset of the candidate formulas (as (key, formula)) implied by pc.  Not inductive by itself."""
    cands = [c for c in cands if not z3.is_true(simp(c[1]))] + []
    alive = list(cands)
    n = 0
    while alive:
        n += 1
        r = E.solver.check(pc, z3.Not(AND(*[f for _, f in alive])))
        if r == "unsat":
            break
        if r == "sat":
            m = E.solver.last
            keep = [c for c in alive if not z3.is_false(m.eval(c[1], model_completion=True))]
            if len(keep) == len(alive):
                keep = [c for c in alive if E.solver.check(pc, z3.Not(c[1])) == "unsat"]
                alive = keep
                break
            alive = keep
        else:
            alive = [c for c in alive if E.solver.check(pc, z3.Not(c[1])) == "unsat"]
            break
    return alive


def vequal(E, st, a, b):
    """formula: values equal, or None"""
    if veq(a, b):
        return TRUE
    if isinstance(a, VElem) and isinstance(b, VElem):
        return EQ(a.a, b.a)
    if isinstance(a, VInt) and isinstance(b, VInt) and a.w == b.w:
        if a.b is not None and b.b is not None:
            return a.b == b.b
        d = simp(a.raw - b.raw)
        if num(d) is not None:
            return z3.BoolVal(num(d) % (1 << a.w) == 0)
        return EQ(a.raw, b.raw)
    if isinstance(a, VBool) and isinstance(b, VBool):
        return a.c == b.c
    if isinstance(a, VUndef):
        return TRUE
    return None


def winc(b, c, t):
    lo, hi = b
    return z3.If(c + t < hi, c + t, c + t - (hi - lo))


def wdec(b, c, t):
    lo, hi = b
    return z3.If(c - t >= lo, c - t, c - t + (hi - lo))


def dist(b, x, y):
    """number of cyclic steps forward from x to y"""
    lo, hi = b
    return z3.If(y >= x, y - x, y - x + (hi - lo))


def cell_forms(E, S0, c, v0, v1, bufs):
    """candidate closed forms for a cell"""
    fs = []
    if isinstance(v0, VInt):
        w = v0.w
        if v0.b is not None:
            fs.append(Form("const", lambda t: v0))
            for k in (False, True):
                def g(t, k=k):
                    b = z3.If(t == 0, v0.b, z3.BoolVal(k))
                    return VInt(w, z3.If(b, iv(1), iv(0)), b=b)
                fs.append(Form("first-then-%s" % k, g))
            return fs
        r0 = v0.raw
        for lo, hi in ((0, 1 << w), (-(1 << (w - 1)), 1 << (w - 1))):
            if E.in_range(S0, r0, lo, hi):
                break
        else:
            r0 = E.u(S0, v0)
        fs.append(Form("const", lambda t: v0))
        ks = [1, -1]
        if isinstance(v1, VInt):
            d = num(simp(v1.raw - v0.raw))
            if d is not None and d not in ks:
                ks.insert(0, d)
        for k in ks:
            fs.append(Form("%+d*t" % k, lambda t, k=k: VInt(w, r0 + k * t)))
        if isinstance(v1, VInt):
            fs.append(Form("first", lambda t: VInt(w, z3.If(t == 0, r0, v1.raw))))
        return fs
    if isinstance(v0, VElem):
        def base(a0):
            out = [("const", lambda t: a0), ("+t", lambda t: a0 + t), ("-t", lambda t: a0 - t)]
            for nm, b in bufs:
                lo, hi, first, last, size = b
                out.append(("winc(%s)" % nm, lambda t, lo=lo, hi=hi: winc((lo, hi), a0, t)))
                out.append(("wdec(%s)" % nm, lambda t, lo=lo, hi=hi: wdec((lo, hi), a0, t)))
                out.append(("iterinc(%s)" % nm, lambda t, lo=lo, hi=hi, last=last:
                            z3.If(z3.And(t > 0, winc((lo, hi), a0, t) == last), iv(0), winc((lo, hi), a0, t))))
                out.append(("iterdec(%s)" % nm, lambda t, lo=lo, hi=hi, last=last:
                            z3.If(t == 0, a0, wdec((lo, hi), z3.If(a0 == 0, last, a0), t))))
            return out
        for n, g in base(v0.a):
            fs.append(Form(n, lambda t, g=g: VElem(g(t))))
        if isinstance(v1, VElem):
            for n, g in base(v1.a):
                fs.append(Form("lag-" + n, lambda t, g=g: VElem(z3.If(t == 0, v0.a, g(t - 1)))))
        return fs
    if isinstance(v0, VBool):
        return [Form("const", lambda t: v0)] + [Form("first-then-%s" % k, lambda t, k=k: VBool(z3.If(t == 0, v0.c, z3.BoolVal(k)))) for k in (False, True)]
    return []


def bound_pool(E, S0, M, bufs):
    """terms that may bound the number of iterations"""
    ints, ptrs = [], []
    mints, mptrs = [], []
    for o, m in S0.objs.items():
        for off, (sz, v) in m.items():
            isM = (o, off) in M
            if isinstance(v, VInt) and v.w == 64 and v.el is None:
                n = num(v.raw)
                (mints if isM else ints).append(v.raw)
            elif isinstance(v, VElem):
                (mptrs if isM else ptrs).append(v.a)

    def uniq(xs):
        seen, out = set(), []
        for x in xs:
            if x.get_id() not in seen:
                seen.add(x.get_id())
                out.append(x)
        return out
    ints, ptrs, mints, mptrs = map(uniq, (ints, ptrs, mints, mptrs))
    ints, ptrs = ints[-24:], ptrs[-24:]
    pool = []
    for nm, (lo, hi, first, last, size) in bufs:
        pool += [size, hi - lo, hi - lo - size]
    pool += ints
    for c in mints:
        pool.append(c)
        pool.append(-c)
        for d in ints + [x for x in mints if not x.eq(c)]:
            pool.append(d - c)
            if num(c) is None:
                pool.append(c - d)
        for nm, (lo, hi, first, last, size) in bufs:
            pool += [size - c, hi - lo - c]
    for p in mptrs:
        for q in ptrs + [x for x in mptrs if not x.eq(p)]:
            pool += [q - p, p - q]
    for p in mptrs:
        for q in ptrs + [x for x in mptrs if not x.eq(p)]:
            for nm, (lo, hi, first, last, size) in bufs:
                b = (lo, hi)
                pe = p
                qe = z3.If(q == 0, last, q)
                pool.append(z3.If(AND(p != 0), dist(b, pe, q), iv(0)))
                pool.append(z3.If(AND(q != 0), dist(b, q, pe), iv(0)))
                # at least one step, up to a full turn
                pool.append(z3.If(AND(p != 0, q != 0), z3.If(q > p, q - p, q - p + (hi - lo)), iv(0)))
                pool.append(z3.If(AND(p != 0, q != 0), z3.If(p > q, p - q, p - q + (hi - lo)), iv(0)))
                # iterator positions, 0 meaning the end
                idx = lambda x: z3.If(x == 0, size, dist(b, first, x))
                pool.append(idx(q) - idx(p))
                pool.append(idx(p) - idx(q))
    out, seen = [], set()
    for x in pool:
        x = simp(x)
        if num(x) is not None and num(x) <= 0:
            continue
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
    return out[:200]


def has_const(term, names):
    """does the term mention one of the given constants / functions (by name)?"""
    todo, seen = [term], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and names(x.decl().name()):
                return True
            todo += x.children()
    return False


def fresh_since(mark):
    """predicate on names: created after the counter stood at mark"""
    def f(n):
        k = n.rfind("!")
        if k < 0:
            return False
        try:
            return int(n[k + 1:]) >= mark
        except ValueError:
            return False
    return f


def fit_addr(E, B, t, a, bufs, S0, opaques=()):
    """describe the address a(t): list of (name, inverse x->j, inrange x->Bool)"""
    for L in opaques:
        if L.eq(a):
            # the position itself has no closed form; slots are found by their distance to it
            for nm, (lo, hi, first, last, size) in bufs:
                if E.proves(B, z3.And(lo <= a, a < hi)):
                    return "slide", (lambda x, tt: tt - z3.If(x < L, L - x, L - x + (hi - lo))), (lambda x: AND(lo <= x, x < hi))
    A0 = simp(z3.substitute(a, (t, iv(0))))
    cands = [("+", A0 + t, lambda x: x - A0, lambda x: TRUE),
             ("-", A0 - t, lambda x: A0 - x, lambda x: TRUE)]
    for nm, (lo, hi, first, last, size) in bufs:
        b = (lo, hi)
        cands.append(("winc", winc(b, A0, t), lambda x, b=b: dist(b, A0, x), lambda x, b=b: AND(b[0] <= x, x < b[1])))
        cands.append(("wdec", wdec(b, A0, t), lambda x, b=b: dist(b, x, A0), lambda x, b=b: AND(b[0] <= x, x < b[1])))
    for n, f, inv, rng in cands:
        if E.proves(B, EQ(a, f)):
            return n, inv, rng
    return None


def handle(E, st, frame, header, prev, body):
    if len(E.stack) and E.verbose > 1:
        print("    loop %s line %s quiet=%d" % (short(E.stack[-1][0])[:80], E.stack[-1][1], E.quiet))
    S0 = st
    regs0 = dict(frame["regs"])
    mk = lambda: dict(frame, regs=dict(regs0))
    if any(i.op == "phi" for i in frame["f"].blocks[header].ins):
        raise Unsupported("phi at a loop head")
    if getattr(getattr(E.rootcall, "model", None), "loops", None):
        try:
            r = annotated(E, st.copy(), dict(frame, regs=dict(regs0)), header, prev, body)
        except Unsupported:
            r = None
        if r is not None:
            return r
    if not E.quiet and getattr(getattr(E.rootcall, "model", None), "prefix", None) is not None:
        try:
            r = prefix(E, st.copy(), dict(frame, regs=dict(regs0)), header, prev, body)
        except Unsupported:
            r = None
        if r is not None:
            return r
    # ---- first iteration
    back, exits = go(E, S0.copy(), mk(), header, prev, body, 1)
    if not back:
        back, exits = go(E, S0, mk(), header, prev, body, 0)
        return exits
    S1 = one(E, back)
    if S1.regions != S0.regions:
        raise Unsupported("storage allocated or released inside a loop")
    for r in S0.regions:
        if not S1.live[r].eq(S0.live[r]):
            raise Unsupported("storage released inside a loop")
    bufs = E.variant.buffers(E, S0)
    tmpmark = E.tmpcnt
    # ---- which cells change (least fixpoint over arbitrary iterations)
    M = changed(S0, S1)
    mval, mal = S1.val is not S0.val, S1.alive is not S0.alive
    while True:
        H = S0.copy()
        for c in M:
            x = cell(S0, c)
            sz, v = x if x else (cell(S1, c) or (8, UNDEF))
            hv = havoc_value(E, H, v)
            m = dict(H.objs[c[0]])
            if isinstance(hv, VUndef) and x is None:
                m.pop(c[1], None)
            else:
                m[c[1]] = (sz, hv)
            H.objs[c[0]] = m
        if mval:
            H.val = MBase(opaque(E, "vh", E.VS))
        if mal:
            H.alive = MBase(opaque(E, "ah", z3.BoolSort()))
        hval, hal = H.val, H.alive
        objs_in = {k: v for k, v in H.objs.items()}
        back, exits = go(E, H.copy(), mk(), header, prev, body, 1)
        M2 = set(M)
        for b, _ in back:
            M2 |= changed(H, b)
            if b.regions != S0.regions:
                raise Unsupported("storage allocated or released inside a loop")
        nv = mval or any(b.val is not hval for b, _ in back)
        na = mal or any(b.alive is not hal for b, _ in back)
        if M2 == M and nv == mval and na == mal:
            break
        M, mval, mal = M2, nv, na
    M = sorted(M)
    # ---- closed forms of the cells: filter by the first iteration
    t = E.fresh("t")
    forms = {}
    for c in M:
        x0, x1 = cell(S0, c), cell(S1, c)
        if x0 is None or x1 is None or x0[0] != x1[0]:
            forms[c] = []
            continue
        fs = []
        for f in cell_forms(E, S0, c, x0[1], x1[1], bufs):
            q = vequal(E, S1, x1[1], f.f(iv(1)))
            if q is not None and E.proves(S1, simp(q)):
                fs.append(f)
        forms[c] = fs
    pool = bound_pool(E, S0, set(M), bufs)
    pool = [(k, N) for k, N in enumerate(pool)]
    good = houdini(E, S0.pc, [(k, N >= 0) for k, N in pool])
    gk = {k for k, _ in good}
    bounds = [N for k, N in pool if k in gk]
    good1 = houdini(E, S0.pc, [(k, N >= 1) for k, N in pool if k in gk])
    g1 = {k for k, _ in good1}
    bounds += [N - 1 for k, N in pool if k in g1]
    if E.verbose > 2 and not E.quiet:
        debug_loop(E, S0, S1, M, forms, bounds)
    opq = {}

    def describe(bounds, ineqs, valf=None, alf=None):
        H = S0.copy()
        H.assume(t >= 0)
        for N in bounds:
            H.assume(t <= N)
        for c in M:
            x = cell(S0, c)
            m = dict(H.objs[c[0]])
            if forms[c]:
                m[c[1]] = (x[0], forms[c][0].f(t))
            else:
                if x is None:
                    m.pop(c[1], None)
                else:
                    if c not in opq:
                        tmp = S0.copy()
                        tmp.pc = []
                        hv = havoc_value(E, tmp, x[1])
                        opq[c] = (hv, tmp.pc)
                    hv, pc = opq[c]
                    for p in pc:
                        H.assume(p)
                    m[c[1]] = (x[0], hv)
            H.objs[c[0]] = m
        for _, f in ineqs:
            H.assume(f)
        if mval:
            H.val = valf
        if mal:
            H.alive = alf
        H.rng = dict(S0.rng)
        return H

    # inequalities for arbitrary cells
    iterms, seen = [iv(0), iv(1)], set()
    for o, m in S0.objs.items():
        for off, (sz, v) in m.items():
            if isinstance(v, VInt) and v.w == 64 and v.b is None and v.raw.get_id() not in seen:
                seen.add(v.raw.get_id())
                iterms.append(v.raw)
    for nm, (lo, hi, first, last, size) in bufs:
        iterms += [hi - lo, size]

    def ineq_cands(get, tt):
        out = []
        for c in M:
            if forms[c] or cell(S0, c) is None:
                continue
            v = get(c)
            v0 = cell(S0, c)[1]
            if isinstance(v, VInt) and v.w == 64 and v.b is None and isinstance(v0, VInt):
                for k, x in enumerate(iterms):
                    out.append(((c, k, "ge"), v.raw >= x))
                    out.append(((c, k, "le"), v.raw <= x))
                    out.append(((c, k, "gt"), v.raw > x))
                    out.append(((c, k, "gt0"), z3.Or(v.raw == v0.raw, v.raw > x)))
            elif isinstance(v, VElem) and isinstance(v0, VElem):
                for k, (nm, (lo, hi, first, last, size)) in enumerate(bufs):
                    out.append(((c, k, "inbuf"), z3.And(lo <= v.a, v.a < hi)))
                    out.append(((c, k, "turn+"), z3.Implies(tt <= hi - lo, v.a == winc((lo, hi), v0.a, tt))))
                    out.append(((c, k, "turn-"), z3.Implies(tt <= hi - lo, v.a == wdec((lo, hi), v0.a, tt))))
                for c2 in M:
                    if c2 != c and not forms[c2] and cell(S0, c2) is not None:
                        w = get(c2)
                        if isinstance(w, VElem) and isinstance(cell(S0, c2)[1], VElem):
                            out.append(((c, c2, "same"), v.a == w.a))
                            out.append(((c, c2, "same1"), z3.Implies(tt > 0, v.a == w.a)))
        return out

    VT = E.freshfn("VT", E.VS)
    AT = E.freshfn("AT", z3.BoolSort())
    vbase = MBase(lambda x: VT(x))
    abase = MBase(lambda x: AT(x))
    mark_counter = next(E.cnt)
    ineqs = None
    rounds = 0

    def settle(vb, ab):
        """inductive closure of forms, bounds and inequalities; returns merged back-edge state"""
        nonlocal bounds, ineqs, rounds
        while True:
            rounds += 1
            if rounds > 60:
                raise Unsupported("loop invariant inference does not converge")
            E.tick()
            if ineqs is None:
                describe([], [])
                cs = ineq_cands(lambda c: cell(S0, c)[1], iv(0))
                ok = {k for k, _ in houdini(E, S0.pc, cs)} | {k for k, f in cs if z3.is_true(simp(f))}
                ineqs = [(k, f) for k, f in ineq_cands(lambda c: opq[c][0], t) if k in ok]
            H = describe(bounds, ineqs, vb, ab)
            back, exits = go(E, H.copy(), mk(), header, prev, body, 1)
            if not back:
                return H, None
            B = one(E, back)
            bad = False
            for c in M:
                if not forms[c]:
                    continue
                y = cell(B, c)
                q = vequal(E, B, y[1], forms[c][0].f(t + 1)) if y is not None else None
                if q is None or not E.proves(B, simp(q)):
                    forms[c].pop(0)
                    bad = True
            if bad:
                ineqs = None
                bounds = [N for N in bounds]
                opq.clear()
                continue
            good = houdini(E, B.pc, [(k, t + 1 <= N) for k, N in enumerate(bounds)])
            gk = {k for k, _ in good}
            drop = [k for k in range(len(bounds)) if k not in gk]
            # inequalities at the next iteration
            have = {k for k, _ in ineqs}

            def getb(c):
                y = cell(B, c)
                y = y[1] if y is not None else UNDEF
                return VInt(y.w, E.u(B, y), b=y.b) if isinstance(y, VInt) else y
            nxt = [(k, f) for k, f in ineq_cands(getb, t + 1) if k in have]
            gi = {k for k, _ in houdini(E, B.pc, nxt)} | {k for k, f in nxt if z3.is_true(simp(f))}
            dropi = [k for k, _ in ineqs if k not in gi]
            if drop:
                bounds = [N for k, N in enumerate(bounds) if k in gk]
            if dropi:
                ineqs = [(k, f) for k, f in ineqs if k in gi]
            if not drop and not dropi:
                return H, B

    H, B = settle(vbase, abase)
    if B is None:
        raise Unsupported("loop body not repeatable")
    # ---- closed forms of the ghost maps
    isfresh = fresh_since(mark_counter)
    valf, alf = S0.val, S0.alive
    choices = [(None, None)]
    if mval or mal:
        choices = map_forms(E, S0, H, B, t, bufs, mval, mal, vbase, abase, VT, AT, isfresh,
                            [v[0].a for v in opq.values() if isinstance(v[0], VElem)])
    outer = [iv(-(100 + 10 * k)) for k in range(1, tmpmark + 1)]
    done = None
    x = E.fresh("x")
    for vf, af in choices:
        def at(tt):
            return (vf(tt) if mval else None, af(tt) if mal else None)
        v_t, a_t = at(t)
        save = (bounds, ineqs, {c: list(f) for c, f in forms.items()}, dict(opq))
        H, B = settle(v_t if mval else S0.val, a_t if mal else S0.alive)
        if B is None:
            break
        v_n, a_n = at(t + 1)
        nexts = [(v[0].a, cell(B, c)[1].a) for c, v in opq.items() if isinstance(v[0], VElem) and isinstance(cell(B, c)[1], VElem)]

        def nx(e):
            return z3.substitute(e, *nexts) if nexts else e
        goals = []
        dom = OR(x >= 1, *[x == q for q in tmp_used(S0, outer)])
        if mal:
            goals.append(z3.Implies(dom, B.alive.read(x) == nx(a_n.read(x))))
            if E.variant.debug:
                goals.append(z3.Implies(x <= debugging.LOW, B.alive.read(x) == nx(a_n.read(x))))
        if mval:
            goals.append(z3.Implies(z3.And(dom, B.alive.read(x)) if E.variant.track_alive else dom, B.val.read(x) == nx(v_n.read(x))))
        if all(E.proves(B, g, timeout=8000) for g in goals):
            # base case: at t = 0 the forms are the initial maps, by construction of the updates 0..t-1
            done = (v_t, a_t)
            break
        bounds, ineqs = save[0], save[1]
        for c in forms:
            forms[c] = save[2][c]
        opq.clear()
        opq.update(save[3])
    lost = False
    if done is None:
        lost = True
        done = (MBase(opaque(E, "lost", E.VS)) if mval else None, MBase(opaque(E, "lostal", z3.BoolSort())) if mal else None)
        H, B = settle(done[0] if mval else S0.val, done[1] if mal else S0.alive)
    # ---- facts about earlier iterations (for loops that compare elements)
    facts = []
    if not mval and not mal and B is not None:
        suffix = AND(*B.pc[len(H.pc):])
        if not has_const(suffix, isfresh_except(isfresh, t)) and has_const(suffix, E.variant.elem_preds):
            facts.append(lambda j, s=suffix: z3.Implies(z3.And(0 <= j, j < t), z3.substitute(s, (t, j))))
            if not E.quiet:
                E.loopvars.append(t)
    info = {"fn": short(E.stack[-1][0]), "line": E.stack[-1][1], "bounds": len(bounds), "lost": lost, "exact": not lost and all(forms[c] or cell(S0, c) is None for c in M),
            "cells": {"%s+%d" % c: (forms[c][0].name if forms[c] else "arbitrary") for c in M}}
    E.loops_log.append(info)
    if E.verbose:
        print("    loop in %s: %s bounds=%d %s" % (info["fn"][:70], info["cells"], len(bounds), "LOST" if lost else ""))
    # ---- termination
    if not E.quiet:
        term = bool(bounds) or B is None
        if not term:
            for c in M:
                if forms[c] or cell(S0, c) is None or not isinstance(opq.get(c, (None,))[0], VInt):
                    continue
                a, b = opq[c][0], cell(B, c)[1]
                if isinstance(b, VInt) and (E.proves(B, E.u(B, b) < E.u(B, a)) or E.proves(B, E.u(B, b) > E.u(B, a))):
                    term = True
                    break
        E.oblige(S0.copy(), z3.BoolVal(term), "loop terminates (bounded by a quantity fixed at entry)", ("term",))
    H = describe(bounds, ineqs, done[0] if mval else None, done[1] if mal else None)
    H.facts = S0.facts + tuple(facts)
    H.ghost = dict(S0.ghost)
    back, exits = go(E, H, mk(), header, prev, body, 0)
    return exits


def isfresh_except(isfresh, t):
    n = t.decl().name()
    return lambda m: m != n and isfresh(m)


def tmp_used(S0, outer):
    return outer[-12:]


def opaque(E, name, rng):
    f = E.freshfn(name, rng)
    return lambda x: f(x)


def map_forms(E, S0, H, B, t, bufs, mval, mal, vbase, abase, VT, AT, isfresh, opaques):
    """candidate closed forms (val_t, alive_t): generator of pairs of functions of t"""
    x0 = z3.Int("probe!x")

    def streams(m, base, fn, init, want_cond):
        ups = mem_updates(m, base)
        if ups is None:
            return None
        out = []
        for cond, a, v in ups:
            n = num(a)
            if n is not None and n < 0:
                continue            # a temporary of the body
            ghost = a.get_id() in debugging.KEYS
            fit = fit_addr(E, B, t, debugging.key(a) if ghost else a, bufs, S0, opaques)
            if fit is None:
                return None
            nm, inv, rng = fit
            if ghost:           # the key of the address p is -p-K, and back
                if nm == "slide":
                    inv = (lambda x, tt, inv=inv: inv(debugging.key(x), tt))
                else:
                    inv = (lambda x, inv=inv: inv(debugging.key(x)))
                rng = (lambda x, rng=rng: AND(x <= debugging.LOW, rng(debugging.key(x))))
            vv = z3.substitute_funs(v, (fn, init)) if fn is not None else v
            if has_const(vv, isfresh_except(isfresh, t)):
                return None
            if any(nm == o[0] and z3.is_true(simp(o[4] == a)) and o[5].eq(vv) for o in out):
                continue
            out.append((nm, inv, rng, vv, a, vv, cond))
        return out

    sv = sa = []
    if mval:
        xb = z3.Var(0, z3.IntSort())
        init = S0.val.read(z3.Int("probe!v"))
        body = z3.substitute(init, (z3.Int("probe!v"), xb))
        sv = streams(B.val, vbase, VT, body, False)
    if mal:
        sa = streams(B.alive, abase, None, None, True)
    if sv is None or sa is None:
        return
    # conditions mention the opaque maps; only those over t and initial values can be kept
    import itertools

    def build(st_list, init, withcond):
        def at(tt):
            m = init
            for nm, inv, rng, vv, a, _, cond in st_list:
                if nm == "slide":
                    inv = (lambda x, inv=inv: inv(x, tt))

                def infn(x, inv=inv, rng=rng, cond=cond):
                    j = inv(x)
                    c = AND(rng(x), 0 <= j, j < tt)
                    if withcond and not z3.is_true(cond):
                        c = AND(c, z3.substitute(cond, (t, j)))
                    return c

                def valfn(x, inv=inv, vv=vv):
                    return z3.substitute(vv, (t, simp(inv(x))))
                m = MBulk(m, infn, valfn)
            return m
        return at

    def perms(l):
        l = l[:4]
        return list(itertools.permutations(l)) if l else [()]
    okcond = all(not has_const(s[6], isfresh_except(isfresh, t)) for s in sa)
    n = 0
    for wc in ((False, True) if okcond else (False,)):
        for pa in perms(sa):
            for pv in perms(sv):
                n += 1
                if n > 24:
                    return
                yield (build(pv, S0.val, False), build(pa, S0.alive, wc))


def debug_loop(E, S0, S1, M, forms, bounds):
    print("      PC:", [str(simp(x)).replace("\n", " ")[:150] for x in S0.pc[-14:]])
    for c in M:
        print("      CELL", c, cell(S0, c), "->", cell(S1, c), [f.name for f in forms[c]])
    print("      BOUNDS", [str(b).replace("\n", " ")[:100] for b in bounds[:12]], len(bounds))


# ---------------------------------------------------------------- loops that do a piece of the contract in every iteration
def prefix(E, st, frame, header, prev, body):
    """For a loop over a single-pass source the contract itself is the invariant: after t iterations the buffer is what the
    contract says for the first t items, the source stands at item t, and iterators stand where the contract's `prefix`
    annotation says.  Base case and inductive step are proved; returns the outcomes of the loop, or None if this is not one."""
    from .modular import Apply
    from .world import View, Call
    c = getattr(E, "rootcall", None)
    m = getattr(c, "model", None)
    if c is None or getattr(m, "prefix", None) is None or E.rootcon is None:
        return None
    p = next((q for q in c.p if q.kind == "init"), None)
    if p is None or c.thiso is None or list(m.bufs) != [c.thiso]:
        return None
    v, o = c.this, c.thiso
    S0 = st
    if v is None:       # a constructor: what it makes stands at the loop already, without elements
        v = View(E, S0, o)
        if v.undef:
            return None
    if p.src not in S0.objs or (p.src, 0) not in [(p.src, k) for k in S0.objs[p.src]]:
        return None
    regs0 = dict(frame["regs"])
    mk = lambda: dict(frame, regs=dict(regs0))
    n = p.n
    tmpmark = E.tmpcnt

    def model(k):
        p.n = lin(k)
        try:
            return E.rootcon.fn(c)
        finally:
            p.n = n
    A = Apply(E, S0, None, [], E.rootcon)
    W = View(E, S0, o)
    if W.undef:
        return None
    t = E.fresh("t")
    fcell = {(o, off) for off in list(E.variant.cb_layout.values()) + [E.variant.alloc_off]}

    def facts(w, k, mm):
        """what the contract says of the buffer after k items"""
        b = mm.bufs[o]
        out = [EQ(w.buff, v.buff), EQ(w.end, v.end), EQ(w.aid, v.aid) if w.aid is not None else FALSE, EQ(w.size, b.size)]
        out += [g for _, g in w.parts()]
        if b.first is not None:
            out.append(z3.Implies(AND(getattr(b, "firstcond", TRUE), w.size > 0), EQ(w.first, b.first)))
        out.append(z3.Implies(k == 0, EQ(w.first, v.first)))
        return out

    def seqgoal(w, mm):
        i = E.fresh("i")
        return z3.Implies(z3.And(0 <= i, i < w.size), EQ(w.seq(i), mm.bufs[o].seq(i)))

    def alivegoal(s, w):
        x = E.fresh("x")
        return z3.Implies(z3.And(v.cap > 0, v.buff <= x, x < v.end), s.alive.read(x) == w.slot(x))
    say = (lambda *a: print("    prefix:", *a)) if E.verbose > 1 else (lambda *a: None)

    def kept(k):
        """iterators that are still registered after k items, by the index they pointed to"""
        if c.this is None:
            return lambda i: FALSE
        p.n = lin(k)
        try:
            return debugging.keeps(c)[o][0]
        finally:
            p.n = n

    def keygoals(s, k):
        if not E.variant.debug:
            return []
        i, x = E.fresh("i"), E.fresh("x")
        return [z3.Implies(z3.And(0 <= i, i < v.size), debugging.valid_at(s, v, i) == kept(k)(i)),
                z3.Implies(AND(x <= debugging.LOW, NOT(debugging.ofbuf(v, x))), s.alive.read(x) == S0.alive.read(x))]
    # ---- base case
    m0 = model(iv(0))
    src0 = cell(S0, (p.src, 0))
    if src0 is None or not isinstance(src0[1], VElem):
        return None
    base = facts(W, iv(0), m0) + [seqgoal(W, m0), EQ(src0[1].a, p.a)] + ([alivegoal(S0, W)] if E.variant.track_alive else []) + keygoals(S0, iv(0))
    if not all(E.proves(S0, g) for g in base):
        say("base case fails", [str(g)[:200] for g in base if not E.proves(S0, g)])
        return None
    # ---- cells that change
    back, exits = go(E, S0.copy(), mk(), header, prev, body, 1)
    if not back:
        return None
    S1 = one(E, back)
    M = changed(S0, S1) | fcell | {(p.src, 0)}
    idxs = m.prefix["index"]
    bounds = [n] + [simp(b) for b in m.prefix.get("bounds", [])]
    bounds = [b for b in bounds if E.proves(S0, b >= 0)]
    forms = {}
    conds = list(m.prefix.get("facts", []))        # functions of t
    conds = [f for f in conds if E.proves(S0, f(iv(0)))]

    def iterform(k, f):
        """pointer of the iterator that stands at index f(k) after k items"""
        return lambda w: w.it(f(k))

    def candidates(cc):
        x0 = cell(S0, cc)
        if x0 is None:
            return []
        v0 = x0[1]
        if isinstance(v0, VElem):
            fs = [("const", lambda w, k: v0)]
            for q, f in enumerate(idxs):
                fs.append(("index%d" % q, lambda w, k, f=f: VElem(w.it(f(k)))))
            return [(nm, g) for nm, g in fs if E.proves(S0, EQ(g(W, iv(0)).a, v0.a))]
        if isinstance(v0, VInt):
            fs = [("const", lambda w, k: v0), ("+t", lambda w, k: VInt(v0.w, v0.raw + k))] if v0.b is None else [("const", lambda w, k: v0)]
            return fs
        return [("const", lambda w, k: v0)]

    def describe():
        H = S0.copy()
        H.assume(t >= 0)
        for b in bounds:
            H.assume(t <= b)
        for f in conds:
            H.assume(f(t))
        mt = model(t)
        b = mt.bufs[o]
        fc = getattr(b, "firstcond", TRUE)
        ff = (lambda w: z3.Implies(AND(fc, w.size > 0), EQ(w.first, b.first))) if b.first is not None else None
        w = A.settle(H, o, True, v, None, b.size, b.aid, ff, b.seq)
        H.assume(z3.Implies(t == 0, EQ(w.first, v.first)))
        if E.variant.debug:
            kt = kept(t)
            free = E.freshfn("regs", z3.BoolSort())
            H.alive = MBulk(H.alive, lambda x: debugging.ofbuf(v, x),
                            lambda x: ite(v.slot(debugging.key(x)), kt(v.index(debugging.key(x))), free(x)))
        for cc in sorted(M):
            if cc in fcell:
                continue
            if cc == (p.src, 0):
                H.put(p.src, 0, 8, VElem(lin(p.a + t)))
                continue
            x = cell(S0, cc)
            mm = dict(H.objs[cc[0]])
            if x is None:
                mm.pop(cc[1], None)
            elif forms[cc]:
                mm[cc[1]] = (x[0], forms[cc][0][1](w, t))
            else:
                mm[cc[1]] = (x[0], havoc_value(E, H, x[1]))
            H.objs[cc[0]] = mm
        H.rng = dict(S0.rng)
        return H
    for cc in M:
        if cc not in fcell and cc != (p.src, 0):
            forms[cc] = candidates(cc)
    for rounds in range(40):
        E.tick()
        H = describe()
        back, exits = go(E, H.copy(), mk(), header, prev, body, 1)
        if not back:
            return None
        B = one(E, back)
        if B.regions != H.regions or any(not B.live[r].eq(H.live[r]) for r in H.regions):
            say("storage changes")
            return None
        new = changed(H, B) - M
        if new:
            for cc in new:
                M.add(cc)
                forms[cc] = candidates(cc)
            continue
        wb = View(E, B, o)
        if wb.undef:
            return None
        bad = False
        # positions first: what the others are is judged once it is known where the iterators stand
        for mine in (True, False):
            for cc in M:
                if cc in fcell or cc == (p.src, 0) or not forms[cc] or isinstance(cell(S0, cc)[1], VElem) != mine:
                    continue
                y = cell(B, cc)
                q = vequal(E, B, y[1], forms[cc][0][1](wb, t + 1)) if y is not None else None
                if q is None or not E.proves(B, simp(q)):
                    say(cc, "not", forms[cc][0][0])
                    forms[cc].pop(0)
                    bad = True
            if bad:
                break
        nb = [b for b in bounds if E.proves(B, t + 1 <= b)]
        nc = [f for f in conds if E.proves(B, f(t + 1))]
        bad = bad or len(nb) != len(bounds) or len(nc) != len(conds)
        bounds, conds = nb, nc
        if not bad:
            break
    else:
        return None
    m1 = model(t + 1)
    x = E.fresh("x")
    dom = OR(x >= 1, *[x == q for q in [iv(-(100 + 10 * k)) for k in range(1, tmpmark + 1)][-12:]])
    out = AND(dom, OR(v.cap == 0, x < v.buff, x >= v.end))
    goals = facts(wb, t + 1, m1) + [seqgoal(wb, m1), EQ(cell(B, (p.src, 0))[1].a, p.a + t + 1)]
    if E.variant.track_alive:
        goals += [alivegoal(B, wb), z3.Implies(out, B.alive.read(x) == S0.alive.read(x)),
                  z3.Implies(AND(out, S0.alive.read(x)), B.val.read(x) == S0.val.read(x))]
    else:
        goals += [z3.Implies(out, B.val.read(x) == S0.val.read(x))]
    goals += keygoals(B, t + 1)
    for g in goals:
        if not E.proves(B, g, timeout=20000):
            say("not inductive:", str(g)[:400])
            if E.verbose > 2:
                r = E.solver.check(B.pc, z3.Not(g))
                if r == "sat":
                    mm_ = E.solver.last
                    print({str(d): str(mm_[d])[:60] for d in mm_.decls() if mm_[d] is not None and d.arity() == 0 and not str(d).startswith("k!")})
            return None
    info = {"fn": short(E.stack[-1][0]), "line": E.stack[-1][1], "bounds": len(bounds), "lost": False, "exact": True, "invariant": "the contract, for the items taken so far",
            "cells": {"%s+%d" % cc: (forms[cc][0][0] if forms.get(cc) else "contract" if cc in fcell or cc[0] == p.src else "arbitrary") for cc in M}}
    E.loops_log.append(info)
    if E.verbose:
        print("    loop in %s: contract prefix %s" % (info["fn"][:70], info["cells"]))
    E.oblige(S0.copy(), z3.BoolVal(bool(bounds)), "loop terminates (bounded by a quantity fixed at entry)", ("term",))
    H = describe()
    H.facts = S0.facts
    H.ghost = dict(S0.ghost)
    back, exits = go(E, H, mk(), header, prev, body, 0)
    return exits


# ---------------------------------------------------------------- loops with an invariant written down in the contract
class Vals:
    pass


def annotated(E, st, frame, header, prev, body):
    """Tries the loop invariants of the contract (specs.LoopInv).  The local variables they speak of are found by name, or else
    by trying the variables the loop changes.  Base case and inductive step are proved; None if no annotation fits."""
    invs = getattr(getattr(E.rootcall, "model", None), "loops", None)
    if not invs or E.rootcall.this is None:
        return None
    regs0 = dict(frame["regs"])
    mk = lambda: dict(frame, regs=dict(regs0))
    S0 = st
    back, exits = go(E, S0.copy(), mk(), header, prev, body, 1)
    if not back:
        return None
    M1 = set()
    for b, _ in back:
        M1 |= changed(S0, b)
    mine = {v.o: r for r, v in regs0.items() if isinstance(v, VObj) and v.off == 0 and v.o.startswith("%")}
    byname = {}
    for name, r in frame["f"].locals.items():
        v = regs0.get(r)
        if isinstance(v, VObj) and v.off == 0 and v.o in S0.objs:
            byname[name] = v.o
    for inv in invs:
        for binding in bindings(E, S0, inv, byname, M1, mine):
            r = try_annotation(E, S0, mk, header, prev, body, inv, binding, M1)
            if r is not None:
                return r
    return None


def bindings(E, S0, inv, byname, M1, mine):
    import itertools
    if all(n in byname for n in inv.roles):
        yield {n: (byname[n], 0) for n in inv.roles}
        return
    cells = [cc for cc in sorted(M1) if cc[0] in mine and cc[1] == 0]
    ptrs = [cc for cc in cells if cell(S0, cc) and isinstance(cell(S0, cc)[1], VElem)]
    ints = [cc for cc in cells if (cell(S0, cc) is None or isinstance(cell(S0, cc)[1], VInt) and cell(S0, cc)[1].w == 64)]
    ip = [n for n, k in inv.roles.items() if k == "ptr"]
    ii = [n for n, k in inv.roles.items() if k == "int"]
    k = 0
    for a in itertools.permutations(ptrs, len(ip)):
        for b in itertools.permutations(ints, len(ii)):
            k += 1
            if k > 60:
                return
            yield dict(list(zip(ip, a)) + list(zip(ii, b)))


def try_annotation(E, S0, mk, header, prev, body, inv, binding, M1):
    from .world import View
    c = E.rootcall
    v = c.this
    say = (lambda *a: print("    annotation %s:" % inv.name, *a)) if E.verbose > 1 else (lambda *a: None)

    def values(s):
        g = Vals()
        for n, cc in binding.items():
            x = cell(s, cc)
            x = x[1] if x else None
            if isinstance(x, VElem):
                setattr(g, n, x.a)
            elif isinstance(x, VInt):
                setattr(g, n, E.u(s, x))
            else:
                return None
        return g
    e = values(S0)
    if e is None:
        return None
    W = View(E, S0, c.thiso)
    if W.undef:
        return None

    def mapgoals(s, a):
        x = E.fresh("x")
        inb = z3.And(v.cap > 0, v.buff <= x, x < v.end)
        out = []
        if E.variant.track_alive:
            out.append(z3.Implies(inb, s.alive.read(x) == a.alive(x)))
        d, val = a.val(x)
        out.append(z3.Implies(AND(inb, a.alive(x), d), s.val.read(x) == val))
        return out
    a0 = inv.fn(c, v, e, e)
    for g in list(a0.inv) + mapgoals(S0, a0):
        if not E.proves(S0, simp(g)):
            say("does not hold at entry:", str(simp(g))[:300])
            return None
    M = set(M1) | set(binding.values())
    tmpmark = E.tmpcnt
    E.nannot = getattr(E, "nannot", 0)
    for rounds in range(8):
        H = S0.copy()
        for cc in sorted(M):
            x = cell(S0, cc)
            if x is None:
                mm = dict(H.objs[cc[0]])
                mm.pop(cc[1], None)
                H.objs[cc[0]] = mm
                continue
            hv = havoc_value(E, H, x[1])
            mm = dict(H.objs[cc[0]])
            mm[cc[1]] = (x[0], hv)
            H.objs[cc[0]] = mm
        g = values(H)
        if g is None:
            return None
        a = inv.fn(c, v, e, g)
        for f in a.inv:
            H.assume(f)
        junk = E.freshfn("junk", E.variant.vsort)
        inb = lambda x: AND(v.cap > 0, v.buff <= x, x < v.end)
        H.val = MBulk(H.val, lambda x: OR(x < 0, inb(x)), lambda x: ite(simp(AND(x >= 0, a.val(x)[0])), a.val(x)[1], junk(x)))
        if E.variant.track_alive:
            H.alive = MBulk(H.alive, inb, lambda x: a.alive(x))
        H.rng = dict(S0.rng)
        back, exits = go(E, H.copy(), mk(), header, prev, body, 1)
        if not back:
            return None
        new = set()
        for b, _ in back:
            new |= changed(H, b) - M
            if b.regions != H.regions or any(not b.live[r].eq(H.live[r]) for r in H.regions):
                return None
        if new:
            M |= new
            continue
        break
    else:
        return None
    dec = True
    for B, _ in back:
        gb = values(B)
        if gb is None:
            say("a variable has no value after an iteration")
            return None
        ab = inv.fn(c, v, e, gb)
        x = E.fresh("x")
        outer = [iv(-(100 + 10 * k)) for k in range(1, tmpmark + 1)][-12:]
        out = AND(OR(x >= 1, *[x == q for q in outer]), OR(v.cap == 0, x < v.buff, x >= v.end))
        frame_goals = [z3.Implies(AND(out, x >= 1), B.val.read(x) == S0.val.read(x))]
        if E.variant.track_alive:
            frame_goals = [z3.Implies(out, B.alive.read(x) == S0.alive.read(x)), z3.Implies(AND(out, x >= 1, S0.alive.read(x)), B.val.read(x) == S0.val.read(x))]
        for k, q in enumerate(list(ab.inv) + mapgoals(B, ab) + frame_goals):
            if not E.proves(B, simp(q), timeout=20000):
                say("not inductive (%d):" % k, str(simp(q))[:300])
                if E.verbose > 2 and E.solver.check(B.pc, z3.Not(q)) == "sat":
                    mm_ = E.solver.last
                    print({str(d_): str(mm_[d_])[:60] for d_ in mm_.decls() if d_.arity() == 0 and not str(d_).startswith("k!")})
                return None
        if not (E.proves(B, ab.variant < a.variant) and E.proves(B, a.variant > 0)):
            dec = False
    info = {"fn": short(E.stack[-1][0]), "line": E.stack[-1][1], "bounds": 1, "lost": False, "exact": True, "invariant": inv.name,
            "cells": {"%s+%d" % cc: "arbitrary within the invariant" for cc in M}}
    if not E.quiet:
        E.loops_log.append(info)
    if E.verbose:
        print("    loop in %s: annotation %s, %s" % (info["fn"][:70], inv.name, "terminates" if dec else "TERMINATION OPEN"))
    if not E.quiet:
        E.oblige(S0.copy(), z3.BoolVal(dec), "loop terminates (variant decreases)", ("term",))
    H.facts = S0.facts
    H.ghost = dict(S0.ghost)
    back, exits = go(E, H, mk(), header, prev, body, 0)
    return exits
