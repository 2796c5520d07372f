// The operations, the states they are tried on, and what they must do (included by harness.cpp).
static It at_(B& b, std::size_t i) { return b.begin() + (std::ptrdiff_t) i; }
static long ix(B& b, const It& i) {
    if (i != b.end() && !alive(&*i)) { fail(P_LIFE, "the returned iterator does not refer to an element"); return -3; }
    return (long) (i - b.begin());
}
static const std::size_t HUGE_N = (std::size_t) -1;
typedef std::vector<std::pair<std::size_t, std::size_t> > Pairs;
static Pairs shifted(std::size_t from, std::size_t to, long by) {
    Pairs p;
    for (std::size_t i = from; i < to; ++i) p.push_back(std::make_pair(i, (std::size_t) ((long) i + by)));
    return p;
}

static std::vector<St> states(std::size_t maxcap, bool few = false) {
    std::vector<St> r;
    for (std::size_t c = 0; c <= maxcap; ++c)
        for (std::size_t m = 0; m <= (SO ? c : 0); ++m)
            for (std::size_t p = 0; p < (c ? c : 1); ++p) {
                if (few && p != 0 && p != c - 1) continue;
                if (SO && few && m != 0 && m != (c + 1) / 2) continue;
                for (std::size_t s = 0; s <= c; ++s) { St x = {c, m, p, s, s}; r.push_back(x); }
            }
    return r;
}

// ---------------------------------------------------------------- push, pop
static void ops_push(const St& s) {
    Spec m = spec(s);
    bool full = s.size == s.cap;
    for (int front = 0; front < 2; ++front) {
        Exp e(front ? m_push_front(m, 100) : m_push_back(m, 100), "C02");
        if (!SO && s.cap) e.stay = front ? shifted(0, full ? s.size - 1 : s.size, 1) : full ? shifted(1, s.size, -1) : shifted(0, s.size, 0);
        e.strong = !SO && !full;
        e.constant = !SO;
        test(front ? "push_front(lvalue)" : "push_back(lvalue)", s, 0, 0, [front](B& b, Env& v) -> long { if (front) b.push_front(v.one); else b.push_back(v.one); return -1; }, e);
        e.rvalue = true;
        test(front ? "push_front(rvalue)" : "push_back(rvalue)", s, 0, 0, [front](B& b, Env& v) -> long { if (front) b.push_front(std::move(v.one)); else b.push_back(std::move(v.one)); return -1; }, e);
        e.rvalue = false;
#if KIND != 2
        e.s = front ? m_push_front(m, 0) : m_push_back(m, 0);
        if (KIND == 0) e.strong = !SO;
        test(front ? "push_front()" : "push_back()", s, 0, 0, [front](B& b, Env&) -> long { if (front) b.push_front(); else b.push_back(); return -1; }, e);
#endif
        if (!SO)
            for (std::size_t i = 0; i < s.size; ++i) {
                Exp a(front ? m_push_front(m, m.seq[i]) : m_push_back(m, m.seq[i]), "C02");
                a.copy = COPY_ANY;
                a.strong = !full;
                test(front ? "push_front(element of the buffer)" : "push_back(element of the buffer)", s, 0, 0, [front, i](B& b, Env&) -> long { if (front) b.push_front(b[i]); else b.push_back(b[i]); return (long) i * 0 - 1; }, a);
            }
    }
    if (s.size) {
        Exp e(m_erase(m, s.size - 1, s.size), "C02");
        e.anyfault = SO; e.constant = !SO;
        if (!SO) e.stay = shifted(0, s.size - 1, 0);
        test("pop_back()", s, 0, 0, [](B& b, Env&) -> long { b.pop_back(); return -1; }, e);
        e.s = m_erase(m, 0, 1);
        if (!SO) e.stay = shifted(1, s.size, -1);
        test("pop_front()", s, 0, 0, [](B& b, Env&) -> long { b.pop_front(); return -1; }, e);
    }
}

// ---------------------------------------------------------------- insert, rinsert
static void ops_insert(const St& s) {
    Spec m = spec(s);
    bool full = s.size == s.cap;
    for (int r = 0; r < 2; ++r)
        for (std::size_t pos = 0; pos <= s.size; ++pos) {
            const char* prop = r ? "C04" : "C03";
            std::size_t k = 0;
            Exp e(r ? m_rinsert(m, pos, Seq(1, 100), k) : m_insert(m, pos, Seq(1, 100), k), prop);
            bool nop = full && (r ? pos == s.size : pos == 0);
            e.ret = nop ? (r ? (long) s.size : 0) : r ? (long) pos : (long) (pos - (full ? 1 : 0));
            e.strong = !SO && !full && (r ? pos == 0 : pos == s.size);
            if (!SO && !nop) {
                if (r) e.stay = shifted(pos, full ? s.size - 1 : s.size, 1);
                else e.stay = full ? shifted(1, pos, -1) : shifted(0, pos, 0);
            } else if (!SO) e.stay = shifted(0, s.size, 0);
            char name[100];
            snprintf(name, sizeof name, "%s(begin()+%zu, lvalue)", r ? "rinsert" : "insert", pos);
            test(name, s, 0, 0, [r, pos](B& b, Env& v) -> long { return ix(b, r ? b.rinsert(at_(b, pos), (const Elem&) v.one) : b.insert(at_(b, pos), (const Elem&) v.one)); }, e);
            e.rvalue = true;
            snprintf(name, sizeof name, "%s(begin()+%zu, rvalue)", r ? "rinsert" : "insert", pos);
            test(name, s, 0, 0, [r, pos](B& b, Env& v) -> long { return ix(b, r ? b.rinsert(at_(b, pos), std::move(v.one)) : b.insert(at_(b, pos), std::move(v.one))); }, e);
            e.rvalue = false;
#if KIND != 2
            e.s = r ? m_rinsert(m, pos, Seq(1, 0), k) : m_insert(m, pos, Seq(1, 0), k);
            if (KIND == 0) e.strong = !SO;
            snprintf(name, sizeof name, "%s(begin()+%zu)", r ? "rinsert" : "insert", pos);
            test(name, s, 0, 0, [r, pos](B& b, Env&) -> long { return ix(b, r ? b.rinsert(at_(b, pos)) : b.insert(at_(b, pos))); }, e);
#endif
            std::vector<std::size_t> ns;
            for (std::size_t n = 0; n <= s.cap + 2; ++n) ns.push_back(n);
            ns.push_back(HUGE_N); ns.push_back((std::size_t) PTRDIFF_MAX); ns.push_back(HUGE_N - pos);
            for (int how = 0; how < 4; ++how)
                for (std::size_t q = 0; q < ns.size(); ++q) {
                    std::size_t n = ns[q], big = n;
                    if (how && n > s.cap + 2) continue;
                    if (n > s.cap + 2) big = s.cap + s.size + 2;
                    Seq items = how == 1 || how == 2 ? range(n) : Seq(big, 100);
                    std::size_t take = std::min(big, r ? s.cap - pos : pos + (s.cap - s.size)), ev = 0;
                    Exp x(r ? m_rinsert(m, pos, items, ev) : m_insert(m, pos, items, ev), prop);
                    x.copy = COPY_ANY;
                    x.taken = how == 2 && !SO ? n * (s.cap + 2) : how ? n : take;   // a single-pass range is inserted element by element
                    if (!SO && take) {
                        std::size_t con = std::min(take, s.cap - s.size), e0 = take - con;
                        if (r) x.stay = shifted(pos, s.size > e0 ? std::max(pos, s.size - e0) : pos, (long) take);
                        else x.stay = shifted(std::min(pos, e0), pos, -(long) e0);
                    }
                    if (!SO && !take) x.stay = shifted(0, s.size, 0);
                    if (!SO && how == 2) {      // element by element: elements evicted on the way may be others
                        x.stay.clear();
                    }
                    static const char* forms[] = {"%s(begin()+%zu, %zu, item)", "%s(begin()+%zu, forward range of %zu)", "%s(begin()+%zu, single-pass range of %zu)", "%s(begin()+%zu, short(%zu), short(100))"};
                    snprintf(name, sizeof name, forms[how], r ? "rinsert" : "insert", pos, n);
                    test(name, s, 0, how == 1 || how == 2 ? n : 0, [r, pos, n, how](B& b, Env& v) -> long {
                        It p = at_(b, pos);
                        if (how == 3) { if (r) b.rinsert(p, (short) n, (short) 100); else b.insert(p, (short) n, (short) 100); return -1; }
                        if (how == 0) { if (r) b.rinsert(p, n, v.one); else b.insert(p, n, v.one); }
                        else if (how == 1) { if (r) b.rinsert(p, v.f(), v.l()); else b.insert(p, v.f(), v.l()); }
                        else { if (r) b.rinsert(p, v.in(), v.out()); else b.insert(p, v.in(), v.out()); }
                        return -1;
                    }, x);
                }
        }
}

// ---------------------------------------------------------------- erase
static void ops_erase(const St& s) {
    Spec m = spec(s);
    char name[100];
    for (int r = 0; r < 2; ++r)
        for (std::size_t a = 0; a <= s.size; ++a)
            for (std::size_t z = a; z <= s.size; ++z) {
                Exp e(m_erase(m, a, z), "C05");
                e.ret = r ? (a == z ? (long) a : a ? (long) a - 1 : 0) : (long) a;
                if (!SO || a == z) e.stay = r ? shifted(z, s.size, -(long) (z - a)) : shifted(0, a, 0);
                if (SO) { e.stay.clear(); if (r && a) e.ret = (long) a - 1; }
                e.anyfault = SO || (KIND != 0);
                snprintf(name, sizeof name, "%s(begin()+%zu, begin()+%zu)", r ? "rerase" : "erase", a, z);
                if (SO && r && a == z) e.ret = -1;
                test(name, s, 0, 0, [r, a, z](B& b, Env&) -> long { return ix(b, r ? b.rerase(at_(b, a), at_(b, z)) : b.erase(at_(b, a), at_(b, z))); }, e);
                if (z == a + 1) {
                    snprintf(name, sizeof name, "%s(begin()+%zu)", r ? "rerase" : "erase", a);
                    test(name, s, 0, 0, [r, a](B& b, Env&) -> long { return ix(b, r ? b.rerase(at_(b, a)) : b.erase(at_(b, a))); }, e);
                }
            }
    Exp c(m_erase(m, 0, s.size), "C05");
    c.anyfault = SO;
    test("clear()", s, 0, 0, [](B& b, Env&) -> long { b.clear(); return -1; }, c);
#if !SO
    for (std::size_t n = 0; n <= s.size; ++n) {
        Exp e(m_erase(m, 0, n), "C05");
        e.anyfault = KIND != 0;
        e.stay = shifted(n, s.size, -(long) n);
        snprintf(name, sizeof name, "erase_begin(%zu)", n);
        test(name, s, 0, 0, [n](B& b, Env&) -> long { b.erase_begin(n); return -1; }, e);
        e.s = m_erase(m, s.size - n, s.size);
        e.stay = shifted(0, s.size - n, 0);
        snprintf(name, sizeof name, "erase_end(%zu)", n);
        test(name, s, 0, 0, [n](B& b, Env&) -> long { b.erase_end(n); return -1; }, e);
    }
#endif
}

// ---------------------------------------------------------------- capacity
static void ops_capacity(const St& s) {
    Spec m = spec(s);
    char name[100];
    std::size_t mx;
    { B b; mx = b.max_size(); }
    std::vector<std::size_t> ns;
    for (std::size_t n = 0; n <= s.cap + 2; ++n) ns.push_back(n);
    ns.push_back(mx + 1); ns.push_back(HUGE_N); ns.push_back(mx);
    for (int r = 0; r < 2; ++r)
        for (std::size_t q = 0; q < ns.size(); ++q) {
            std::size_t n = ns[q];
            bool big = n > s.cap + 2;
            for (std::size_t mn = 0; mn <= (SO && !big ? n : 0); ++mn) {
                std::size_t keep = std::min(n, s.size);
                Exp e(big ? m : r ? m_erase(m, s.size - keep < s.size ? 0 : 0, s.size - keep) : m_erase(m, keep, s.size), "C06");
                e.noalloc = !SO && n == s.cap;
                if (!big) { e.s.cap = n; e.s.mn = mn; }
                if (big && SO) { e.s.cap = n; e.s.mn = 0; }
                e.minimum = true;
                e.strong = true;
                if (big && !SO) { if (n == mx) continue; e.len = true; }
                snprintf(name, sizeof name, SO ? "%sset_capacity(%zu, min %zu)" : "%sset_capacity(%zu)", r ? "r" : "", n, mn);
                test(name, s, 0, 0, [r, n, mn](B& b, Env&) -> long { if (r) b.rset_capacity(CC(n, mn)); else b.set_capacity(CC(n, mn)); return -1; }, e);
            }
            Spec x = m;
            if (!big) {
                if (r) { if (n >= s.size) x.seq.insert(x.seq.begin(), n - s.size, 100); else x.seq.erase(x.seq.begin(), x.seq.end() - n); }
                else x.seq.resize(n, 100);
                if (n > s.cap) x.cap = n;
            }
            Exp e(x, "C06");
            e.copy = COPY_ANY;
            e.taken = n < 100 ? n : 0;
            e.noalloc = !SO && n <= s.cap;
            e.capfix = n <= s.cap;
            if (big) { if (n == mx || SO) continue; e.len = true; }
            if (!SO && n <= s.cap) e.stay = r ? shifted(s.size > n ? s.size - n : 0, s.size, (long) n - (long) s.size) : shifted(0, std::min(n, s.size), 0);
            snprintf(name, sizeof name, "%sresize(%zu, item)", r ? "r" : "", n);
            test(name, s, 0, 0, [r, n](B& b, Env& v) -> long { if (r) b.rresize(n, v.one); else b.resize(n, v.one); return -1; }, e);
        }
#if SO
    // requests that no storage can satisfy are refused when storage is needed, and change nothing
    Exp e(m, "C06");
    e.strong = false;
    e.len = true;
    e.capfix = false;
    (void) e;
    test("set_capacity(the own capacity object)", s, 0, 0, [](B& b, Env&) -> long { b.set_capacity(b.capacity()); return -1; }, Exp(m, "C06"));
    test("rset_capacity(the own capacity object)", s, 0, 0, [](B& b, Env&) -> long { b.rset_capacity(b.capacity()); return -1; }, Exp(m, "C06"));
#endif
}

// ---------------------------------------------------------------- assignment, swap, move
static void ops_assign(const St& s, const std::vector<St>& others) {
    Spec m = spec(s);
    char name[120];
    std::size_t mx;
    { B b; mx = b.max_size(); }
    for (std::size_t n = 0; n <= s.cap + 2; ++n)
        for (int how = 0; how < 4; ++how) {
            static const char* forms[] = {"assign(%zu, item)", "assign(forward range of %zu)", "assign(single-pass range of %zu)", "assign(short(%zu), short(100))"};
            bool rng = how == 1 || how == 2;
            Seq items = rng ? range(n) : Seq(n, 100);
            Exp e(m, "C07");
            e.s.seq = items; e.s.cap = n; e.s.mn = 0;
            e.noalloc = false; e.copy = COPY_NONE; e.taken = how == 2 ? 6 * n : n;
            e.strong = !SO && n != s.cap;
            snprintf(name, sizeof name, forms[how], n);
            e.exact = (long) n;
            test(name, s, 0, rng ? n : 0, [n, how](B& b, Env& v) -> long {
                if (how == 3) b.assign((short) n, (short) 100); else if (how == 0) b.assign(n, v.one); else if (how == 1) b.assign(v.f(), v.l()); else b.assign(v.in(), v.out());
                return -1;
            }, e);
            static const char* capforms[] = {"assign(capacity %zu, %zu, item)", "assign(capacity %zu, forward range of %zu)", "assign(capacity %zu, single-pass range of %zu)", "assign(capacity %zu, short(%zu), short(100))"};
            for (std::size_t c = 0; c <= s.cap + 1; ++c) {
                if (!rng && n > c) continue;
                for (std::size_t mn = 0; mn <= (SO ? c : 0); mn += 2) {
                    Exp x(m, "C07");
                    x.s.cap = c; x.s.mn = mn;
                    x.s.seq = items;
                    if (n > c) x.s.seq.erase(x.s.seq.begin(), x.s.seq.begin() + (n - c));
                    x.noalloc = !SO && c == s.cap;
                    x.taken = how == 2 ? 3 * n : std::min(n, c);
                    x.strong = !SO && c != s.cap;
                    x.exact = (long) std::max(mn, std::min(c, n));
                    snprintf(name, sizeof name, capforms[how], c, n);
                    test(name, s, 0, rng ? n : 0, [n, how, c, mn](B& b, Env& v) -> long {
                        if (how == 3) b.assign(CC(c, mn), (short) n, (short) 100); else if (how == 0) b.assign(CC(c, mn), n, v.one); else if (how == 1) b.assign(CC(c, mn), v.f(), v.l()); else b.assign(CC(c, mn), v.in(), v.out());
                        return -1;
                    }, x);
                }
            }
        }
    if (!SO) {
        Exp e(m, "C07");
        e.len = true; e.strong = true;
        test("assign(max_size() + 1, item)", s, 0, 0, [mx](B& b, Env& v) -> long { b.assign(mx + 1, v.one); return -1; }, e);
        test("assign(capacity max_size() + 1, 0, item)", s, 0, 0, [mx](B& b, Env& v) -> long { b.assign(CC(mx + 1, 0), 0, v.one); return -1; }, e);
    }
    {
        Exp e(m, "C07");
        if (!SO) e.stay = shifted(0, s.size, 0);
        test("copy assignment of itself", s, 0, 0, [](B& b, Env&) -> long { const B& c = b; b = c; return -1; }, e);
        test("swap with itself", s, 0, 0, [](B& b, Env&) -> long { b.swap(b); return -1; }, e);
    }
    for (std::size_t k = 0; k < others.size(); ++k) {
        const St& o = others[k];
        Spec om = spec(o, 50);
        Exp e(om, "C07");
        e.noalloc = false; e.copy = COPY_ANY; e.taken = 2 * o.size;
        e.strong = true;
        OtherExp oe;
        oe.present = true; oe.s = om;
        e.exact = (long) o.size;
        test("copy assignment", s, &o, 0, [](B& b, Env& v) -> long {
            b = *(const B*) v.other;
            if (b.get_allocator().id != 1) fail("C21", "copy assignment changes the allocator");
            return -1;
        }, e, &oe);
        Exp x(om, "C07");
        x.noalloc = false; x.anyfault = false; x.copy = COPY_NONE;
        OtherExp ox;
        ox.present = true; ox.moved = true;
        ox.s.cap = 0; ox.s.mn = 0;
        if (SO) { ox.s = m; ox.s.seq.clear(); }
        test("move assignment", s, &o, 0, [](B& b, Env& v) -> long {
            long copies = g_copies, moves = g_moves, al = g_allocs;
            b = std::move(*v.other);
            if (g_copies != copies || g_moves != moves) fail(SO ? "C15" : "C07", "move assignment touches elements");
            if (g_allocs != al) fail("C12", "move assignment allocates");
            if (b.get_allocator().id != 2) fail("C21", "move assignment does not take over the allocator");
            if (!v.other->empty()) fail(F("C07"), "the source of a move assignment is not empty");
            return -1;
        }, x, SO ? 0 : &ox);
        ox.s = m; ox.moved = true;
        x.copy = COPY_NONE;
        test("swap", s, &o, 0, [](B& b, Env& v) -> long {
            long w = g_work, al = g_allocs, de = g_deallocs;
            swap(b, *v.other);
            if (g_work != w || g_allocs != al || g_deallocs != de) fail(F("C07"), "swap touches elements or storage");
            if (b.get_allocator().id != 2 || v.other->get_allocator().id != 1) fail("C21", "swap does not exchange the allocators");
            return -1;
        }, x, &ox);
        test("member swap", s, &o, 0, [](B& b, Env& v) -> long {
            long w = g_work, al = g_allocs, de = g_deallocs;
            b.swap(*v.other);
            if (g_work != w || g_allocs != al || g_deallocs != de) fail(F("C07"), "swap touches elements or storage");
            if (b.get_allocator().id != 2 || v.other->get_allocator().id != 1) fail("C21", "swap does not exchange the allocators");
            return -1;
        }, x, &ox);
    }
}

static Exp made(const Seq& q, std::size_t cap, std::size_t mn, long exact = -1) {
    Spec s;
    s.seq = q; s.cap = cap; s.mn = mn;
    Exp e(s, "C07");
    e.exact = exact >= 0 ? exact : (long) std::max(q.size(), mn);
    return e;
}

static void ops_make(std::size_t maxcap, const std::vector<St>& others) {
    std::size_t mx;
    { B b; mx = b.max_size(); }
    char name[120];
    {
        Exp e = made(Seq(), 0, 0);
        e.constant = true; e.anyfault = false;
        test_make("default construction", 0, 0, [](Env&) { return new B(Al(7)); }, e, 7);
    }
    for (std::size_t n = 0; n <= maxcap + 2; ++n) {
        for (std::size_t mn = 0; mn <= (SO ? n : 0); ++mn) {
            snprintf(name, sizeof name, "construction(capacity %zu)", n);
            test_make(name, 0, 0, [n, mn](Env&) { return new B(CC(n, mn), Al(7)); }, made(Seq(), n, mn), 7);
            snprintf(name, sizeof name, "construction(capacity %zu, item)", n);
            test_make(name, 0, 0, [n, mn](Env& v) { return new B(CC(n, mn), v.one, Al(7)); }, made(Seq(n, 100), n, mn), 7);
        }
        snprintf(name, sizeof name, "construction(forward range of %zu)", n);
        test_make(name, 0, n, [](Env& v) { return new B(v.f(), v.l(), Al(7)); }, made(range(n), n, 0), 7);
        snprintf(name, sizeof name, "construction(single-pass range of %zu)", n);
        snprintf(name, sizeof name, "construction(short(%zu), short(100))", n);
        test_make(name, 0, 0, [n](Env&) { return new B((short) n, (short) 100, Al(7)); }, made(Seq(n, 100), n, 0), 7);
        snprintf(name, sizeof name, "construction(single-pass range of %zu)", n);
        { Exp e = made(range(n), n, 0); e.copy = COPY_NONE; test_make(name, 0, n, [](Env& v) { return new B(v.in(), v.out(), Al(7)); }, e, 7); }
        for (std::size_t c = 0; c <= maxcap + 1; ++c)
            for (std::size_t mn = 0; mn <= (SO ? c : 0); ++mn) {
                if (n <= c) {
                    snprintf(name, sizeof name, "construction(capacity %zu, %zu, item)", c, n);
                    test_make(name, 0, 0, [n, c, mn](Env& v) { return new B(CC(c, mn), n, v.one, Al(7)); }, made(Seq(n, 100), c, mn), 7);
                }
                if (n <= c) {
                    snprintf(name, sizeof name, "construction(capacity %zu, short(%zu), short(100))", c, n);
                    test_make(name, 0, 0, [n, c, mn](Env&) { return new B(CC(c, mn), (short) n, (short) 100, Al(7)); }, made(Seq(n, 100), c, mn), 7);
                }
                Seq q = range(n);
                if (n > c) q.erase(q.begin(), q.begin() + (n - c));
                snprintf(name, sizeof name, "construction(capacity %zu, forward range of %zu)", c, n);
                test_make(name, 0, n, [c, mn](Env& v) { return new B(CC(c, mn), v.f(), v.l(), Al(7)); }, made(q, c, mn), 7);
                snprintf(name, sizeof name, "construction(capacity %zu, single-pass range of %zu)", c, n);
                test_make(name, 0, n, [c, mn](Env& v) { return new B(CC(c, mn), v.in(), v.out(), Al(7)); }, made(q, c, mn), 7);
            }
    }
    if (!SO) {
        Exp e = made(Seq(), 0, 0);
        e.len = true;
        test_make("construction(capacity max_size() + 1)", 0, 0, [mx](Env&) { return new B(CC(mx + 1, 0), Al(7)); }, e, 7);
        test_make("construction(capacity max_size() + 1, item)", 0, 0, [mx](Env& v) { return new B(CC(mx + 1, 0), v.one, Al(7)); }, e, 7);
        test_make("construction(capacity max_size() + 1, forward range)", 0, 2, [mx](Env& v) { return new B(CC(mx + 1, 0), v.f(), v.l(), Al(7)); }, e, 7);
    }
    for (std::size_t k = 0; k < others.size(); ++k) {
        const St& o = others[k];
        Spec om = spec(o, 50);
        Exp e = made(om.seq, om.cap, om.mn);
        e.copy = COPY_ANY;
        e.exact = (long) om.seq.size();
        OtherExp oe;
        oe.present = true; oe.s = om;
        test_make("copy construction", &o, 0, [](Env& v) { return new B(*(const B*) v.other); }, e, 2, &oe);
        Exp x = made(om.seq, om.cap, om.mn);
        x.constant = true; x.anyfault = false; x.exact = -1;
        OtherExp ox;
        ox.present = true; ox.moved = true;
        ox.s.cap = 0; ox.s.mn = 0;
        test_make("move construction", &o, 0, [](Env& v) { return new B(std::move(*v.other)); }, x, 2, &ox);
    }
}

// ---------------------------------------------------------------- linearize, rotate
static void ops_order(const St& s) {
    Spec m = spec(s);
    char name[100];
    Exp e(m, "C08");
    e.anyfault = KIND != 0;
    bool wasl = !SO && (s.size == 0 || (s.pre + s.keep - s.size) % (s.cap ? s.cap : 1) + s.size <= s.cap);
    if (wasl) { e.stay = shifted(0, s.size, 0); e.constant = true; e.anyfault = false; }
    test("linearize()", s, 0, 0, [](B& b, Env&) -> long {
        Elem* p = b.linearize();
        g_armed = false;
        if (b.empty()) { if (p) fail("C08", "linearize() of an empty buffer returns a pointer"); return -1; }
        if (p != &*b.begin()) fail("C08", "linearize() does not return the first element");
        if (!b.is_linearized() || b.array_one().second != b.size() || b.array_one().first != p || b.array_two().second) fail("C08", "not contiguous after linearize()");
        for (std::size_t i = 0; i < b.size(); ++i) if (&b[i] != p + i) fail("C08", "not contiguous after linearize()");
        return -1;
    }, e);
    for (std::size_t k = 0; k < s.size; ++k) {
        Exp r(m, "C08");
        r.anyfault = KIND != 0;
        std::rotate(r.s.seq.begin(), r.s.seq.begin() + k, r.s.seq.end());
        snprintf(name, sizeof name, "rotate(begin()+%zu)", k);
        test(name, s, 0, 0, [k](B& b, Env&) -> long { b.rotate(CIt(at_(b, k))); return -1; }, r);
    }
}

// ---------------------------------------------------------------- observers, iterators, comparisons
static std::vector<unsigned char> bits(const B& b) {
    const unsigned char* p = (const unsigned char*) &b;
    std::vector<unsigned char> r(p, p + sizeof b);
    const Block* k = b.size() ? block_of(&*b.begin()) : 0;
    if (k)
        for (std::map<const char*, Block>::iterator i = g_blocks.begin(); i != g_blocks.end(); ++i)
            if (&i->second == k) r.insert(r.end(), (const unsigned char*) i->first, (const unsigned char*) i->first + k->bytes);
    return r;
}

#define CHECK(prop, cond) do { if (!(cond)) fail(prop, "not true: %s", #cond); } while (0)
static void observe(const St& s) {
    ++g_cases; ++g_runs;
    text("observers and iterators", s, 0, -1);
    watchdog(8);
    const char* P = F("C01");
    const char* Q = SO ? "C15" : "C13";
    snprintf(g_prop, sizeof g_prop, "%s", P);
    g_bad = false;
    B* pb = build(s);
    B& b = *pb;
    const B& c = b;
    Spec m = spec(s);
    std::vector<unsigned char> snap = bits(b);
    long al = g_allocs, w = g_work;
    std::size_t n = s.size;
    CHECK(P, c.size() == n);
    CHECK(P, capof(c) == s.cap);
    CHECK(P, c.empty() == (n == 0));
    CHECK(P, c.full() == (n == s.cap));
    CHECK(P, c.reserve() == s.cap - n);
    CHECK(P, (std::size_t) (c.end() - c.begin()) == n);
    CHECK(P, c.max_size() == std::min<std::size_t>((std::size_t) -1 / sizeof(Elem), (std::size_t) PTRDIFF_MAX));
    CHECK(P, c.get_allocator().id == 1);
    CHECK(P, b.get_allocator().id == 1);
    bool straight = true;
    for (std::size_t i = 0; i < n; ++i) {
        CHECK(P, val(b[i]) == m.seq[i]);
        CHECK(P, &c[i] == &b[i]);
        CHECK(P, &b.at(i) == &b[i] && &c.at(i) == &b[i]);
        CHECK(P, &*(b.begin() + i) == &b[i] && &*(c.begin() + i) == &b[i]);
        CHECK(P, &*(b.end() - (n - i)) == &b[i] && &*(c.end() - (n - i)) == &b[i]);
        CHECK(P, &*(b.rbegin() + (n - 1 - i)) == &b[i] && &*(c.rbegin() + (n - 1 - i)) == &b[i]);
        if (i && &b[i] != &b[i - 1] + 1) straight = false;
    }
#if !SO
    CHECK(P, c.cbegin() == c.begin() && c.cend() == c.end());
#endif
    if (n) {
        CHECK(P, &b.front() == &b[0] && &c.front() == &b[0]);
        CHECK(P, &b.back() == &b[n - 1] && &c.back() == &b[n - 1]);
        CHECK(P, c.is_linearized() == straight);
    }
    CHECK(P, (std::size_t) std::distance(b.rbegin(), b.rend()) == n && (std::size_t) std::distance(c.rbegin(), c.rend()) == n);
    for (std::size_t x = 0; x < 3; ++x) {
        std::size_t bad = x == 0 ? n : x == 1 ? n + 3 : HUGE_N;
        int t = 0;
        try { b.at(bad); } catch (std::out_of_range&) { ++t; }
        try { c.at(bad); } catch (std::out_of_range&) { ++t; }
        if (t != 2) fail(P, "at(%zu) does not throw std::out_of_range", bad);
    }
    {
        B::const_array_range r1 = c.array_one(), r2 = c.array_two();
        B::array_range q1 = b.array_one(), q2 = b.array_two();
        CHECK(P, r1.second + r2.second == n && q1.second == r1.second && q2.second == r2.second);
        if (r1.second + r2.second == n)
            for (std::size_t i = 0; i < n; ++i) {
                CHECK(P, (i < r1.second ? r1.first + i : r2.first + (i - r1.second)) == &b[i]);
                CHECK(P, (i < q1.second ? q1.first + i : q2.first + (i - q1.second)) == &b[i]);
            }
        CHECK(P, r2.second == 0 || r1.second > 0);
        if (n) CHECK(P, straight == (r2.second == 0));
    }
    snprintf(g_prop, sizeof g_prop, "%s", Q);
    for (std::size_t i = 0; i <= n; ++i)
        for (std::size_t j = 0; j <= n; ++j) {
            It a = at_(b, i), z = at_(b, j);
            CIt ca = a, cz = z;
            std::ptrdiff_t d = (std::ptrdiff_t) j - (std::ptrdiff_t) i;
            CHECK(Q, z - a == d && cz - ca == d && z - ca == d && cz - a == d);
            CHECK(Q, a + d == z && ca + d == cz && d + a == z && z - d == a && d + ca == cz && cz - d == ca);
            It t = a; t += d; CHECK(Q, t == z);
            t -= d; CHECK(Q, t == a);
            CIt ct = ca; ct += d; CHECK(Q, ct == cz);
            ct -= d; CHECK(Q, ct == ca);
            CHECK(Q, (a == z) == (i == j) && (a != z) == (i != j) && (a < z) == (i < j) && (a > z) == (i > j) && (a <= z) == (i <= j) && (a >= z) == (i >= j));
            CHECK(Q, (ca == z) == (i == j) && (ca != z) == (i != j) && (ca < z) == (i < j) && (a > cz) == (i > j) && (a <= cz) == (i <= j) && (ca >= cz) == (i >= j));
            if (j < n) { CHECK(Q, &a[d] == &b[j] && &*(a + d) == &b[j] && &ca[d] == &b[j] && (a + d).operator->() == &b[j]); }
        }
    for (std::size_t i = 0; i <= n; ++i) {
        It a = at_(b, i);
        CIt ca = a;
        if (i < n) {
            It t = a, u = t++; CHECK(Q, u == a && t == a + 1 && t - b.begin() == (std::ptrdiff_t) i + 1);
            It k = a; CHECK(Q, &++k == &k && k == t);
            CHECK(Q, k-- == t && k == a && --t == a && &*a == &b[i]);
            CIt ck = ca; CHECK(Q, ck++ == ca && ck == ca + 1 && --ck == ca && ++ck == ca + 1 && ck-- == ca + 1 && ck == ca);
        }
        It as; as = a; CHECK(Q, as == a);
    }
    if (snap != bits(b)) fail("C22", "reading the buffer modified it");
    if (g_allocs != al) fail("C22", "reading the buffer allocated");
    (void) w;
    snprintf(g_prop, sizeof g_prop, "%s", P_LIFE);
    delete pb;
}

template <class X> static void cmp_all(const char* P, const X& a, const X& b, const Seq& x, const Seq& y) {
    bool eq = x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin(), eqv);
    if ((a == b) != eq || (a != b) == eq || (a < b) != (x < y) || (a > b) != (x > y) || (a <= b) != (x <= y) || (a >= b) != (x >= y))
        fail(P, "%s and %s: == %d != %d < %d > %d <= %d >= %d", str(x).c_str(), str(y).c_str(), a == b, a != b, a < b, a > b, a <= b, a >= b);
}
static void comparisons(std::size_t maxcap) {
    // every pair of short sequences over {1,2}, in several positions of storages of several capacities
    std::vector<Seq> seqs;
    for (std::size_t n = 0; n <= 3; ++n)
        for (unsigned x = 0; x < 1u << n; ++x) { Seq q; for (std::size_t i = 0; i < n; ++i) q.push_back(1 + ((x >> i) & 1)); seqs.push_back(q); }
    { Seq q(1, ODD); seqs.push_back(q); q.push_back(1); seqs.push_back(q); q[0] = 1; q[1] = ODD; seqs.push_back(q); q.push_back(ODD + 1); seqs.push_back(q); }
    (void) maxcap;
    snprintf(g_prop, sizeof g_prop, "C14");
    for (std::size_t i = 0; i < seqs.size(); ++i)
        for (std::size_t j = 0; j < seqs.size(); ++j)
            for (std::size_t k = 0; k < 9; ++k) {
                ++g_cases; ++g_runs;
                g_bad = false;
                std::size_t p = k % 3, q = k / 3;
                B a(CC(seqs[i].size() + p, 0), Al(1)), b(CC(3 + q, q), Al(2));
                for (std::size_t t = 0; t < p && p; ++t) a.push_back(Elem(9));
                while (!a.empty()) a.pop_front();
                for (std::size_t t = 0; t < q + 2; ++t) b.push_back(Elem(9));
                while (!b.empty()) b.pop_front();
                for (std::size_t t = 0; t < seqs[i].size(); ++t) a.push_back(Elem(seqs[i][t]));
                for (std::size_t t = 0; t < seqs[j].size(); ++t) b.push_back(Elem(seqs[j][t]));
                snprintf(g_case, sizeof g_case, "%scomparison of %s (capacity %zu) and %s (capacity %zu)", SO ? "space_optimized " : "", str(seqs[i]).c_str(), capof(a), str(seqs[j]).c_str(), capof(b));
                std::vector<unsigned char> s1 = bits(a), s2 = bits(b);
                cmp_all("C14", a, b, seqs[i], seqs[j]);
                cmp_all("C14", a, a, seqs[i], seqs[i]);
                if (s1 != bits(a) || s2 != bits(b)) fail("C22", "comparison modified an operand");
            }
}

// ---------------------------------------------------------------- long random histories
static void history(unsigned seed, std::size_t cap, std::size_t mn, int len, bool faults) {
    ++g_cases;
    watchdog(15);
    std::mt19937 rng(seed);
    auto R = [&rng](std::size_t n) { return n ? (std::size_t) (rng() % n) : 0; };
    Al al(1);
    B* b = new B(CC(cap, mn), al);
    Spec m;
    m.cap = cap; m.mn = mn;
    int next = 1000;
    std::string log;
#if SO
    std::size_t lastic = b->internal_capacity();
#endif
    const char* P = F("C02");
    g_bad = false;
    for (int t = 0; t < len && !g_bad; ++t) {
        ++g_runs;
        char nm[200];
        std::size_t pos = R(m.seq.size() + 1), n = R(4) ? R(5) : R(m.cap + 3), k = 0;
        unsigned op = (unsigned) R(SO ? 22 : 22);
        Spec w = m;
        std::vector<Elem> items;
        items.reserve(n);
        Seq sv;
        for (std::size_t i = 0; i < n; ++i) { items.emplace_back(next + (int) i); sv.push_back(next + (int) i); }
        next += (int) n;
        Elem one(next);
        int ov = next++;
        Src src = {items.data(), items.data() + n, 0};
        InIt in = {&src, false}, out = {&src, true};
        bool removal = false;
        g_countdown = faults && R(3) == 0 ? (long) R(12) : -1;
        g_fired = false;
        static const char* names[] = {"push_back", "push_front", "pop_back", "pop_front", "insert", "rinsert", "insert_n", "rinsert_n", "insert_range", "rinsert_range", "insert_in", "rinsert_in",
                                      "erase", "rerase", "erase_range", "rerase_range", "clear", "set_capacity", "rset_capacity", "resize", "rresize", "linearize_or_rotate"};
        if ((op == 16 || op == 17 || op == 18) && R(3)) op = R(2);
        if (op == 19 || op == 20) n = R(m.cap + 2) + (R(6) ? 0 : 3);
        snprintf(nm, sizeof nm, "%s(%zu,%zu)%s", names[op], pos, n, g_countdown >= 0 ? "!" : "");
        log += std::string(log.empty() ? "" : " ") + nm;
        snprintf(g_case, sizeof g_case, "%shistory seed=%u capacity=%zu min=%zu kind=%d: %.3000s", SO ? "space_optimized " : "", seed, cap, mn, KIND, log.size() > 2900 ? log.c_str() + (log.size() - 2900) : log.c_str());
        std::size_t z = pos + R(m.seq.size() - pos + 1);
        std::size_t nc = R(m.cap + 4), nmn = SO ? R(nc + 1) : 0;
        bool thrown = false, done = true, rv = R(2) != 0, full = m.seq.size() == m.cap;
        long ret = -1, got = -1;
        g_armed = true;
        g_mark = g_serial;
        g_work = 0;
        try {
            switch (op) {
            case 0: P = F("C02"); w = m_push_back(m, ov); if (rv) b->push_back(std::move(one)); else b->push_back(one); break;
            case 1: P = F("C02"); w = m_push_front(m, ov); if (rv) b->push_front(std::move(one)); else b->push_front(one); break;
            case 2: P = F("C02"); removal = true; if (m.seq.empty()) { done = false; break; } w = m_erase(m, m.seq.size() - 1, m.seq.size()); b->pop_back(); break;
            case 3: P = F("C02"); removal = true; if (m.seq.empty()) { done = false; break; } w = m_erase(m, 0, 1); b->pop_front(); break;
            case 4: P = F("C03"); w = m_insert(m, pos, Seq(1, ov), k); ret = full ? (pos ? (long) pos - 1 : 0) : (long) pos; got = ix(*b, rv ? b->insert(at_(*b, pos), std::move(one)) : b->insert(at_(*b, pos), one)); break;
            case 5: P = F("C04"); w = m_rinsert(m, pos, Seq(1, ov), k); ret = (long) pos; got = ix(*b, rv ? b->rinsert(at_(*b, pos), std::move(one)) : b->rinsert(at_(*b, pos), one)); break;
            case 6: P = F("C03"); w = m_insert(m, pos, Seq(n, ov), k); b->insert(at_(*b, pos), n, one); break;
            case 7: P = F("C04"); w = m_rinsert(m, pos, Seq(n, ov), k); b->rinsert(at_(*b, pos), n, one); break;
            case 8: P = F("C03"); w = m_insert(m, pos, sv, k); b->insert(at_(*b, pos), items.data(), items.data() + n); break;
            case 9: P = F("C04"); w = m_rinsert(m, pos, sv, k); b->rinsert(at_(*b, pos), items.data(), items.data() + n); break;
            case 10: P = F("C03"); w = m_insert(m, pos, sv, k); b->insert(at_(*b, pos), in, out); break;
            case 11: P = F("C04"); w = m_rinsert(m, pos, sv, k); b->rinsert(at_(*b, pos), in, out); break;
            case 12: P = F("C05"); removal = true; if (pos == m.seq.size()) { done = false; break; } w = m_erase(m, pos, pos + 1); ret = (long) pos; got = ix(*b, b->erase(at_(*b, pos))); break;
            case 13: P = F("C05"); removal = true; if (pos == m.seq.size()) { done = false; break; } w = m_erase(m, pos, pos + 1); ret = pos ? (long) pos - 1 : 0; got = ix(*b, b->rerase(at_(*b, pos))); break;
            case 14: P = F("C05"); removal = true; w = m_erase(m, pos, z); ret = (long) pos; got = ix(*b, b->erase(at_(*b, pos), at_(*b, z))); break;
            case 15: P = F("C05"); removal = true; w = m_erase(m, pos, z); ret = pos == z ? -1 : pos ? (long) pos - 1 : 0; got = ix(*b, b->rerase(at_(*b, pos), at_(*b, z))); break;
            case 16: P = F("C05"); removal = true; w.seq.clear(); b->clear(); break;
            case 17: P = F("C06"); w.cap = nc; w.mn = nmn; if (w.seq.size() > nc) w.seq.resize(nc); b->set_capacity(CC(nc, nmn)); break;
            case 18: P = F("C06"); w.cap = nc; w.mn = nmn; if (w.seq.size() > nc) w.seq.erase(w.seq.begin(), w.seq.end() - nc); b->rset_capacity(CC(nc, nmn)); break;
            case 19: P = F("C06"); w.seq.resize(n, ov); w.cap = std::max(n, m.cap); removal = n <= m.seq.size(); b->resize(n, one); break;
            case 20: P = F("C06"); if (n >= m.seq.size()) w.seq.insert(w.seq.begin(), n - m.seq.size(), ov); else w.seq.erase(w.seq.begin(), w.seq.end() - n); w.cap = std::max(n, m.cap); removal = n <= m.seq.size(); b->rresize(n, one); break;
            case 21: P = F("C08"); if (m.seq.empty() || R(2)) b->linearize(); else { std::size_t q = R(m.seq.size()); std::rotate(w.seq.begin(), w.seq.begin() + q, w.seq.end()); b->rotate(CIt(at_(*b, q))); } break;
            }
        } catch (Fault&) { thrown = true; }
        g_armed = false;
        g_countdown = -1;
        snprintf(g_prop, sizeof g_prop, "%s", thrown ? EXC : P);
        if (thrown) {
            Seq q;
            if (!seq_of(*b, q)) fail(EXC, "after the exception the buffer holds dead elements %s", str(q).c_str());
            if (b->size() > capof(*b)) fail(EXC, "after the exception size is above capacity");
            if ((op == 17 || op == 18) && (q != m.seq || capof(*b) != m.cap || minof(*b) != m.mn)) fail(STRONG, "capacity change that throws is not undone");
            if (op < 2 && !SO && m.seq.size() < m.cap && q != m.seq) fail(STRONG, "push that throws is not undone");
            m.seq = q; m.cap = capof(*b); m.mn = minof(*b);
        } else if (done) {
            compare(*b, w, P, "afterwards");
            if (ret >= 0 && got != ret) fail(P, "returned iterator at index %ld, expected %ld", got, ret);
            m = w;
            bool src_ok = true;
            for (std::size_t i = 0; i < n && i < items.size(); ++i) if (val(items[i]) != sv[i]) src_ok = false;
            if (!src_ok || ((!rv || (op != 0 && op != 1 && op != 4 && op != 5)) && val(one) != ov)) fail("C20", "an argument was modified");
        }
        bounds(*b, "afterwards");
#if SO
        std::size_t ic = b->internal_capacity();
        if (!thrown && done) {
            if (removal && ic < lastic && (ic < minof(*b) || ic < b->size())) fail("C16", "removal shrinks the storage to %zu, below the minimum capacity %zu", ic, minof(*b));
            if (removal && ic > lastic && ic > std::max(minof(*b), b->size())) fail("C16", "removal grows the storage from %zu to %zu", lastic, ic);
            if (ic > lastic && op < 16 && !removal && lastic >= std::max(minof(*b), b->size())) fail("C16", "insertion grows the storage from %zu to %zu for %zu elements", lastic, ic, b->size());
            if (op == 21 && ic != lastic) fail("C16", "the storage changes from %zu to %zu", lastic, ic);
        }
        if (ic > capof(*b)) fail("C16", "the storage (%zu) is above the declared capacity (%zu)", ic, capof(*b));
        lastic = ic;
#else
        (void) removal;
#endif
    }
    snprintf(g_prop, sizeof g_prop, "%s", P_LIFE);
    delete b;
#if KIND != 2
    if (!g_live.empty()) { fail(faults ? EXC : P_LIFE, "elements are leaked"); g_live.clear(); }
#endif
    if (!g_blocks.empty()) { fail(faults ? EXC : P_LIFE, "storage is leaked"); g_blocks.clear(); }
    g_bad = false;
}

static bool any(const char* list) {            // is one of these properties wanted?
    if (g_want.empty()) return true;
    for (const char* p = list; *p; p += 4) { if (g_want.count(std::string(p, 3))) return true; if (!p[3]) break; }
    return false;
}

static void all(std::size_t maxcap, long rnd, unsigned seed) {
    const char* MEM = SO ? "C15 C16 C17 C12 C19 C20 C21" : "C09 C10 C11 C12 C19 C20 C21";
    std::vector<St> st = states(maxcap), few = states(std::min<std::size_t>(maxcap, 3), true);
    bool mem = any(MEM);
    for (std::size_t i = 0; i < st.size(); ++i) {
        const St& s = st[i];
        if (any(SO ? "C15 C22" : "C01 C13 C22")) group([&] { observe(s); });
        if (mem || any("C02")) group([&] { ops_push(s); });
        if (mem || any("C03 C04")) group([&] { ops_insert(s); });
        if (mem || any("C05")) group([&] { ops_erase(s); });
        if (mem || any("C06")) group([&] { ops_capacity(s); });
        if (mem || any("C08")) group([&] { ops_order(s); });
        if ((mem || any("C07")) && s.cap <= 3) group([&] { ops_assign(s, few); });
    }
    // large states, a sample of the operations on each
    {
        std::mt19937 r3(seed * 31 + 7);
        for (long k = 0; k < std::max(6L, rnd / 50); ++k) {
            St s;
            s.cap = 5 + r3() % (k % 2 ? 14 : 60);
            s.mn = SO ? (k % 3 ? r3() % (s.cap / 3 + 1) : r3() % (s.cap + 1)) : 0;
            s.pre = k % 4 == 3 ? 0 : r3() % (2 * s.cap);
            s.size = k % 5 == 0 ? s.cap : r3() % (s.cap + 1);
            s.keep = k % 2 ? s.size + r3() % (s.cap - s.size + 1) : s.size;
            unsigned sd = r3();
            g_srng.seed(sd);
            auto part = [&](const char* props, const std::function<void()>& f, unsigned n) { if (mem || any(props)) group([&] { g_sample = n; f(); }); };
            unsigned c = (unsigned) s.cap;
            part("C02", [&] { ops_push(s); }, 2);
            part("C03 C04", [&] { ops_insert(s); }, std::max(1u, c * c / 12));
            part("C05", [&] { ops_erase(s); }, std::max(1u, c * c / 60));
            part("C06", [&] { ops_capacity(s); }, std::max(1u, SO ? c * c / 20 : c / 5));
            part("C08", [&] { ops_order(s); }, std::max(1u, c / 6));
            part("C07", [&] { ops_assign(s, std::vector<St>(few.begin(), few.begin() + std::min<std::size_t>(few.size(), 12))); }, std::max(1u, c * c / 4));
        }
    }
    if (mem || any("C07")) group([&] { ops_make(maxcap, few); });
    if (any("C14 C22")) group([&] { comparisons(maxcap); });
    std::mt19937 rng(seed);
    if (any("C02 C03 C04 C05 C06 C08") || mem)
        for (long k = 0; k < rnd; k += 25)
            group([&] {
                std::mt19937 r2(seed * 7919 + (unsigned) k);
                for (long j = k; j < k + 25 && j < rnd; ++j) {
                    std::size_t cap = j % 3 == 0 ? 8 + r2() % 60 : r2() % 9, mn = SO ? r2() % (cap + 1) : 0;
                    if (SO && j % 2) mn = r2() % (cap / 4 + 1);
                    history(r2(), cap, mn, 120, j % 2 == 1);
                }
            });
}
