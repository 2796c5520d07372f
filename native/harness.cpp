// Small-scope replay harness: every operation on every small state of the real buffer, with an exception injected at
// every point where one can be thrown, against a reference model.  It looks for concrete failing inputs; the deciding
// step is the verifier (see DESIGN.md).
#define BOOST_CB_TEST
#include "common.hpp"
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <memory>
#include <random>

#ifndef SO
#define SO 0
#endif
#if SO
typedef boost::circular_buffer_space_optimized<Elem, Al> B;
static const char* F(const char*) { return "C15"; }
static const char* EXC = "C17";
static const char* STRONG = "C17";
#else
typedef boost::circular_buffer<Elem, Al> B;
static const char* F(const char* p) { return p; }
static const char* EXC = "C10";
static const char* STRONG = "C11";
#endif
typedef std::vector<int> Seq;
typedef B::iterator It;
typedef B::const_iterator CIt;

struct St { std::size_t cap, mn, pre, size, keep; };   // keep: as many elements were in it before it came down to size
struct Spec { Seq seq; std::size_t cap, mn; };

#if SO
static B::capacity_type CC(std::size_t c, std::size_t m) { return B::capacity_type(c, m); }
static std::size_t capof(const B& b) { return b.capacity().capacity(); }
static std::size_t minof(const B& b) { return b.capacity().min_capacity(); }
#else
static std::size_t CC(std::size_t c, std::size_t) { return c; }
static std::size_t capof(const B& b) { return b.capacity(); }
static std::size_t minof(const B&) { return 0; }
#endif

static B* build(const St& s, unsigned alloc = 1, int base = 1) {
    Al a(alloc);
    B* b = new B(CC(s.cap, s.mn), a);
    for (std::size_t i = 0; i < s.pre; ++i) b->push_back(Elem(0));
    while (!b->empty()) b->pop_front();
    for (std::size_t i = s.size; i < s.keep; ++i) b->push_back(Elem(0));
    for (std::size_t i = 0; i < s.size; ++i) b->push_back(Elem(base + (int) i));
    for (std::size_t i = s.size; i < s.keep; ++i) b->pop_front();
    return b;
}
static Spec spec(const St& s, int base = 1) {
    Spec p;
    p.cap = s.cap; p.mn = s.mn;
    for (std::size_t i = 0; i < s.size; ++i) p.seq.push_back(base + (int) i);
    return p;
}

struct Env {
    std::vector<Elem> items;
    Elem one;
    Src src;
    B* other;
    unsigned seed;
    explicit Env(std::size_t n) : one(100), other(0) {
        items.reserve(n);
        for (std::size_t i = 0; i < n; ++i) items.emplace_back(100 + (int) i);
        src.cur = items.data(); src.stop = items.data() + n; src.reads = 0;
    }
    const Elem* f() const { return items.data(); }
    const Elem* l() const { return items.data() + items.size(); }
    InIt in() { InIt i = {&src, false}; return i; }
    InIt out() { InIt i = {&src, true}; return i; }
};

// what an operation may copy or move
enum { COPY_NONE, COPY_ANY };
struct Exp {
    Spec s;
    const char* prop;
    long ret = -1;
    bool strong = false;
    bool len = false;          // std::length_error and nothing changes
    bool noalloc = !SO;        // neither acquires nor releases storage
    bool capfix = true;        // capacity is kept when an exception escapes
    int copy = COPY_NONE;
    bool constant = false;
    bool rvalue = false;       // the argument env.one is given away
    bool anyfault = true;      // exceptions may escape
    std::size_t taken = 0;
    std::vector<std::pair<std::size_t, std::size_t> > stay;
    bool minimum = false;      // the minimum capacity is allocated afterwards
    long exact = -1;           // SO: how many elements the storage holds afterwards
    Exp(const Spec& x, const char* p) : s(x), prop(F(p)) {}
};

static std::string str(const Seq& s) {
    std::string r = "[";
    for (std::size_t i = 0; i < s.size(); ++i) r += (i ? " " : "") + std::to_string(s[i]);
    return r + "]";
}

static bool seq_of(const B& b, Seq& out) {
    out.clear();
    std::size_t n = b.size();
    if (n > 100000) return false;
    std::size_t k = 0;
    for (CIt i = b.begin(); i != b.end(); ++i, ++k) {
        if (k > n + 2) return false;
        if (!alive(&*i)) return false;
        out.push_back(val(*i));
    }
    return out.size() == n;
}

static bool in_old_block(const void* p) { const Block* k = block_of(p); return k && k->serial < g_mark; }
static bool copy_ok_nm(const void* p) { return block_of(p) == 0; }
static bool copy_ok_src(const void* p) { return true; }
static bool move_ok_tm(const void* p) { return !in_old_block(p); }

static std::size_t live_count() {
#if KIND != 2
    return g_live.size();
#else
    return 0;
#endif
}

static void bounds(const B& b, const char* when) {
#if SO
    std::size_t ic = b.internal_capacity();
    if (ic > capof(b)) fail("C16", "%s: internal capacity %zu above the declared capacity %zu", when, ic, capof(b));
    if (ic < b.size()) fail("C16", "%s: internal capacity %zu below size %zu", when, ic, b.size());
    if (b.size() > capof(b)) fail("C15", "%s: size above the declared capacity", when);
    (void) when;
#endif
    const Block* k = b.size() ? block_of(&*b.begin()) : 0;
#if SO
    if (k && k->n != ic) fail("C21", "%s: the storage has %zu elements, internal capacity is %zu", when, k->n, ic);
    if (k && k->id != b.get_allocator().id) fail("C21", "%s: storage of another allocator", when);
#else
    if (k && k->n != b.capacity()) fail("C21", "%s: the storage has %zu elements, capacity is %zu", when, k->n, b.capacity());
    if (k && k->id != b.get_allocator().id) fail("C21", "%s: storage of another allocator", when);
#endif
    if (b.size() && !k) fail(P_LIFE, "%s: elements outside allocated storage", when);
}

static void compare(const B& b, const Spec& s, const char* prop, const char* when) {
    Seq q;
    bool ok = seq_of(b, q);
    if (!ok || q != s.seq) fail(prop, "%s: elements %s%s, expected %s", when, str(q).c_str(), ok ? "" : " (invalid)", str(s.seq).c_str());
    if (capof(b) != s.cap) fail(prop, "%s: capacity %zu, expected %zu", when, capof(b), s.cap);
    if (minof(b) != s.mn) fail(prop, "%s: minimum capacity %zu, expected %zu", when, minof(b), s.mn);
    if (b.full() != (s.seq.size() == s.cap) || b.reserve() != s.cap - s.seq.size() || b.empty() != s.seq.empty() || b.size() != s.seq.size())
        fail(prop, "%s: size/full/reserve/empty do not fit", when);
}

// the buffer still works: append until everything has been replaced, then remove
static void probe(B& b, const char* prop, const char* when) {
    Seq m;
    if (!seq_of(b, m)) return;
    std::size_t cap = capof(b);
    if (cap > 64) return;
    for (std::size_t i = 0; i < cap + 1; ++i) {
        b.push_back(Elem(900 + (int) i));
        if (cap) {
            if (m.size() == cap) m.erase(m.begin());
            m.push_back(900 + (int) i);
        }
        Seq q;
        if (!seq_of(b, q) || q != m) { fail(prop, "%s, then push_back %zu times: %s, expected %s", when, i + 1, str(q).c_str(), str(m).c_str()); return; }
    }
    while (!b.empty()) {
        b.pop_front();
        m.erase(m.begin());
        Seq q;
        if (!seq_of(b, q) || q != m) { fail(prop, "%s, then pop_front: %s, expected %s", when, str(q).c_str(), str(m).c_str()); return; }
    }
}

// in large states only one of g_sample operations is tried
static unsigned g_sample = 0;
static std::mt19937 g_srng(1);

typedef std::function<long(B&, Env&)> Act;

static void text(const char* name, const St& st, const St* st2, long k) {
    int n = snprintf(g_case, sizeof g_case, "%s%s, element kind %d: capacity=%zu", SO ? "space_optimized " : "", name, KIND, st.cap);
    if (SO) n += snprintf(g_case + n, sizeof g_case - n, " min=%zu", st.mn);
    n += snprintf(g_case + n, sizeof g_case - n, " pushed and popped before=%zu elements=%s", st.pre, str(spec(st).seq).c_str());
    if (st.keep > st.size) n += snprintf(g_case + n, sizeof g_case - n, " after %zu of %zu were popped", st.keep - st.size, st.keep);
    if (st2) n += snprintf(g_case + n, sizeof g_case - n, "; other: capacity=%zu min=%zu pre=%zu size=%zu", st2->cap, st2->mn, st2->pre, st2->size);
    if (k >= 0) snprintf(g_case + n, sizeof g_case - n, "; exception injected at point %ld", k);
}

struct OtherExp { bool present = false; Spec s; bool moved = false; };

static void test(const char* name, const St& st, const St* st2, std::size_t nitems, const Act& act, const Exp& e, const OtherExp* oe = 0) {
    if (g_sample && g_srng() % g_sample) return;
    ++g_cases;
    for (long k = -1;; k += g_sample && k >= 0 ? 1 + g_srng() % (2 + k / 4) : 1) {
        ++g_runs;
        g_bad = false;
        text(name, st, st2, k);
        snprintf(g_prop, sizeof g_prop, "%s", e.prop);
        watchdog(8);
        B* b = build(st);
        Env env(nitems);
        if (st2) env.other = build(*st2, 2, 50);
        std::vector<const void*> addr;
        for (std::size_t i = 0; i < b->size(); ++i) addr.push_back(&(*b)[i]);
        Seq before, obefore;
        seq_of(*b, before);
        std::size_t cap0 = capof(*b), mn0 = minof(*b);
        if (env.other) seq_of(*env.other, obefore);
        std::vector<const void*> oaddr;
        if (env.other) for (std::size_t i = 0; i < env.other->size(); ++i) oaddr.push_back(&(*env.other)[i]);
        std::size_t envlive = live_count() - b->size() - (env.other ? env.other->size() : 0);
        g_mark = g_serial;
        long al0 = g_allocs, de0 = g_deallocs;
        g_work = g_copies = g_moves = 0;
#if KIND == 0 || KIND == 5
        g_copy_ok = e.copy == COPY_ANY ? copy_ok_src : copy_ok_nm;
#elif KIND == 1 || KIND == 4
        g_move_ok = move_ok_tm;
#endif
        g_countdown = k; g_fired = false; g_armed = true;
        long ret = -2;
        enum { NONE, FAULT, LEN, ALLOC, OTHER } thrown = NONE;
        try { ret = act(*b, env); }
        catch (Fault&) { thrown = FAULT; }
        catch (std::length_error&) { thrown = LEN; }
        catch (std::bad_alloc&) { thrown = ALLOC; }
        catch (std::exception&) { thrown = OTHER; }
        g_armed = false;
#if KIND == 0 || KIND == 5
        g_copy_ok = 0;
#elif KIND == 1 || KIND == 4
        g_move_ok = 0;
#endif
        bool fired = g_fired;
        long work = g_work;
        if (fired) ++g_faults;
        snprintf(g_prop, sizeof g_prop, "%s", fired ? EXC : P_LIFE);
        bool ownarg = e.rvalue;
        // arguments are not modified
#if KIND != 2
        if (!ownarg && (!alive(&env.one) || val(env.one) != 100)) fail("C20", "the argument was modified");
#endif
        for (std::size_t i = 0; i < env.items.size(); ++i)
            if (val(env.items[i]) != 100 + (int) i) fail("C20", "the source range was modified");
        if (thrown == NONE) {
            if (fired) fail(EXC, "the exception does not reach the caller");
            else if (e.len) fail(e.prop, "std::length_error is not thrown");
            else {
                snprintf(g_prop, sizeof g_prop, "%s", e.prop);
                compare(*b, e.s, e.prop, "afterwards");
                if (e.ret >= 0 && ret != e.ret) fail(e.prop, "returned iterator at index %ld, expected %ld", ret, e.ret);
                snprintf(g_prop, sizeof g_prop, "%s", P_LIFE);
                bounds(*b, "afterwards");
#if SO
                if (e.minimum && b->internal_capacity() < minof(*b)) fail("C16", "the storage (%zu) is below the minimum capacity %zu", b->internal_capacity(), minof(*b));
                if (SO && e.exact >= 0 && (long) b->internal_capacity() != e.exact) fail("C16", "the storage holds %zu elements instead of %ld", b->internal_capacity(), e.exact);
#endif
                std::size_t ol = env.other ? env.other->size() : 0;
                if (KIND != 2 && live_count() != b->size() + ol + envlive) fail(P_LIFE, "%zu elements are alive, the buffers hold %zu", live_count() - envlive, b->size() + ol);
                if (e.noalloc && (g_allocs != al0 || g_deallocs != de0)) fail("C12", "storage was acquired or released");
                for (std::size_t i = 0; i < e.stay.size(); ++i)
                    if (e.stay[i].first < addr.size() && e.stay[i].second < b->size() && &(*b)[e.stay[i].second] != addr[e.stay[i].first])
                        fail("C12", "element %zu (now %zu) changed its address", e.stay[i].first, e.stay[i].second);
                long lim = e.constant ? 8 : 8 + 8 * (long) (cap0 < 1000 ? cap0 : before.size()) + 8 * (long) (e.s.cap < 1000 ? e.s.cap : e.s.seq.size()) + 6 * (long) e.taken;
                if (work > lim) fail("C19", "%ld element operations, expected at most %ld", work, lim);
                if (oe && oe->present) {
                    compare(*env.other, oe->s, e.prop, "the other buffer afterwards");
                    bounds(*env.other, "the other buffer afterwards");
                    if (oe->moved)
                        for (std::size_t i = 0; i < oaddr.size() && i < b->size(); ++i)
                            if (&(*b)[i] != oaddr[i]) { fail("C12", "an element changed its address when its buffer was moved"); break; }
                }
                probe(*b, e.prop, "afterwards");
                if (env.other) probe(*env.other, e.prop, "the other buffer afterwards");
            }
        } else {
            if (thrown == LEN && !e.len) fail(e.prop, "std::length_error is thrown");
            else if (thrown == OTHER) fail(e.prop, "an unexpected exception is thrown");
            else if (thrown == FAULT && !e.anyfault) fail(EXC, "an exception escapes an operation that does not throw");
            Seq q;
            bool ok = seq_of(*b, q);
            if (!ok) fail(EXC, "after the exception the buffer of size %zu holds dead elements %s", b->size(), str(q).c_str());
            if (b->size() > capof(*b)) fail(EXC, "after the exception size is above capacity");
            std::size_t ol = env.other ? env.other->size() : 0;
            if (KIND != 2 && live_count() != b->size() + ol + envlive) fail(EXC, "after the exception %zu elements are alive, the buffers hold %zu", live_count() - envlive, b->size() + ol);
            if (SO) {
#if SO
                if (b->internal_capacity() > capof(*b)) fail("C17", "after the exception the storage (%zu) is above the declared capacity (%zu)", b->internal_capacity(), capof(*b));
#endif
            }
            bounds(*b, "after the exception");
            if (e.capfix && capof(*b) != cap0) fail(EXC, "after the exception capacity is %zu, was %zu", capof(*b), cap0);
            if (thrown != FAULT || e.strong) {
                bool same = ok && q == before && capof(*b) == cap0 && minof(*b) == mn0;
                const char* p = thrown == LEN ? e.prop : STRONG;
                if (thrown == ALLOC && !e.strong) same = true;
                if (!same) fail(p, "after the exception: elements %s capacity %zu, before %s capacity %zu", str(q).c_str(), capof(*b), str(before).c_str(), cap0);
                else if (e.strong && b->size() == addr.size())
                    for (std::size_t i = 0; i < addr.size(); ++i)
                        if (&(*b)[i] != addr[i]) { fail(p, "after the exception an element changed its address"); break; }
            }
            if (env.other) {
                Seq oq;
                if (!seq_of(*env.other, oq) || oq != obefore) fail(STRONG, "after the exception the source buffer holds %s", str(oq).c_str());
            }
            if (ok) probe(*b, EXC, "after the exception");
        }
        snprintf(g_prop, sizeof g_prop, "%s", fired ? EXC : P_LIFE);
        delete b;
        delete env.other;
        env.other = 0;
        if (!g_blocks.empty()) { fail(fired ? EXC : P_LIFE, "storage is leaked"); fail("C21", "storage is leaked"); g_blocks.clear(); }
#if KIND != 2
        if (KIND != 2 && live_count() != envlive) { fail(fired ? EXC : P_LIFE, "elements are leaked"); }
#endif
        if (g_bad || (k >= 0 && !fired) || k > 400) {
#if KIND != 2
            if (g_bad) { env.items.clear(); g_live.clear(); g_live.insert(&env.one); }
#endif
            break;
        }
    }
}

typedef std::function<B*(Env&)> Make;
static void test_make(const char* name, const St* st2, std::size_t nitems, const Make& mk, const Exp& e, unsigned aid, const OtherExp* oe = 0) {
    ++g_cases;
    for (long k = -1;; ++k) {
        ++g_runs;
        g_bad = false;
                int n = snprintf(g_case, sizeof g_case, "%s%s, element kind %d, %zu items", SO ? "space_optimized " : "", name, KIND, nitems);
        if (st2) n += snprintf(g_case + n, sizeof g_case - n, "; other: capacity=%zu min=%zu pre=%zu size=%zu", st2->cap, st2->mn, st2->pre, st2->size);
        if (k >= 0) snprintf(g_case + n, sizeof g_case - n, "; exception injected at point %ld", k);
        snprintf(g_prop, sizeof g_prop, "%s", e.prop);
        watchdog(8);
        Env env(nitems);
        if (st2) env.other = build(*st2, 2, 50);
        Seq obefore;
        if (env.other) seq_of(*env.other, obefore);
        std::vector<const void*> oaddr;
        if (env.other) for (std::size_t i = 0; i < env.other->size(); ++i) oaddr.push_back(&(*env.other)[i]);
        std::size_t envlive = live_count() - (env.other ? env.other->size() : 0);
        std::size_t blocks0 = g_blocks.size();
        g_mark = g_serial;
        long al0 = g_allocs;
        g_work = g_copies = g_moves = 0;
#if KIND == 0 || KIND == 5
        g_copy_ok = e.copy == COPY_ANY ? copy_ok_src : copy_ok_nm;
#elif KIND == 1 || KIND == 4
        g_move_ok = move_ok_tm;
#endif
        g_countdown = k; g_fired = false; g_armed = true;
        B* b = 0;
        enum { NONE, FAULT, LEN, ALLOC, OTHER } thrown = NONE;
        try { b = mk(env); }
        catch (Fault&) { thrown = FAULT; }
        catch (std::length_error&) { thrown = LEN; }
        catch (std::bad_alloc&) { thrown = ALLOC; }
        catch (std::exception&) { thrown = OTHER; }
        g_armed = false;
#if KIND == 0 || KIND == 5
        g_copy_ok = 0;
#elif KIND == 1 || KIND == 4
        g_move_ok = 0;
#endif
        bool fired = g_fired;
        if (fired) ++g_faults;
        snprintf(g_prop, sizeof g_prop, "%s", fired ? EXC : P_LIFE);
        for (std::size_t i = 0; i < env.items.size(); ++i)
            if (val(env.items[i]) != 100 + (int) i) fail("C20", "the source range was modified");
        if (thrown == NONE) {
            if (fired) fail(EXC, "the exception does not reach the caller");
            else if (e.len) fail(e.prop, "std::length_error is not thrown");
            else {
                snprintf(g_prop, sizeof g_prop, "%s", e.prop);
                compare(*b, e.s, e.prop, "afterwards");
                snprintf(g_prop, sizeof g_prop, "%s", P_LIFE);
                bounds(*b, "afterwards");
#if SO
                if (e.minimum && b->internal_capacity() < minof(*b)) fail("C16", "the storage (%zu) is below the minimum capacity %zu", b->internal_capacity(), minof(*b));
                if (SO && e.exact >= 0 && (long) b->internal_capacity() != e.exact) fail("C16", "the storage holds %zu elements instead of %ld", b->internal_capacity(), e.exact);
#endif
                std::size_t ol = env.other ? env.other->size() : 0;
                if (KIND != 2 && live_count() != b->size() + ol + envlive) fail(P_LIFE, "%zu elements are alive, the buffers hold %zu", live_count() - envlive, b->size() + ol);
                if (b->get_allocator().id != aid) fail("C21", "the buffer has allocator %u, expected %u", b->get_allocator().id, aid);
                if (e.constant && g_work > 0) fail("C19", "elements are touched");
                if (e.constant && g_allocs != al0) fail("C12", "storage is allocated");
                if (g_work > 8 + 8 * (long) (e.s.cap < 1000 ? e.s.cap : e.s.seq.size()) + 6 * (long) nitems + 8 * (long) ol) fail("C19", "%ld element operations", g_work);
                if (oe && oe->present) {
                    compare(*env.other, oe->s, e.prop, "the other buffer afterwards");
                    if (oe->moved)
                        for (std::size_t i = 0; i < oaddr.size() && i < b->size(); ++i)
                            if (&(*b)[i] != oaddr[i]) { fail("C12", "an element changed its address when its buffer was moved"); break; }
                }
                probe(*b, e.prop, "afterwards");
                if (env.other) probe(*env.other, e.prop, "the other buffer afterwards");
            }
        } else {
            if (thrown == LEN && !e.len) fail(e.prop, "std::length_error is thrown");
            if (thrown == OTHER) fail(e.prop, "an unexpected exception is thrown");
            if (thrown == FAULT && !e.anyfault) fail(EXC, "an exception escapes an operation that does not throw");
            std::size_t ol = env.other ? env.other->size() : 0;
            if (KIND != 2 && live_count() != ol + envlive) fail(EXC, "a throwing constructor leaks elements");
            if (g_blocks.size() != blocks0) fail(EXC, "a throwing constructor leaks storage");
            if (env.other) {
                Seq oq;
                if (!seq_of(*env.other, oq) || oq != obefore) fail(STRONG, "after the exception the source buffer holds %s", str(oq).c_str());
            }
        }
        delete b;
        delete env.other;
        env.other = 0;
        if (!g_blocks.empty()) { fail(fired ? EXC : P_LIFE, "storage is leaked"); fail("C21", "storage is leaked"); g_blocks.clear(); }
        if (KIND != 2 && live_count() != envlive) fail(fired ? EXC : P_LIFE, "elements are leaked");
        if (g_bad || (k >= 0 && !fired) || k > 400) {
#if KIND != 2
            if (g_bad) { env.items.clear(); g_live.clear(); g_live.insert(&env.one); }
#endif
            break;
        }
    }
}

// ---------------------------------------------------------------- reference model
static Spec m_push_back(Spec s, int v) {
    if (s.cap == 0) return s;
    if (s.seq.size() == s.cap) s.seq.erase(s.seq.begin());
    s.seq.push_back(v);
    return s;
}
static Spec m_push_front(Spec s, int v) {
    if (s.cap == 0) return s;
    if (s.seq.size() == s.cap) s.seq.pop_back();
    s.seq.insert(s.seq.begin(), v);
    return s;
}
static Spec m_insert(Spec s, std::size_t pos, const Seq& items, std::size_t& evicted) {
    std::size_t room = pos + (s.cap - s.seq.size()), take = std::min(items.size(), room);
    s.seq.insert(s.seq.begin() + pos, items.end() - take, items.end());
    evicted = s.seq.size() > s.cap ? s.seq.size() - s.cap : 0;
    s.seq.erase(s.seq.begin(), s.seq.begin() + evicted);
    return s;
}
static Spec m_rinsert(Spec s, std::size_t pos, const Seq& items, std::size_t& take) {
    std::size_t room = (s.seq.size() - pos) + (s.cap - s.seq.size());
    take = std::min(items.size(), room);
    s.seq.insert(s.seq.begin() + pos, items.begin(), items.begin() + take);
    if (s.seq.size() > s.cap) s.seq.resize(s.cap);
    return s;
}
static Spec m_erase(Spec s, std::size_t a, std::size_t b) {
    s.seq.erase(s.seq.begin() + a, s.seq.begin() + b);
    return s;
}
static Seq range(std::size_t n, int base = 100) {
    Seq r;
    for (std::size_t i = 0; i < n; ++i) r.push_back(base + (int) i);
    return r;
}

#include "ops.hpp"

int main(int argc, char** argv) {
    signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGPROF, on_signal);
    if (SO) { P_LIFE = "C17"; }
    std::size_t maxcap = 4;
    long rnd = 200;
    unsigned seed = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 6, "props=") == 0) {
            std::string p = a.substr(6);
            for (std::size_t k = 0; k < p.size(); k += 4) g_want.insert(p.substr(k, 3));
        } else if (a.compare(0, 4, "cap=") == 0) maxcap = std::strtoul(argv[i] + 4, 0, 10);
        else if (a.compare(0, 4, "rnd=") == 0) rnd = std::strtol(argv[i] + 4, 0, 10);
        else if (a.compare(0, 5, "seed=") == 0) seed = (unsigned) std::strtoul(argv[i] + 5, 0, 10);
    }
    all(maxcap, rnd, seed);
    printf("DONE cases=%ld runs=%ld faults=%ld\n", g_cases, g_runs, g_faults);
    int bad = g_sh->crashes;
    for (int i = 0; i < 64; ++i) bad += g_sh->reported[i];
    return bad ? 1 : 0;
}
