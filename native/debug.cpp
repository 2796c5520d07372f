// Small-scope replay harness for iterator debugging (BOOST_CB_ENABLE_DEBUG): every operation on every small state, with
// iterators at every position; afterwards exactly those the documentation names must be invalid.
#define BOOST_CB_ENABLE_DEBUG 1
#define BOOST_ENABLE_ASSERT_HANDLER
#include "common.hpp"
struct Assertion {};
static bool g_expect;                          // an assertion is what the case is after
namespace boost {
void assertion_failed(char const* expr, char const*, char const*, long) {
    if (g_expect) throw Assertion();
    fail("C18", "assertion in valid use: %s", expr);
    fflush(stdout);
    _exit(0);
}
void assertion_failed_msg(char const* expr, char const*, char const* f, char const* n, long l) { assertion_failed(expr, f, n, l); }
}
#include <boost/circular_buffer.hpp>
#include <algorithm>
#include <memory>
#include <random>
#ifndef SO
#define SO 0
#endif
#if SO
typedef boost::circular_buffer_space_optimized<Elem, Al> B;
static B::capacity_type CC(std::size_t c, std::size_t m = 0) { return B::capacity_type(c, m); }
#else
typedef boost::circular_buffer<Elem, Al> B;
static std::size_t CC(std::size_t c, std::size_t = 0) { return c; }
#endif
typedef B::iterator It;
typedef B::const_iterator CIt;
typedef boost::circular_buffer<Elem, Al> Base;

struct St { std::size_t cap, pre, size; };
static B* build(const St& s) {
    B* b = new B(CC(s.cap), Al(1));
    for (std::size_t i = 0; i < s.pre; ++i) b->push_back(Elem(0));
    while (!b->empty()) b->pop_front();
    for (std::size_t i = 0; i < s.size; ++i) b->push_back(Elem(1 + (int) i));
    return b;
}
static const Base* reg(const B* b) { return b; }

// which iterators (index 0..size, size: end()) stay valid
typedef std::function<bool(std::size_t)> Keep;
typedef std::function<void(B&, B&, std::vector<Elem>&)> Act;

static void test(const char* name, const St& s, const Act& act, const Keep& keep, bool endkept = true, bool twobuf = false) {
    ++g_cases; ++g_runs;
    g_bad = false;
    snprintf(g_case, sizeof g_case, "debug %s%s, element kind %d: capacity=%zu pushed and popped before=%zu size=%zu", SO ? "space_optimized " : "", name, KIND, s.cap, s.pre, s.size);
    snprintf(g_prop, sizeof g_prop, "C18");
    watchdog(8);
    B* b = build(s);
    St os = {3, 1, 2};
    B* o = build(os);
    std::vector<Elem> items;
    items.reserve(8);
    for (int i = 0; i < 8; ++i) items.emplace_back(100 + i);
    {
        // in two orders of registration, mixed with copies that die before
        std::vector<It> its;
        std::vector<CIt> cits;
        its.reserve(64); cits.reserve(64);
        for (std::size_t i = 0; i <= s.size; ++i) {
            its.push_back(b->begin() + i);
            { It dead = its.back(); CIt dead2 = dead; It other; other = dead; dead = b->end(); }
            cits.push_back(its.back());
        }
        for (std::size_t i = s.size + 1; i-- > 0;) cits.push_back(((const B*) b)->begin() + i);
        It oit = o->begin();
        It pos_dummy;
        std::vector<int> vals;
        for (std::size_t i = 0; i < s.size; ++i) vals.push_back(val((*b)[i]));
        act(*b, *o, items);
        for (std::size_t i = 0; i <= s.size; ++i) {
            bool want = i == s.size ? endkept : keep(i);
            for (int k = 0; k < 3; ++k) {
                bool is = k == 0 ? its[i].is_valid(reg(b)) : k == 1 ? cits[i].is_valid(reg(b)) : cits[s.size + 1 + (s.size - i)].is_valid(reg(b));
                if (is != want) fail("C18", "the iterator at %zu%s is %s", i, i == s.size ? " (end)" : "", is ? "valid" : "invalid");
                if (!is && want == is && i < s.size) {
                    g_expect = true;
                    bool hit = false;
                    try { if (k == 0) *its[i]; else *cits[i]; } catch (Assertion&) { hit = true; }
                    g_expect = false;
                    if (!hit) fail("C18", "using the invalid iterator at %zu is not detected", i);
                }
                if (is && want && i < s.size && k == 0 && s.size) (void) *its[i];
            }
        }
        if (!twobuf && !oit.is_valid(reg(o))) fail("C18", "an iterator of another buffer became invalid");
        if (twobuf && oit.is_valid(reg(o))) fail("C18", "the iterator of the other buffer is still valid");
        // the chain of iterators is intact: new ones can be registered, copied and destroyed, and found again
        for (int k = 0; k < 3; ++k) {
            It n1 = b->begin(), n2 = b->end(), n3 = n1;
            CIt n4 = n3, n5;
            n5 = n2;
            if (!n1.is_valid(reg(b)) || !n2.is_valid(reg(b)) || !n3.is_valid(reg(b)) || !n4.is_valid(reg(b)) || !n5.is_valid(reg(b))) fail("C18", "a new iterator is not valid");
            n5 = ((const B*) o)->begin();
            if (n5.is_valid(reg(b)) || !n5.is_valid(reg(o))) fail("C18", "an iterator assigned from another buffer");
            n1 = n2;
        }
        for (CIt i = b->begin(); i != b->end(); ++i) (void) *i;
    }
    // whole destruction invalidates everything, in any order of destruction
    {
        It* a = new It(b->begin());
        It* e = new It(b->end());
        const Base* r = reg(b);
        delete b;
        if (a->is_valid(r) || e->is_valid(r)) fail("C18", "an iterator survives the destruction of its buffer");
        delete a;
        delete e;
    }
    delete o;
    if (!g_blocks.empty()) { fail("C18", "storage is leaked"); g_blocks.clear(); }
}

static void one_state(const St& s) {
    std::size_t n = s.size;
    bool full = n == s.cap;
    Keep all = [](std::size_t) { return true; }, none = [](std::size_t) { return false; };
    char nm[120];
#define T(name, keep, ...) test(name, s, [=](B& b, B& o, std::vector<Elem>& v) { (void) o; (void) v; (void) b; __VA_ARGS__; }, SO ? none : Keep(keep))
    Keep notfirst = [=](std::size_t i) { return !full || i != 0; }, notlast = [=](std::size_t i) { return !full || i + 1 != n; };
    test("observers", s, [=](B& b, B&, std::vector<Elem>&) {
        const B& c = b;
        b.begin(); b.end(); c.begin(); c.end(); b.rbegin(); c.rend(); b.size(); b.full(); b.reserve(); b.capacity(); b.is_linearized(); b.array_one(); b.array_two(); c.array_one();
        if (!b.empty()) { b.front(); b.back(); b[0]; b.at(0); c[0]; }
        (void) (b == c); (void) (b < c);
        for (CIt i = c.begin(); i != c.end(); ++i) { CIt j = i; ++j; --j; (void) (j - i); (void) (i < j); (void) (i + 1); }
    }, all);
    T("push_back(lvalue)", notfirst, b.push_back(v[0]));
    T("push_back(rvalue)", notfirst, b.push_back(std::move(v[0])));
    T("push_back()", notfirst, b.push_back());
    T("push_front(lvalue)", notlast, b.push_front(v[0]));
    T("push_front(rvalue)", notlast, b.push_front(std::move(v[0])));
    T("push_front()", notlast, b.push_front());
    if (n) {
        T("pop_back()", [=](std::size_t i) { return i + 1 != n; }, b.pop_back());
        T("pop_front()", [=](std::size_t i) { return i != 0; }, b.pop_front());
    }
    for (std::size_t p = 0; p <= n; ++p) {
        bool nop = full && p == 0, rnop = full && p == n;
        Keep ins = [=](std::size_t i) { return nop || (i < p && !(full && i == 0)); };
        Keep rin = [=](std::size_t i) { return rnop || (i >= p && !(full && i + 1 == n)); };
        snprintf(nm, sizeof nm, "insert(%zu, lvalue)", p); T(nm, ins, b.insert(b.begin() + p, v[0]));
        snprintf(nm, sizeof nm, "insert(%zu, rvalue)", p); T(nm, ins, b.insert(b.begin() + p, std::move(v[0])));
        snprintf(nm, sizeof nm, "insert(%zu)", p); T(nm, ins, b.insert(b.begin() + p));
        snprintf(nm, sizeof nm, "rinsert(%zu, lvalue)", p); T(nm, rin, b.rinsert(b.begin() + p, v[0]));
        snprintf(nm, sizeof nm, "rinsert(%zu, rvalue)", p); T(nm, rin, b.rinsert(b.begin() + p, std::move(v[0])));
        snprintf(nm, sizeof nm, "rinsert(%zu)", p); T(nm, rin, b.rinsert(b.begin() + p));
        for (std::size_t k = 0; k <= s.cap + 1 && k <= 8; ++k) {
            std::size_t take = std::min(k, p + (s.cap - n)), con = std::min(take, s.cap - n), ev = take - con;
            Keep im = [=](std::size_t i) { return take == 0 || (i < p && i >= ev); };
            std::size_t rtake = std::min(k, s.cap - p), rcon = std::min(rtake, s.cap - n), rev = rtake - rcon;
            Keep rm = [=](std::size_t i) { return rtake == 0 || (i >= p && i + rev < n); };
            snprintf(nm, sizeof nm, "insert(%zu, %zu, item)", p, k); T(nm, im, b.insert(b.begin() + p, k, v[0]));
            snprintf(nm, sizeof nm, "insert(%zu, range of %zu)", p, k); T(nm, im, b.insert(b.begin() + p, v.data(), v.data() + k));
            snprintf(nm, sizeof nm, "rinsert(%zu, %zu, item)", p, k); T(nm, rm, b.rinsert(b.begin() + p, k, v[0]));
            snprintf(nm, sizeof nm, "rinsert(%zu, range of %zu)", p, k); T(nm, rm, b.rinsert(b.begin() + p, v.data(), v.data() + k));
            snprintf(nm, sizeof nm, "insert(%zu, single-pass range of %zu)", p, k);
            T(nm, im, { Src z = {v.data(), v.data() + k, 0}; b.insert(b.begin() + p, InIt{&z, false}, InIt{&z, true}); });
            snprintf(nm, sizeof nm, "rinsert(%zu, single-pass range of %zu)", p, k);
            T(nm, rm, { Src z = {v.data(), v.data() + k, 0}; b.rinsert(b.begin() + p, InIt{&z, false}, InIt{&z, true}); });
        }
        for (std::size_t q = p; q <= n; ++q) {
            Keep er = [=](std::size_t i) { return p == q || i < p; };
            Keep rr = [=](std::size_t i) { return p == q || i >= q; };
            snprintf(nm, sizeof nm, "erase(%zu, %zu)", p, q); T(nm, er, b.erase(b.begin() + p, b.begin() + q));
            snprintf(nm, sizeof nm, "rerase(%zu, %zu)", p, q); T(nm, rr, b.rerase(b.begin() + p, b.begin() + q));
            if (q == p + 1) {
                snprintf(nm, sizeof nm, "erase(%zu)", p); T(nm, er, b.erase(b.begin() + p));
                snprintf(nm, sizeof nm, "rerase(%zu)", p); T(nm, rr, b.rerase(b.begin() + p));
            }
        }
#if !SO
        snprintf(nm, sizeof nm, "erase_begin(%zu)", p); T(nm, ([=](std::size_t i) { return i >= p; }), b.erase_begin(p));
        snprintf(nm, sizeof nm, "erase_end(%zu)", p); T(nm, ([=](std::size_t i) { return i + p < n; }), b.erase_end(p));
        if (p < n && full) { snprintf(nm, sizeof nm, "rotate(%zu)", p); T(nm, all, b.rotate(CIt(b.begin() + p))); }
        if (p < n && !full) {                  // m elements before, k elements from new_begin on; the fewer ones are moved
            std::size_t before = p, after = n - p;
            snprintf(nm, sizeof nm, "rotate(%zu)", p);
            Keep rk = after < before ? Keep([=](std::size_t i) { return i < before; }) : Keep([=](std::size_t i) { return i >= before; });
            test(nm, s, [=](B& b, B&, std::vector<Elem>&) { b.rotate(CIt(b.begin() + p)); }, rk);
        }
#endif
    }
    test("clear()", s, [](B& b, B&, std::vector<Elem>&) { b.clear(); }, none);
    for (std::size_t c = 0; c <= s.cap + 2; ++c) {
        Keep same = c == s.cap ? all : none;
        snprintf(nm, sizeof nm, "set_capacity(%zu)", c); T(nm, same, b.set_capacity(CC(c)));
        snprintf(nm, sizeof nm, "rset_capacity(%zu)", c); T(nm, same, b.rset_capacity(CC(c)));
        Keep rs = c > s.cap ? none : Keep([=](std::size_t i) { return i < c; });
        Keep rrs = c > s.cap ? none : Keep([=](std::size_t i) { return c >= n || i >= n - c; });
        snprintf(nm, sizeof nm, "resize(%zu)", c); T(nm, rs, b.resize(c, v[0]));
        snprintf(nm, sizeof nm, "rresize(%zu)", c); T(nm, rrs, b.rresize(c, v[0]));
        snprintf(nm, sizeof nm, "assign(%zu, item)", c); T(nm, none, b.assign(c, v[0]));
        snprintf(nm, sizeof nm, "assign(capacity %zu, 0, item)", c); T(nm, none, b.assign(CC(c), 0, v[0]));
        if (c <= 8) { snprintf(nm, sizeof nm, "assign(range of %zu)", c); T(nm, none, b.assign(v.data(), v.data() + c)); }
        for (std::size_t k = 0; k <= 6; k += 3) {
            snprintf(nm, sizeof nm, "assign(capacity %zu, range of %zu)", c, k); T(nm, none, b.assign(CC(c), v.data(), v.data() + k));
            snprintf(nm, sizeof nm, "assign(capacity %zu, single-pass range of %zu)", c, k);
            T(nm, none, { Src z = {v.data(), v.data() + k, 0}; b.assign(CC(c), InIt{&z, false}, InIt{&z, true}); });
            snprintf(nm, sizeof nm, "assign(single-pass range of %zu)", k);
            T(nm, none, { Src z = {v.data(), v.data() + k, 0}; b.assign(InIt{&z, false}, InIt{&z, true}); });
        }
    }
    T("copy assignment", none, b = (const B&) o);
    test("copy assignment of itself", s, [](B& b, B&, std::vector<Elem>&) { const B& c = b; b = c; }, all);
    test("swap", s, [](B& b, B& o, std::vector<Elem>&) { b.swap(o); }, none, false, true);
    test("move assignment", s, [](B& b, B& o, std::vector<Elem>&) { b = std::move(o); }, none, false, true);
#if !SO
    T("linearize()", (s.cap == 0 || n == 0 || (s.pre % s.cap) + n <= s.cap ? all : none), b.linearize());
#endif
#undef T
}

// using a valid iterator is never reported, using an invalid one always is, over long histories of iterators alone
static void chains(unsigned seed) {
    ++g_cases;
    std::mt19937 rng(seed);
    snprintf(g_case, sizeof g_case, "debug iterator chain history seed=%u", seed);
    snprintf(g_prop, sizeof g_prop, "C18");
    watchdog(8);
    St s = {4, 2, 3};
    B* b[2] = {build(s), build(s)};
    struct M { It* it; int buf; std::size_t idx; };      // buf -1: invalid
    std::vector<M> live;
    for (int t = 0; t < 300 && !g_bad; ++t) {
        ++g_runs;
        unsigned op = rng() % 8;
        std::size_t k = live.empty() ? 0 : rng() % live.size(), j = live.empty() ? 0 : rng() % live.size();
        int w = rng() & 1;
        if (op < 2 || live.empty()) { std::size_t i = rng() % (b[w]->size() + 1); M m = {new It(b[w]->begin() + i), w, i}; live.push_back(m); }
        else if (op == 2) { M m = {new It(*live[k].it), live[k].buf, live[k].idx}; live.push_back(m); }
        else if (op == 3) { *live[k].it = *live[j].it; live[k].buf = live[j].buf; live[k].idx = live[j].idx; }
        else if (op == 4 || op == 5) { delete live[k].it; live.erase(live.begin() + k); }
        else if (op == 6) { b[w]->clear(); for (std::size_t x = 0; x < live.size(); ++x) if (live[x].buf == w && live[x].idx != (std::size_t) -1) { if (!live[x].it->is_valid(reg(b[w])) ) live[x].buf = -1; else if (&*live[x].it == (It*) live[x].it) {} }
            for (int q = 0; q < 3; ++q) b[w]->push_back(Elem(q)); for (std::size_t x = 0; x < live.size(); ++x) if (live[x].buf == w && !live[x].it->is_valid(reg(b[w]))) live[x].buf = -1; }
        else { It* x = new It(); M m = {x, -1, 0}; live.push_back(m); *x = b[w]->end(); live.back().buf = w; live.back().idx = (std::size_t) -1; }
        for (std::size_t x = 0; x < live.size(); ++x)
            for (int q = 0; q < 2; ++q)
                if (live[x].it->is_valid(reg(b[q])) != (live[x].buf == q)) fail("C18", "step %d: iterator %zu is %s", t, x, live[x].buf == q ? "invalid" : "valid");
    }
    for (int w = 0; w < 2; ++w) {
        delete b[w];
        for (std::size_t x = 0; x < live.size(); ++x) if (live[x].buf == w && live[x].it->is_valid(reg(b[w]))) fail("C18", "an iterator survives its buffer");
    }
    while (!live.empty()) { delete live.back().it; live.pop_back(); }
}

int main(int argc, char** argv) {
    signal(SIGSEGV, on_signal); signal(SIGBUS, on_signal); signal(SIGABRT, on_signal); signal(SIGFPE, on_signal); signal(SIGPROF, on_signal);
    std::size_t maxcap = 3;
    long rnd = 50;
    unsigned seed = 1;
    P_LIFE = "C18";
    P_ALLOC = "C18";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a.compare(0, 4, "cap=") == 0) maxcap = std::strtoul(argv[i] + 4, 0, 10);
        else if (a.compare(0, 4, "rnd=") == 0) rnd = std::strtol(argv[i] + 4, 0, 10);
        else if (a.compare(0, 5, "seed=") == 0) seed = (unsigned) std::strtoul(argv[i] + 5, 0, 10);
    }
    g_want.insert("C18");
    for (std::size_t c = 0; c <= maxcap; ++c)
        for (std::size_t p = 0; p < (c ? c : 1); ++p)
            for (std::size_t n = 0; n <= c; ++n) {
                St s = {c, p, n};
                group([&] { one_state(s); });
            }
    for (long k = 0; k < rnd; k += 25) group([&] { for (long j = k; j < k + 25 && j < rnd; ++j) chains(seed * 7919 + (unsigned) j); });
    printf("DONE cases=%ld runs=%ld faults=%ld\n", g_cases, g_runs, g_faults);
    int bad = g_sh->crashes;
    for (int i = 0; i < 64; ++i) bad += g_sh->reported[i];
    return bad ? 1 : 0;
}
