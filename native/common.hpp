// Instrumented element, allocator and single-pass range shared by the native harnesses.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <exception>
#include <functional>
#include <iterator>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#ifndef KIND
#define KIND 0          // 0: non-throwing move, 1: throwing move, 2: int, 3: copy only,
                        // 4: throwing move construction only, 5: throwing move assignment only
#endif

struct Fault {};

// ---------------------------------------------------------------- what is being executed, and what went wrong
static char g_case[4096];
static char g_prop[64];
static std::set<std::string> g_want;           // properties to report
struct Shared { long cases, runs, faults; int reported[64]; int crashes; };
static Shared* g_sh = (Shared*) mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
#define g_cases g_sh->cases
#define g_runs g_sh->runs
#define g_faults g_sh->faults
static volatile bool g_bad;                    // the current case failed

static bool wanted(const char* p) { return g_want.empty() || g_want.count(p); }

static void fail(const char* prop, const char* fmt, ...) {
    g_bad = true;
    if (!wanted(prop) || g_sh->reported[std::atoi(prop + 1) & 63]++ >= 3) return;
    va_list ap;
    va_start(ap, fmt);
    char b[2000];
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    printf("FAIL %s | %s | %s\n", prop, g_case, b);
    fflush(stdout);
}

static void on_signal(int s) {
    const char* p = g_prop;
    char b[5000];
    int n = snprintf(b, sizeof b, "CRASH %s | %s | %s\n", p, g_case, s == SIGPROF ? "no progress within the time limit" : s == SIGABRT ? "abort/terminate" : "memory fault");
    if (write(1, b, n)) {}
    ++g_sh->crashes;
    _exit(3);
}

// each group of cases runs in a process of its own, so that a crash in one does not hide the others
static void group(const std::function<void()>& f) {
    if (g_sh->crashes >= 6) return;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { f(); fflush(stdout); _exit(0); }
    int st = 0;
    if (p > 0) waitpid(p, &st, 0);
    if (p < 0 || !WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 3)) { printf("CRASH %s | a group of cases ended abnormally | status %d\n", "C09", st); fflush(stdout); ++g_sh->crashes; }
}

static void watchdog(int seconds) {
    itimerval t = {{0, 0}, {seconds, 0}};
    setitimer(ITIMER_PROF, &t, 0);
}

// ---------------------------------------------------------------- faults and counters
static long g_countdown = -1;                  // operations until the injected exception; -1: none
static bool g_fired;
static long g_work, g_copies, g_moves;
static bool g_armed;

static void point() {
    if (g_armed && g_countdown >= 0 && g_countdown-- == 0) {
        g_fired = true;
        throw Fault();
    }
}

static const char* P_LIFE = "C09";             // property a lifetime error is reported under
static const char* P_ALLOC = "C21";

// ---------------------------------------------------------------- storage
struct Block { std::size_t n, bytes; unsigned id; long serial; };
static std::map<const char*, Block> g_blocks;
static long g_allocs, g_deallocs, g_serial;
static long g_mark;                            // blocks with a smaller serial existed when the operation began

static const Block* block_of(const void* p) {
    std::map<const char*, Block>::iterator i = g_blocks.upper_bound((const char*) p);
    if (i == g_blocks.begin()) return 0;
    --i;
    return (const char*) p < i->first + i->second.bytes ? &i->second : 0;
}

template <class T> struct Alloc {
    typedef T value_type;
    unsigned id;
    explicit Alloc(unsigned i = 0) : id(i) {}
    template <class U> Alloc(const Alloc<U>& o) : id(o.id) {}
    T* allocate(std::size_t n) {
        if (n == 0) fail(P_ALLOC, "storage for zero elements requested");
        if (n > (std::size_t) 1 << 20) { if (n > (std::size_t) PTRDIFF_MAX / sizeof(T)) fail(P_ALLOC, "storage beyond max_size() requested: %zu", n); throw std::bad_alloc(); }
        point();
        char* p = (char*) std::malloc(n * sizeof(T));
        std::memset(p, 0xA5, n * sizeof(T));
        Block b = {n, n * sizeof(T), id, g_serial++};
        g_blocks[p] = b;
        ++g_allocs;
        return (T*) p;
    }
    void deallocate(T* p, std::size_t n);
    bool operator==(const Alloc& o) const { return id == o.id; }
    bool operator!=(const Alloc& o) const { return id != o.id; }
};

// ---------------------------------------------------------------- element
#if KIND != 2
static std::unordered_set<const void*> g_live;
struct Elem;
static void born(const void* p) { if (!g_live.insert(p).second) fail(P_LIFE, "an element is constructed where one is already alive"); }
static void used(const void* p, const char* how) { if (!g_live.count(p)) fail(P_LIFE, "%s outside the lifetime of an element", how); }
static bool (*g_copy_ok)(const void*) = 0;
static bool (*g_move_ok)(const void*) = 0;
static const int MOVED = -777;
struct Elem {
    int v;
    int pad;
    Elem() : v(0) { ++g_work; point(); born(this); }
    Elem(int x) : v(x) { born(this); }
    Elem(const Elem& o) : v(o.v) { ++g_work; ++g_copies; used(&o, "copy"); if (g_copy_ok && !g_copy_ok(&o)) fail("C20", "an element of the buffer is copied"); point(); born(this); }
    Elem& operator=(const Elem& o) {
        ++g_work; ++g_copies; used(&o, "copy"); used(this, "assignment");
        if (g_copy_ok && !g_copy_ok(&o)) fail("C20", "an element of the buffer is copied");
        point(); v = o.v; return *this;
    }
#if KIND != 3
#if KIND == 0 || KIND == 5
#define NXC noexcept
#define MPOINTC
#else
#define NXC
#define MPOINTC point();
#endif
#if KIND == 0 || KIND == 4
#define NXA noexcept
#define MPOINTA
#else
#define NXA
#define MPOINTA point();
#endif
    Elem(Elem&& o) NXC : v(o.v) { ++g_work; ++g_moves; used(&o, "move"); if (g_move_ok && !g_move_ok(&o)) fail("C20", "an element of the buffer is moved although that may throw"); MPOINTC born(this); o.v = MOVED; }
    Elem& operator=(Elem&& o) NXA {
        ++g_work; ++g_moves; used(&o, "move"); used(this, "assignment");
        if (g_move_ok && !g_move_ok(&o)) fail("C20", "an element of the buffer is moved although that may throw");
        MPOINTA int x = o.v; o.v = MOVED; v = x; return *this;
    }
#endif
    ~Elem() { ++g_work; if (!g_live.erase(this)) fail(P_LIFE, "an element is destroyed outside its lifetime"); *(volatile int*) &v = -666; }
};
// values from ODD up equal nothing, not even themselves (as NaN does)
static const int ODD = 100000;
static bool eqv(int a, int b) { return a == b && a < ODD; }
static bool operator==(const Elem& a, const Elem& b) { used(&a, "comparison"); used(&b, "comparison"); return eqv(a.v, b.v); }
static bool operator<(const Elem& a, const Elem& b) { used(&a, "comparison"); used(&b, "comparison"); return a.v < b.v; }
static int val(const Elem& e) { used(&e, "access"); return e.v; }
static bool alive(const void* p) { return g_live.count(p) != 0; }
#else
typedef int Elem;
static const int ODD = 2000000000;
static bool eqv(int a, int b) { return a == b; }
static int val(const Elem& e) { return e; }
static const int MOVED = -777;
static bool alive(const void* p) { return block_of(p) != 0; }
#endif

template <class T> inline void Alloc<T>::deallocate(T* p, std::size_t n) {
    std::map<const char*, Block>::iterator i = g_blocks.find((const char*) p);
    if (i == g_blocks.end()) { fail(P_LIFE, "storage is returned that is not allocated"); fail(P_ALLOC, "storage is returned that is not allocated"); return; }
    if (i->second.n != n) { fail(P_ALLOC, "storage of %zu elements is returned as %zu elements", i->second.n, n); if (g_fired) fail(P_LIFE[1] == '1' ? "C17" : "C10", "storage of %zu elements is returned as %zu elements", i->second.n, n); }
    if (i->second.id != id) fail(P_ALLOC, "storage is returned to an allocator that did not provide it");
#if KIND != 2
    for (std::unordered_set<const void*>::iterator k = g_live.begin(); k != g_live.end(); ++k)
        if (block_of(*k) == &i->second) { fail(P_LIFE, "storage is released while an element in it is alive"); break; }
#endif
    std::memset((void*) p, 0x5A, i->second.bytes);
    g_blocks.erase(i);
    ++g_deallocs;
    std::free(p);
}
typedef Alloc<Elem> Al;

// ---------------------------------------------------------------- a single-pass range: all copies share one position
struct Src { const Elem* cur; const Elem* stop; long reads; };
struct InIt {
    typedef std::input_iterator_tag iterator_category;
    typedef Elem value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const Elem* pointer;
    typedef const Elem& reference;
    struct Proxy { const Elem* p; const Elem& operator*() const { return *p; } };
    Src* s;
    bool end;
    const Elem& operator*() const { if (s->cur >= s->stop) fail("C09", "read past the end of a single-pass range"); return *s->cur; }
    InIt& operator++() { if (s->cur >= s->stop) fail("C09", "a single-pass range is advanced past its end"); ++s->cur; return *this; }
    Proxy operator++(int) { Proxy r; r.p = s->cur; ++*this; return r; }
    bool operator==(const InIt& o) const { return (end || s->cur == s->stop) == (o.end || o.s->cur == o.s->stop); }
    bool operator!=(const InIt& o) const { return !(*this == o); }
};
