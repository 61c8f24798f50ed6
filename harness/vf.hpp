// Core of the runtime monitors: PRNG, operation log, verdicts, coverage, element registry,
// block registry, fault injection, instrumented element types, allocator, comparators, iterators, error types.
// Only the public interface of nestl is used by anything in this directory.
#ifndef VF_HPP
#define VF_HPP

#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <ctime>
#include <sys/time.h>
#include <unistd.h>
#include <memory>
#include <functional>
#include <iterator>
#include <limits>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <algorithm>
#include <exception>
#include <stdexcept>
#include <typeinfo>

#if defined(__EXCEPTIONS) || defined(__cpp_exceptions)
#define VF_EX 1
#else
#define VF_EX 0
#endif

#if defined(__SANITIZE_ADDRESS__)
#define VF_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VF_ASAN 1
#endif
#endif
#ifndef VF_ASAN
#define VF_ASAN 0
#endif
// MemorySanitizer: storage handed out must stay uninitialised
#define VF_MSAN 0
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#undef VF_MSAN
#define VF_MSAN 1
extern "C" void __msan_allocated_memory(const volatile void*, size_t);
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif
#endif
#if VF_MSAN
#define VF_FRESH(p, n) __msan_allocated_memory((p), (n))
#else
#define VF_FRESH(p, n) std::memset((void*)(p), 0xA5, (n))
#endif
#if VF_ASAN
extern "C" void __sanitizer_set_death_callback(void (*)(void));
extern "C" int __sanitizer_get_ownership(const volatile void*);
extern "C" size_t __sanitizer_get_allocated_size(const volatile void*);
#endif

#define P_(n) (1ull << (n))
// a driver is compiled in parts (one executable each) to keep compile time down; no PART: everything
#ifdef PART
#define IN_PART(k) (PART == (k))
#else
#define IN_PART(k) 1
#endif

namespace vf
{
typedef unsigned long long u64;

// ---------------------------------------------------------------- PRNG
inline u64 mix(u64 x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}
inline u64 hash(const char* s) { u64 h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
inline u64 mix2(u64 a, u64 b) { return mix(a * 0x9E3779B97F4A7C15ull + mix(b)); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 0) : s(mix(seed)) {}
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool chance(u64 a, u64 b) { return below(b) < a; }
};

// ---------------------------------------------------------------- pointer keyed map (malloc only)
template <class Rec>
struct PtrMap
{
    struct Slot { std::uintptr_t k; Rec r; };
    Slot* t; size_t cap, n;
    PtrMap() : t(nullptr), cap(0), n(0) {}
    static size_t h(std::uintptr_t k) { return (size_t)mix(k); }
    void grow()
    {
        size_t nc = cap ? cap * 2 : 256;
        Slot* old = t; size_t oc = cap;
        t = (Slot*)std::calloc(nc, sizeof(Slot));
        if (!t) std::abort();
        cap = nc; n = 0;
        for (size_t i = 0; i < oc; ++i) if (old[i].k) *put(old[i].k) = old[i].r;
        std::free(old);
    }
    Rec* put(std::uintptr_t k)
    {
        if ((n + 1) * 2 > cap) grow();
        size_t i = h(k) & (cap - 1);
        while (t[i].k && t[i].k != k) i = (i + 1) & (cap - 1);
        if (!t[i].k) { t[i].k = k; ++n; std::memset((void*)&t[i].r, 0, sizeof(Rec)); }
        return &t[i].r;
    }
    Rec* get(std::uintptr_t k) const
    {
        if (!n) return nullptr;
        size_t i = h(k) & (cap - 1);
        while (t[i].k) { if (t[i].k == k) return &t[i].r; i = (i + 1) & (cap - 1); }
        return nullptr;
    }
    void del(std::uintptr_t k)
    {
        if (!n) return;
        size_t i = h(k) & (cap - 1);
        while (t[i].k && t[i].k != k) i = (i + 1) & (cap - 1);
        if (!t[i].k) return;
        --n;
        size_t j = i;
        for (;;)
        {
            t[i].k = 0;
            size_t home;
            do
            {
                j = (j + 1) & (cap - 1);
                if (!t[j].k) return;
                home = h(t[j].k) & (cap - 1);
            } while (i <= j ? (i < home && home <= j) : (i < home || home <= j));
            t[i] = t[j];
            i = j;
        }
    }
    void clear() { if (t) std::memset((void*)t, 0, cap * sizeof(Slot)); n = 0; }
};

// ---------------------------------------------------------------- global monitor state
enum FaultKind { F_NONE = 0, F_ALLOC = 1, F_ELEM = 2 };

struct ElemRec { u64 oid; };
struct BlockRec { int arena; size_t n; size_t bytes; u64 serial; };

struct Counters
{
    u64 make, copy, move, assign, destroy, cmp, alloc, dealloc;
    void zero() { std::memset((void*)this, 0, sizeof *this); }
};

struct Cov { const char* name; u64 n; };

struct State
{
    u64 prop;            // mask of properties whose violations are reported
    u64 mode_tags;       // properties every violation that follows an injected fault bears on
    bool fault_seen;     // a fault was injected in this history
    const char* driver;
    const char* mode;
    const char* type;
    u64 seed; u64 caseno;
    // events
    Counters ev;
    u64 next_oid, next_serial;
    // faults
    int fk; long long countdown; bool sticky; bool fired; const void* fault_src; int fault_id; int next_fault_id;
    bool armed;          // inside a library call
    bool watch_new;      // track global operator new
    u64 refused;         // allocations refused by cap
    // digest of observations
    u64 digest; bool digesting;
    u64 case_sig;        // identity of the current case
    // evidence
    u64 evaluations, ops, faults_fired, foreign;
    // log
    char* log; size_t logn, logcap;
    int ncov; Cov cov[512];
};

inline State& G() { static State s; return s; }
inline PtrMap<ElemRec>& live() { static PtrMap<ElemRec> m; return m; }
inline PtrMap<BlockRec>& blocks() { static PtrMap<BlockRec> m; return m; }
inline PtrMap<int>& cases() { static PtrMap<int> m; return m; }
inline PtrMap<int>& sigs() { static PtrMap<int> m; return m; }
inline std::vector<std::string>& samples() { static std::vector<std::string> v; return v; }

inline u64* cov_slot(const char* name)
{
    State& g = G();
    for (int i = 0; i < g.ncov; ++i) if (!std::strcmp(g.cov[i].name, name)) return &g.cov[i].n;
    if (g.ncov >= 512) std::abort();
    g.cov[g.ncov].name = name; g.cov[g.ncov].n = 0;
    return &g.cov[g.ncov++].n;
}
#define COV(name) do { static ::vf::u64* p__ = ::vf::cov_slot(name); ++*p__; } while (0)

#define COVD(name) (++*::vf::cov_slot(name))

// step signatures; a case is identified by the sequence of its steps' signatures
inline void sig(u64 a) { int* p = sigs().put((std::uintptr_t)(a | 1)); *p = 1; G().case_sig = mix2(G().case_sig, a); }
inline void commit_case()
{
    State& g = G();
    if (g.case_sig) { int* p = cases().put((std::uintptr_t)(mix2(g.case_sig, hash(g.type ? g.type : "")) | 1)); *p = 1; }
}

inline void obs(u64 v) { State& g = G(); g.digest = mix2(g.digest, v); }

// ---------------------------------------------------------------- log and verdicts
inline void logf(const char* fmt, ...)
{
    State& g = G();
    if (g.logn + 200 > g.logcap)
    {
        // keep the tail of very long histories
        if (g.logcap < (1u << 20))
        {
            size_t nc = g.logcap ? g.logcap * 2 : (1u << 14);
            g.log = (char*)std::realloc(g.log, nc);
            g.logcap = nc;
        }
        else
        {
            size_t half = g.logn / 2;
            std::memmove(g.log, g.log + half, g.logn - half);
            g.logn -= half;
        }
    }
    va_list ap; va_start(ap, fmt);
    int k = std::vsnprintf(g.log + g.logn, 199, fmt, ap);
    va_end(ap);
    if (k > 198) k = 198;
    if (k > 0) g.logn += (size_t)k;
    g.log[g.logn++] = '\n';
    g.log[g.logn] = 0;
}

inline void dump_case(FILE* f)
{
    State& g = G();
    std::fprintf(f, "CASE driver=%s mode=%s type=%s seed=%llu case=%llu\n", g.driver, g.mode ? g.mode : "", g.type ? g.type : "", g.seed, g.caseno);
    if (g.logn)
    {
        size_t from = g.logn > 6000 ? g.logn - 6000 : 0;
        std::fprintf(f, "HISTORY (last operations)\n%s%s", from ? "...\n" : "", g.log + from);
    }
    std::fflush(f);
}

// exit codes: 0 held, 10 violation of a watched property, 11 violation of another property, else crash
inline void violation(u64 tags, const char* fmt, ...)
{
    State& g = G();
    if (g.fault_seen) tags |= g.mode_tags;
    bool mine = (tags & g.prop) != 0;
    FILE* f = stdout;
    std::fprintf(f, "%s tags=", mine ? "MONITOR-VIOLATION" : "MONITOR-FOREIGN");
    for (int i = 1; i < 64; ++i) if (tags >> i & 1) std::fprintf(f, "C%02d,", i);
    std::fprintf(f, " ");
    va_list ap; va_start(ap, fmt); std::vfprintf(f, fmt, ap); va_end(ap);
    std::fprintf(f, "\n");
    dump_case(f);
    std::_Exit(mine ? 10 : 11);
}

#define REQUIRE(cond, tags, ...) do { if (!(cond)) ::vf::violation((tags), __VA_ARGS__); } while (0)

inline void on_death() { dump_case(stdout); }
inline void on_signal(int s)
{
    std::printf("SIGNAL %d\n", s);
    dump_case(stdout);
    std::_Exit(s == SIGVTALRM ? 13 : 12);
}
// per-case CPU time guard: a history that stops terminating
inline void cpu_guard(int seconds)
{
    struct itimerval it; std::memset(&it, 0, sizeof it);
    it.it_value.tv_sec = seconds;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// ---------------------------------------------------------------- faults
inline void disarm() { State& g = G(); g.armed = false; }
inline void set_fault(int kind, long long k, bool sticky = false)
{
    State& g = G();
    g.next_fault_id += (int)(k > 0 ? k % 6 : 0);   // so that every kind of exception turns up
    g.fk = kind; g.countdown = k; g.fired = false; g.fault_src = nullptr; g.fault_id = 0; g.sticky = sticky;
}
inline bool tick(int kind, const void* src)
{
    State& g = G();
    if (!g.armed || g.fk != kind || g.countdown <= 0) return false;
    if (--g.countdown > 0) return false;
    if (g.sticky) g.countdown = 1;
    g.fired = true; g.fault_seen = true;
    g.fault_src = src;
    g.fault_id = ++g.next_fault_id;
    ++g.faults_fired;
    return true;
}

// A library call: events between construction and destruction belong to the library.
// distinct keys that took part in comparisons since the current call began
struct Visited
{
    static const unsigned MOST = 400;
    const void* k[MOST]; unsigned n;
    void mark(const void* p) { for (unsigned i = n; i-- > 0;) if (k[i] == p) return; if (n < MOST) k[n++] = p; }
};
inline Visited& visited() { static thread_local Visited v; return v; }

struct Call
{
    Counters before;
    u64 live_before, blocks_before;
    Call() { State& g = G(); before = g.ev; live_before = live().n; blocks_before = blocks().n; visited().n = 0; g.armed = true; ++g.ops; }
    ~Call() { G().armed = false; }
    void done() { G().armed = false; }
};
struct Delta
{
    u64 make, copy, move, assign, destroy, cmp, alloc, dealloc;
    explicit Delta(const Call& c)
    {
        const Counters& e = G().ev;
        make = e.make - c.before.make; copy = e.copy - c.before.copy; move = e.move - c.before.move;
        assign = e.assign - c.before.assign; destroy = e.destroy - c.before.destroy; cmp = e.cmp - c.before.cmp;
        alloc = e.alloc - c.before.alloc; dealloc = e.dealloc - c.before.dealloc;
    }
    u64 births() const { return make + copy + move; }
    u64 touches() const { return make + copy + move + assign + destroy; }
};

// ---------------------------------------------------------------- values
struct Val
{
    int key, tag;
    Val(int k = 0, int t = 0) : key(k), tag(t) {}
    bool operator==(const Val& o) const { return key == o.key && tag == o.tag; }
    bool operator!=(const Val& o) const { return !(*this == o); }
};
const int MOVED = -77777;
const int FRESH = -88888;

struct Boom { int id; explicit Boom(int i) : id(i) {} };
struct BoomChild : Boom { int extra; explicit BoomChild(int i) : Boom(i), extra(i * 7) {} };
#if VF_EX
// what elements throw: unrelated classes, children of the library's own failures, and no class at all
struct BoomAlloc : std::bad_alloc { int id; explicit BoomAlloc(int i) : id(i) {} };
struct BoomLength : std::length_error { int id; explicit BoomLength(int i) : std::length_error("element"), id(i) {} };
struct BoomRun : std::runtime_error { int id; explicit BoomRun(int i) : std::runtime_error("element"), id(i) {} };
enum { BOOM_KINDS = 6 };
inline void boom_now(int id)
{
    switch (id % BOOM_KINDS)
    {
    case 0: throw BoomChild(id);
    case 1: throw Boom(id);
    case 2: throw BoomAlloc(id);
    case 3: throw BoomLength(id);
    case 4: throw (long)id;
    default: throw BoomRun(id);
    }
}
// category as in error objects; exact: precisely the type and value that boom_now throws
struct Caught { int kind; int id; bool exact; Caught() : kind(0), id(0), exact(true) {} Caught(int k, int i, bool e) : kind(k), id(i), exact(e) {} };
inline Caught caught_now()   // call inside a handler
{
    try { throw; }
    catch (const BoomChild& b) { return Caught(3, b.id, typeid(b) == typeid(BoomChild) && b.extra == b.id * 7 && b.id % BOOM_KINDS == 0); }
    catch (const Boom& b) { return Caught(3, b.id, typeid(b) == typeid(Boom) && b.id % BOOM_KINDS == 1); }
    catch (const BoomAlloc& b) { return Caught(3, b.id, typeid(b) == typeid(BoomAlloc) && b.id % BOOM_KINDS == 2); }
    catch (const BoomLength& b) { return Caught(3, b.id, typeid(b) == typeid(BoomLength) && b.id % BOOM_KINDS == 3); }
    catch (long b) { return Caught(3, (int)b, b % BOOM_KINDS == 4); }
    catch (const BoomRun& b) { return Caught(3, b.id, typeid(b) == typeid(BoomRun) && b.id % BOOM_KINDS == 5); }
    catch (const std::bad_alloc& b) { return Caught(1, 0, typeid(b) == typeid(std::bad_alloc)); }
    catch (const std::length_error& b) { return Caught(2, 0, typeid(b) == typeid(std::length_error)); }
    catch (...) { return Caught(9, 0, false); }
}
inline Caught caught_in(const std::exception_ptr& p) { try { std::rethrow_exception(p); } catch (...) { return caught_now(); } }
#endif

// ---------------------------------------------------------------- element core
struct Core
{
    unsigned magic;
    int key, tag;
    u64 oid;
    const void* self;

    static const unsigned ALIVE = 0xA11FE5u;
    static const unsigned DEAD = 0xDEADBEEFu;

    void birth() noexcept
    {
        ElemRec* r = live().get((std::uintptr_t)this);
        if (r) violation(P_(5), "element constructed at %p on top of a live element (oid %llu)", (void*)this, r->oid);
        magic = ALIVE; self = this; oid = ++G().next_oid;
        live().put((std::uintptr_t)this)->oid = oid;
    }
    void check(const char* what) const noexcept
    {
        ElemRec* r = live().get((std::uintptr_t)this);
        if (!r) violation(P_(5), "%s of an element that is not alive at %p", what, (const void*)this);
        if (magic != ALIVE || self != this || oid != r->oid)
            violation(P_(5) | P_(6), "%s of a corrupted element at %p (magic %x self %p oid %llu/%llu)", what, (const void*)this, magic, self, oid, r->oid);
    }
    Core() noexcept : key(FRESH), tag(0) { birth(); ++G().ev.make; }
    Core(int k, int t) noexcept : key(k), tag(t) { birth(); ++G().ev.make; }
    Core(const Core& o) noexcept { o.check("copy"); key = o.key; tag = o.tag; birth(); ++G().ev.copy; }
    Core(Core&& o) noexcept
    {
        o.check("move"); key = o.key; tag = o.tag; birth(); ++G().ev.move;
        o.key = MOVED; o.tag = 0;
    }
    Core& operator=(const Core& o) noexcept
    {
        o.check("copy-assign source"); check("copy-assign target");
        key = o.key; tag = o.tag; ++G().ev.assign; return *this;
    }
    Core& operator=(Core&& o) noexcept
    {
        o.check("move-assign source"); check("move-assign target");
        int k = o.key, t = o.tag;
        if (&o != this) { o.key = MOVED; o.tag = 0; }
        key = k; tag = t; ++G().ev.assign; return *this;
    }
    ~Core() noexcept
    {
        check("destruction");
        live().del((std::uintptr_t)this);
        magic = DEAD; self = nullptr; ++G().ev.destroy;
    }
    Val val() const { return Val(key, tag); }
    void put(Val v) { key = v.key; tag = v.tag; }
};

inline bool core_less(const Core& a, const Core& b) { a.check("compare"); b.check("compare"); ++G().ev.cmp; visited().mark(&a); visited().mark(&b); return a.key < b.key; }
inline bool core_eq(const Core& a, const Core& b) { a.check("compare"); b.check("compare"); ++G().ev.cmp; return a.key == b.key && a.tag == b.tag; }

inline void boom(const void* src)
{
#if VF_EX
    if (tick(F_ELEM, src)) boom_now(G().fault_id);
#else
    (void)src;
#endif
}

// nothrow everything
struct Elem : Core
{
    Elem() noexcept {}
    Elem(int k, int t) noexcept : Core(k, t) {}
    Elem(const Elem& o) noexcept : Core(o) {}
    Elem(Elem&& o) noexcept : Core(std::move(o)) {}
    Elem& operator=(const Elem& o) noexcept { Core::operator=(o); return *this; }
    Elem& operator=(Elem&& o) noexcept { Core::operator=(std::move(o)); return *this; }
};

// over-aligned (to the default new alignment), large, with a hostile operator&
struct alignas(16) Wide : Core
{
    char pad[104];
    Wide() noexcept { fill(); }
    Wide(int k, int t) noexcept : Core(k, t) { fill(); }
    Wide(const Wide& o) noexcept : Core(o) { o.verify(); fill(); }
    Wide(Wide&& o) noexcept : Core(std::move(o)) { o.verify(); fill(); }
    Wide& operator=(const Wide& o) noexcept { o.verify(); verify(); Core::operator=(o); return *this; }
    Wide& operator=(Wide&& o) noexcept { o.verify(); verify(); Core::operator=(std::move(o)); return *this; }
    ~Wide() { verify(); }
    void fill() { align(); std::memset(pad, 0x3C, sizeof pad); }
    void align() const
    {
        if ((std::uintptr_t)this % 16) violation(P_(5) | P_(6), "element of a 16-byte aligned type placed at %p", (const void*)this);
    }
    void verify() const
    {
        align();
        for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != 0x3C) violation(P_(5) | P_(6), "bytes inside a live element were overwritten");
    }
    Wide* operator&() noexcept { violation(P_(5), "overloaded operator& used to find the element's address"); return nullptr; }
    const Wide* operator&() const noexcept { violation(P_(5), "overloaded operator& used to find the element's address"); return nullptr; }
};

#if VF_EX
// everything may throw
struct Thrower : Core
{
    Thrower() : Core((boom(nullptr), FRESH), 0) {}
    Thrower(int k, int t) : Core((boom(nullptr), k), t) {}
    Thrower(const Thrower& o) : Core((boom(&o), static_cast<const Core&>(o))) {}
    Thrower(Thrower&& o) noexcept(false) : Core((boom(&o), static_cast<Core&&>(o))) {}
    Thrower& operator=(const Thrower& o) { boom(&o); Core::operator=(o); return *this; }
    Thrower& operator=(Thrower&& o) noexcept(false) { boom(&o); Core::operator=(std::move(o)); return *this; }
};
// copies may throw, moves do not
struct CopyThrower : Core
{
    CopyThrower() noexcept {}
    CopyThrower(int k, int t) : Core((boom(nullptr), k), t) {}
    CopyThrower(const CopyThrower& o) : Core((boom(&o), static_cast<const Core&>(o))) {}
    CopyThrower(CopyThrower&& o) noexcept : Core(std::move(o)) {}
    CopyThrower& operator=(const CopyThrower& o) { boom(&o); Core::operator=(o); return *this; }
    CopyThrower& operator=(CopyThrower&& o) noexcept { Core::operator=(std::move(o)); return *this; }
};
// the failure happens after the object already acquired something (members must be unwound)
struct LateThrower : Core
{
    Core part;
    LateThrower() : part(FRESH, 1) { boom(nullptr); }
    LateThrower(int k, int t) : Core(k, t), part(k, t) { boom(nullptr); }
    LateThrower(const LateThrower& o) : Core(o), part(o.part) { boom(&o); }
    LateThrower(LateThrower&& o) noexcept(false) : Core(o), part(o.part) { boom(&o); o.key = MOVED; o.tag = 0; }
    LateThrower& operator=(const LateThrower& o) { boom(&o); Core::operator=(o); return *this; }
    LateThrower& operator=(LateThrower&& o) noexcept(false) { boom(&o); Core::operator=(std::move(o)); return *this; }
};
#endif

// plain data (may be copied bytewise), whose equality and order are not those of its bytes
struct Pod
{
    int junk, key;
    signed char low;
    Pod() noexcept : junk(next()), key(0), low(0) {}
    explicit Pod(int k) noexcept : junk(next()), key(k), low((signed char)k) {}
    static int next() { static int n = 0; return __atomic_add_fetch(&n, 12345, __ATOMIC_RELAXED); }
};
inline bool operator==(const Pod& a, const Pod& b) { return a.key == b.key; }
inline bool operator!=(const Pod& a, const Pod& b) { return a.key != b.key; }
inline bool operator<(const Pod& a, const Pod& b) { return a.key < b.key; }

// built by default construction plus an initialisation step that may report an error
struct Two : Core
{
    bool ready;
    Two() noexcept : ready(false) {}
    ~Two() {}
private:
    Two(const Two&);            // not constructible from another Two (declared, never defined)
    Two& operator=(const Two&);
};

// being moved from shows
template <class T> struct Moves { static const bool yes = std::is_base_of<Core, T>::value; };
template <> struct Moves<Two> { static const bool yes = false; };

template <class T> inline bool operator==(const T& a, const typename std::enable_if<std::is_base_of<Core, T>::value, T>::type& b) { return core_eq(a, b); }
template <class T> inline bool operator!=(const T& a, const typename std::enable_if<std::is_base_of<Core, T>::value, T>::type& b) { return !core_eq(a, b); }
template <class T> inline bool operator<(const T& a, const typename std::enable_if<std::is_base_of<Core, T>::value, T>::type& b) { return core_less(a, b); }

// ---------------------------------------------------------------- user supplied error type
} // namespace vf

namespace usr
{
// the documented requirements only: default constructible, contextually bool, ADL builders
struct Err
{
    int cat;   // 0 none, 1 memory, 2 length, 3 element
    int id;
    int sets;
    Err() : cat(0), id(0), sets(0) {}
    explicit operator bool() const { return cat != 0; }
};
inline void build_bad_alloc(Err& e) { e.cat = 1; ++e.sets; }
inline void build_length_error(Err& e) { e.cat = 2; ++e.sets; }
#if VF_EX
inline void from_exception_ptr(Err& e, std::exception_ptr p)
{
    ++e.sets;
    vf::Caught c = vf::caught_in(p);
    e.cat = c.kind == 3 && !c.exact ? 9 : c.kind; e.id = c.id;
}
#endif
} // namespace usr

#include <nestl/vector.hpp>
#include <nestl/list.hpp>
#include <nestl/set.hpp>
#include <nestl/shared_ptr.hpp>
#include <nestl/default_operation_error.hpp>
#include <nestl/algorithm.hpp>
#include <nestl/class_operations.hpp>
#if VF_EX
#include <nestl/has_exceptions/exception_ptr_error.hpp>
#endif
#include <nestl/no_exceptions/errc_based_error.hpp>

namespace vf
{
typedef nestl::default_operation_error DefErr;
typedef nestl::no_exceptions::errc_based_error CodeErr;

struct ErrInfo { int cat; int id; };
inline ErrInfo err_info(const usr::Err& e) { ErrInfo r = { e.cat, e.id }; return r; }
inline ErrInfo err_info(const CodeErr& e)
{
    ErrInfo r = { 0, 0 };
    int v = e.value();
    if (bool(e) != (v != 0)) { r.cat = 8; return r; }
    if (v == nestl::errc::not_enough_memory) r.cat = 1;
    else if (v == nestl::errc::value_too_large) r.cat = 2;
    else if (v >= 100000) { r.cat = 3; r.id = v - 100000; }
    else if (v) r.cat = 9;
    return r;
}
inline void set_elem_error(usr::Err& e, int id) { e.cat = 3; e.id = id; ++e.sets; }
inline void set_elem_error(CodeErr& e, int id) { e = CodeErr(100000 + id); }
#if VF_EX
typedef nestl::has_exceptions::exception_ptr_error PtrErr;
inline ErrInfo err_info(const PtrErr& e)
{
    ErrInfo r = { 0, 0 };
    if (bool(e) != (e.value() != nullptr)) { r.cat = 8; return r; }
    if (!e) return r;
    Caught c = caught_in(e.value());
    r.cat = c.kind == 3 && !c.exact ? 9 : c.kind; r.id = c.id;
    return r;
}
inline void set_elem_error(PtrErr& e, int id)
{
    switch (id % BOOM_KINDS)
    {
    case 0: from_exception(e, BoomChild(id)); break;
    case 1: from_exception(e, Boom(id)); break;
    case 2: from_exception(e, BoomAlloc(id)); break;
    case 3: from_exception(e, BoomLength(id)); break;
    case 4: from_exception(e, (long)id); break;
    default: from_exception(e, BoomRun(id)); break;
    }
}
#endif
template <class E> struct ErrName { static const char* get() { return "default-error"; } };
template <> struct ErrName<usr::Err> { static const char* get() { return "user-error"; } };

} // namespace vf

namespace nestl
{
template <>
struct two_phase_initializator<vf::Two>
{
    template <typename OperationError>
    static void init(OperationError& err, vf::Two& d, const vf::Two& o) NESTL_NOEXCEPT_SPEC
    {
        d.check("two-phase init"); o.check("two-phase source");
        if (d.ready) vf::violation(P_(12) | P_(5), "two-phase initialisation of an already initialised object");
        if (vf::tick(vf::F_ELEM, &o)) { vf::set_elem_error(err, vf::G().fault_id); return; }
        d.put(o.val()); d.ready = true; ++vf::G().ev.copy; --vf::G().ev.make;
    }
    template <typename OperationError>
    static void init(OperationError& err, vf::Two& d, int k, int t) NESTL_NOEXCEPT_SPEC
    {
        d.check("two-phase init");
        if (d.ready) vf::violation(P_(12) | P_(5), "two-phase initialisation of an already initialised object");
        if (vf::tick(vf::F_ELEM, nullptr)) { vf::set_elem_error(err, vf::G().fault_id); return; }
        d.put(vf::Val(k, t)); d.ready = true;
    }
};
} // namespace nestl

namespace vf
{
// ---------------------------------------------------------------- element traits
template <class T> struct ET
{
    static const bool tracked = true;
    static const bool tagged = true;
    static const bool movable = true;      // moving leaves MOVED behind
    static Val norm(Val v) { return v; }
    static Val val(const T& t) { t.check("read"); return t.val(); }
    static void set(T& t, Val v) { t.check("write"); t.put(v); }
    static void build(void* p, Val v) { ::new (p) T(v.key, v.tag); }
    static u64 oid(const T& t) { return t.oid; }
};
template <> struct ET<Two>
{
    static const bool tracked = true;
    static const bool tagged = true;
    static const bool movable = false;
    static Val norm(Val v) { return v; }
    static Val val(const Two& t)
    {
        t.check("read");
        return t.val();
    }
    static void set(Two& t, Val v) { t.check("write"); t.put(v); }
    static void build(void* p, Val v) { Two* t = ::new (p) Two(); t->put(v); t->ready = true; }
    static u64 oid(const Two& t) { return t.oid; }
};
template <class I> struct ETInt
{
    static const bool tracked = false;
    static const bool tagged = false;
    static const bool movable = false;
    static Val norm(Val v) { return Val((int)(I)v.key, 0); }
    static Val val(const I& t) { return Val((int)t, 0); }
    static void set(I& t, Val v) { t = (I)v.key; }
    static void build(void* p, Val v) { ::new (p) I((I)v.key); }
    static u64 oid(const I&) { return 0; }
};
template <> struct ET<int> : ETInt<int> {};
template <> struct ET<Pod>
{
    static const bool tracked = false;
    static const bool tagged = false;
    static const bool movable = false;
    static Val norm(Val v) { return Val(v.key, 0); }
    static Val val(const Pod& t) { if (t.low != (signed char)t.key) violation(P_(5) | P_(6), "parts of a plain element do not belong together"); return Val(t.key, 0); }
    static void set(Pod& t, Val v) { t = Pod(v.key); }
    static void build(void* p, Val v) { ::new (p) Pod(v.key); }
    static u64 oid(const Pod&) { return 0; }
};
template <> struct ET<signed char> : ETInt<signed char> {};

template <class T> inline T* addr(T& t) { return std::addressof(t); }

// an element owned by the harness (never counted as the library's)
template <class T>
struct Holder
{
    typename std::aligned_storage<sizeof(T), alignof(T)>::type buf;
    explicit Holder(Val v) { disarm_scope d; ET<T>::build(&buf, v); }
    ~Holder() { disarm_scope d; ref().~T(); }
    T& ref() { return *reinterpret_cast<T*>(&buf); }
    const T& cref() const { return *reinterpret_cast<const T*>(&buf); }
    struct disarm_scope { bool a; disarm_scope() : a(G().armed) { G().armed = false; } ~disarm_scope() { G().armed = a; } };
private:
    Holder(const Holder&); Holder& operator=(const Holder&);
};

// array of harness owned elements, contiguous
template <class T>
struct Row
{
    T* p; size_t n;
    explicit Row(const std::vector<Val>& v) : p(nullptr), n(v.size())
    {
        void* m = nullptr;
        if (posix_memalign(&m, alignof(T) < 16 ? 16 : alignof(T), (n + 1) * sizeof(T))) std::abort();
        p = static_cast<T*>(m);
        for (size_t i = 0; i < n; ++i) ET<T>::build(p + i, v[i]);
    }
    ~Row() { for (size_t i = 0; i < n; ++i) p[i].~T(); std::free(p); }
    T* begin() { return p; }
    T* end() { return p + n; }
private:
    Row(const Row&); Row& operator=(const Row&);
};

// ---------------------------------------------------------------- recording allocator
inline void* raw_block(size_t bytes, size_t align)
{
    void* m = nullptr;
    if (posix_memalign(&m, align < 16 ? 16 : align, bytes ? bytes : 1)) return nullptr;
    VF_FRESH(m, bytes ? bytes : 1);
    return m;
}
// what the instrumented allocators are willing to give, per request and in total
inline size_t& cap_bytes() { static size_t c = (size_t)256 << 20; return c; }
inline size_t& cap_total() { static size_t c = ~(size_t)0; return c; }
inline size_t& given_total() { static size_t c = 0; return c; }

inline long& allocators_alive() { static long n = 0; return n; }

template <class T>
struct Alloc
{
    typedef T value_type;
    typedef T* pointer;
    typedef const T* const_pointer;
    typedef T& reference;
    typedef const T& const_reference;
    typedef std::size_t size_type;
    typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef Alloc<U> other; };

    // an allocator may own what its destructor releases: it must be alive whenever it is used, and go when it is no longer needed
    int arena;
    volatile unsigned alive;
    const void* volatile self;
    Alloc() noexcept : arena(0) { born(); }
    explicit Alloc(int a) noexcept : arena(a) { born(); }
    Alloc(const Alloc& o) noexcept : arena(o.arena) { o.check("copied"); born(); }
    template <class U> Alloc(const Alloc<U>& o) noexcept : arena(o.arena) { o.check("copied"); born(); }
    Alloc& operator=(const Alloc& o) noexcept { check("assigned to"); o.check("assigned from"); arena = o.arena; return *this; }
    ~Alloc() { check("destroyed"); alive = Core::DEAD; self = nullptr; __atomic_fetch_sub(&allocators_alive(), 1, __ATOMIC_RELAXED); }
    void born() { alive = Core::ALIVE; self = this; __atomic_fetch_add(&allocators_alive(), 1, __ATOMIC_RELAXED); }
    void check(const char* what) const { if (alive != Core::ALIVE || self != this) violation(P_(6), "an allocator that is not alive is %s", what); }

    template <class E>
    T* allocate(E& err, size_type n, const void* = 0) noexcept
    {
        State& g = G();
        check("asked for storage");
        ++g.ev.alloc;
        if (n > cap_bytes() / sizeof(T) || given_total() + n * sizeof(T) > cap_total()) { ++g.refused; build_bad_alloc(err); return nullptr; }
        if (tick(F_ALLOC, nullptr)) { build_bad_alloc(err); return nullptr; }
        T* p = static_cast<T*>(raw_block(n * sizeof(T), alignof(T)));
        if (!p) std::abort();
        BlockRec* r = blocks().put((std::uintptr_t)p);
        given_total() += n * sizeof(T);
        r->arena = arena; r->n = n; r->bytes = n * sizeof(T); r->serial = ++g.next_serial;
        if (g.armed && arena == 0) violation(P_(6), "storage obtained from a default constructed allocator instead of the supplied one");
        return p;
    }
    void deallocate(T* p, size_type n) noexcept
    {
        State& g = G();
        check("given storage back");
        if (!p) return;
        ++g.ev.dealloc;
        BlockRec* r = blocks().get((std::uintptr_t)p);
        if (!r) violation(P_(6), "block %p returned that is not outstanding (double or foreign return)", (void*)p);
        if (r->arena != arena) violation(P_(6), "block obtained from allocator %d returned to allocator %d", r->arena, arena);
        if (r->n != n || r->bytes != n * sizeof(T)) violation(P_(6), "block of %zu elements (%zu bytes) returned as %zu elements of %zu bytes", r->n, r->bytes, (size_t)n, sizeof(T));
        given_total() -= n * sizeof(T);
        blocks().del((std::uintptr_t)p);
        std::memset((void*)p, 0xDD, n * sizeof(T));
        std::free((void*)p);
    }
};
template <class T, class U> inline bool operator==(const Alloc<T>& a, const Alloc<U>& b) { return a.arena == b.arena; }
template <class T, class U> inline bool operator!=(const Alloc<T>& a, const Alloc<U>& b) { return a.arena != b.arena; }

template <class A> struct AllocOps { static A make(int) { return A(); } static int arena(const A&) { return -1; } static const bool monitored = false; };
template <class T> struct AllocOps<Alloc<T>> { static Alloc<T> make(int a) { return Alloc<T>(a); } static int arena(const Alloc<T>& a) { return a.arena; } static const bool monitored = true; };

// asks to be handed over on copying
template <class T>
struct PAlloc : Alloc<T>
{
    typedef std::true_type propagate_on_container_copy_assignment;
    template <class U> struct rebind { typedef PAlloc<U> other; };
    PAlloc() noexcept {}
    explicit PAlloc(int a) noexcept : Alloc<T>(a) {}
    PAlloc(const PAlloc& o) noexcept : Alloc<T>(o) {}
    template <class U> PAlloc(const PAlloc<U>& o) noexcept : Alloc<T>(static_cast<const Alloc<U>&>(o)) {}
    PAlloc& operator=(const PAlloc& o) noexcept { Alloc<T>::operator=(o); return *this; }
};
template <class T> struct AllocOps<PAlloc<T>> { static PAlloc<T> make(int a) { return PAlloc<T>(a); } static int arena(const PAlloc<T>& a) { return a.arena; } static const bool monitored = true; };

inline size_t outstanding() { return blocks().n; }

// ---------------------------------------------------------------- checked iterators over harness owned rows
// Tag decides what the iterator promises; single pass and range discipline are enforced.
template <class T>
struct RangeState { T* first; T* last; size_t reached; };

template <class T, class Tag>
struct It
{
    typedef Tag iterator_category;
    typedef T value_type;
    typedef std::ptrdiff_t difference_type;
    typedef const T* pointer;
    typedef const T& reference;
    RangeState<T>* st; T* p;
    It() : st(nullptr), p(nullptr) {}
    It(RangeState<T>* s, T* q) : st(s), p(q) {}
    static const bool single = std::is_same<Tag, std::input_iterator_tag>::value;
    void live_pos(const char* w) const
    {
        if (p < st->first || p > st->last) violation(P_(13) | P_(1) | P_(2), "%s outside the source range", w);
        if (single && (size_t)(p - st->first) < st->reached) violation(P_(13) | P_(1) | P_(2), "%s at an already consumed position of a single-pass range", w);
    }
    reference operator*() const
    {
        live_pos("dereference");
        if (p == st->last) violation(P_(13) | P_(1) | P_(2), "dereference of the end of the source range");
        return *p;
    }
    pointer operator->() const { return std::addressof(**this); }
    It& operator++()
    {
        live_pos("increment");
        if (p == st->last) violation(P_(13) | P_(1) | P_(2), "increment past the end of the source range");
        ++p; if (single) st->reached = (size_t)(p - st->first);
        return *this;
    }
    It operator++(int) { It r = *this; ++*this; return r; }
    It& operator--() { if (p == st->first) violation(P_(13), "decrement before the source range"); --p; return *this; }
    It operator--(int) { It r = *this; --*this; return r; }
    It& operator+=(std::ptrdiff_t d) { p += d; live_pos("jump"); return *this; }
    It& operator-=(std::ptrdiff_t d) { return *this += -d; }
    It operator+(std::ptrdiff_t d) const { It r = *this; r += d; return r; }
    It operator-(std::ptrdiff_t d) const { It r = *this; r -= d; return r; }
    reference operator[](std::ptrdiff_t d) const { return *(*this + d); }
    friend std::ptrdiff_t operator-(const It& a, const It& b) { return a.p - b.p; }
    friend bool operator==(const It& a, const It& b) { return a.p == b.p; }
    friend bool operator!=(const It& a, const It& b) { return a.p != b.p; }
    friend bool operator<(const It& a, const It& b) { return a.p < b.p; }
    friend bool operator>(const It& a, const It& b) { return a.p > b.p; }
    friend bool operator<=(const It& a, const It& b) { return a.p <= b.p; }
    friend bool operator>=(const It& a, const It& b) { return a.p >= b.p; }
};

// ---------------------------------------------------------------- case driving
struct Options
{
    u64 prop; u64 seed; u64 from, to; const char* mode; const char* only; u64 scale; bool digest;
    Options() : prop(0), seed(1), from(0), to(10), mode("random"), only(nullptr), scale(1), digest(false) {}
};

inline Options parse(int argc, char** argv, const char* driver)
{
    Options o;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i]; const char* v = argv[i + 1];
        if (k == "--prop") o.prop |= P_(std::atoi(v + 1));
        else if (k == "--seed") o.seed = std::strtoull(v, 0, 10);
        else if (k == "--from") o.from = std::strtoull(v, 0, 10);
        else if (k == "--to") o.to = std::strtoull(v, 0, 10);
        else if (k == "--mode") o.mode = v;
        else if (k == "--only") o.only = v;
        else if (k == "--scale") o.scale = std::strtoull(v, 0, 10);
        else if (k == "--digest") o.digest = std::atoi(v) != 0;
        else { std::fprintf(stderr, "unknown option %s\n", k.c_str()); std::_Exit(20); }
    }
    State& g = G();
    std::memset((void*)&g, 0, sizeof g);
    g.prop = o.prop; g.driver = driver; g.mode = o.mode; g.seed = o.seed; g.digesting = o.digest;
    std::signal(SIGABRT, on_signal);
    std::signal(SIGVTALRM, on_signal);
#if VF_ASAN || VF_MSAN
    __sanitizer_set_death_callback(on_death);
#else
    std::signal(SIGSEGV, on_signal); std::signal(SIGBUS, on_signal); std::signal(SIGFPE, on_signal); std::signal(SIGILL, on_signal);
#endif
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    return o;
}

inline void begin_case(u64 n, const char* type, int cpu = 60)
{
    State& g = G();
    g.caseno = n; g.type = type; g.logn = 0; if (g.log) g.log[0] = 0;
    g.fk = F_NONE; g.countdown = 0; g.fired = false; g.armed = false; g.sticky = false; g.fault_seen = false;
    g.next_oid = 0; g.next_serial = 0; g.next_fault_id = 0; g.digest = 0x1234; g.case_sig = 0; g.ev.zero();
    ++g.evaluations;
    cpu_guard(cpu);
}
inline void end_case()
{
    cpu_guard(0);
    State& g = G();
    commit_case();
    REQUIRE(live().n == 0, P_(5), "%zu elements still alive after every container is gone", (size_t)live().n);
    REQUIRE(__atomic_load_n(&allocators_alive(), __ATOMIC_RELAXED) == 0, P_(6), "%ld copies of the supplied allocators not destroyed although every container and pointer is gone", allocators_alive());
    REQUIRE(blocks().n == 0, P_(6), "%zu blocks still outstanding after every container is gone", (size_t)blocks().n);
    if (samples().size() < 3 && g.logn)
    {
        std::string s = std::string(g.type ? g.type : "") + ": " + std::string(g.log, std::min(g.logn, (size_t)900));
        for (size_t i = 0; i < s.size(); ++i) if (s[i] == '\n') s[i] = ';';
        samples().push_back(s);
    }
    if (getenv("VF_TRACE")) std::printf("TRACE %llu\n%.*s\n", g.caseno, (int)g.logn, g.log ? g.log : "");
    if (g.digesting) std::printf("DIGEST %llu %s %016llx\n", g.caseno, g.type ? g.type : "", g.digest);
}

inline void json_str(FILE* f, const std::string& s)
{
    std::fputc('"', f);
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = (unsigned char)s[i];
        if (c == '"' || c == '\\') { std::fputc('\\', f); std::fputc(c, f); }
        else if (c < 32 || c > 126) std::fputc(' ', f);
        else std::fputc(c, f);
    }
    std::fputc('"', f);
}

inline void print_keys(const char* what, PtrMap<int>& m, size_t most)
{
    std::printf("%s", what);
    size_t shown = 0;
    for (size_t i = 0; i < m.cap && shown < most; ++i) if (m.t[i].k) { std::printf(" %llx", (u64)m.t[i].k); ++shown; }
    std::printf("\n");
}

inline int finish()
{
    State& g = G();
    std::printf("EVIDENCE {\"evaluations\":%llu,\"ops\":%llu,\"faults_fired\":%llu,\"distinct\":%zu,\"events\":{", g.evaluations, g.ops, g.faults_fired, (size_t)sigs().n);
    for (int i = 0; i < g.ncov; ++i) std::printf("%s\"%s\":%llu", i ? "," : "", g.cov[i].name, g.cov[i].n);
    std::printf("},\"samples\":[");
    for (size_t i = 0; i < samples().size(); ++i) { if (i) std::printf(","); json_str(stdout, samples()[i]); }
    std::printf("]}\n");
    // distinct signatures, for merging across processes
    print_keys("STEPS", sigs(), 20000);
    print_keys("CASES", cases(), 1u << 30);
    std::fflush(stdout);
    std::_Exit(0);
}

// ---------------------------------------------------------------- outcome of one call against the fault plan
template <class E>
inline ErrInfo check_err(const E& err, u64 success_tags, const char* what)
{
    State& g = G();
    ErrInfo r = err_info(err);
    if (g.fired)
    {
        COV("faults reported");
        u64 t = (g.fk == F_ALLOC ? P_(7) : P_(8)) | P_(20);
        REQUIRE(r.cat != 0, t, "%s: %s failed but no error was reported", what, g.fk == F_ALLOC ? "an allocation" : "an element construction");
        if (g.fk == F_ALLOC) REQUIRE(r.cat == 1, t, "%s: allocation failure reported as category %d", what, r.cat);
        else REQUIRE(r.cat == 3 && (g.sticky || r.id == g.fault_id), t, "%s: element failure %d reported as category %d id %d", what, g.fault_id, r.cat, r.id);
    }
    else
    {
        REQUIRE(r.cat == 0, success_tags | P_(7) | P_(8) | P_(20), "%s: error category %d reported although nothing failed", what, r.cat);
    }
    obs((u64)(r.cat * 1000003 + r.id));
    return r;
}
inline void check_sets(const usr::Err& e, bool failed)
{
    REQUIRE(failed ? e.sets >= 1 : e.sets == 0, P_(20), "user error object was set %d times by one %s operation", e.sets, failed ? "failed" : "successful");
}
template <class E> inline void check_sets(const E&, bool) {}

} // namespace vf
#endif
