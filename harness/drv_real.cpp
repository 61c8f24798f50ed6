// Containers of ordinary element types - text that points into itself, numbers, pointers, shared and weak pointers,
// sole owners - fed from ordinary ranges, whose element type need not be the container's own: plain arrays, lists,
// generators, moved and reversed ranges, other containers. Vectors and lists run against an ideal sequence, sets with
// ordinary comparison objects against an ideal ordered set; what the elements own is counted after every step.
#include "vf.hpp"
#include "newhook.hpp"
#include <list>
#include <deque>
#include <string>
#include <functional>
#include <forward_list>
using namespace vf;

namespace
{
// ---------------------------------------------------------------- element types
// short texts are kept inside the object, so it must never be moved about as bytes; owns storage; never throws
struct Text
{
    enum { IN = 11 };
    char* p; size_t n; u64 mark; char in[IN + 1];
    static long& alive() { static long a = 0; return a; }
    void check(const char* what) const
    {
        if (mark != (u64)(uintptr_t)this * 31 + 7) violation(P_(5), "a text was used (%s) where none was constructed", what);
        if (n <= IN ? p != in : p == in) violation(P_(5), "a text does not own its storage (%s)", what);
    }
    void take(const char* s, size_t len) noexcept
    {
        n = len; p = in;
        if (n > IN) { p = (char*)std::malloc(n + 1); if (!p) std::abort(); }
        std::memcpy(p, s, n); p[n] = 0;
        mark = (u64)(uintptr_t)this * 31 + 7;
    }
    void drop() noexcept { if (p != in) std::free(p); }
    void steal(Text& o) noexcept
    {
        if (o.p == o.in) take(o.p, o.n); else { n = o.n; p = o.p; mark = (u64)(uintptr_t)this * 31 + 7; }
        if (o.p != o.in) o.p = o.in;
        o.n = 1; o.in[0] = '~'; o.in[1] = 0;
    }
    Text() noexcept { take("-1", 2); ++alive(); }
    Text(const char* s) noexcept { take(s, std::strlen(s)); ++alive(); }
    Text(const Text& o) noexcept { o.check("copied"); take(o.p, o.n); ++alive(); }
    Text(Text&& o) noexcept { o.check("moved"); steal(o); ++alive(); }
    ~Text() { check("destroyed"); drop(); mark = 0; --alive(); }
    Text& operator=(const Text& o) noexcept { check("assigned to"); o.check("assigned from"); if (this != &o) { drop(); take(o.p, o.n); } return *this; }
    Text& operator=(Text&& o) noexcept { check("assigned to"); o.check("assigned from"); if (this != &o) { drop(); steal(o); } return *this; }
    friend bool operator==(const Text& a, const Text& b) { a.check("compared"); b.check("compared"); return a.n == b.n && !std::memcmp(a.p, b.p, a.n); }
    friend bool operator<(const Text& a, const Text& b)
    {
        a.check("compared"); b.check("compared");
        int c = std::memcmp(a.p, b.p, std::min(a.n, b.n));
        return c < 0 || (c == 0 && a.n < b.n);
    }
    friend bool operator>(const Text& a, const Text& b) { return b < a; }
};

enum { KEYS = 24, GONE = -77, EXPIRED = -1 };

// the texts for the keys sort like the keys; some fit inside, some do not
inline const char* text_of(int k)
{
    static char t[KEYS][48]; static bool made = false;
    if (!made)
        for (int i = 0; i < KEYS; ++i)
        {
            int w = std::sprintf(t[i], "%04d", i), more = i * 7 % 31;
            for (int j = 0; j < more; ++j) t[i][w++] = (char)('a' + (i + j) % 26);
            t[i][w] = 0;
        }
    made = true;
    return t[k];
}
inline int key_of_text(const char* p, size_t n)
{
    if (n == 1 && p[0] == '~') return GONE;
    if (n == 2 && p[0] == '-') return EXPIRED;
    int k = n >= 4 ? std::atoi(std::string(p, 4).c_str()) : -2;
    if (k < 0 || k >= KEYS || std::strlen(text_of(k)) != n || std::memcmp(text_of(k), p, n)) violation(P_(1) | P_(2) | P_(3) | P_(5), "a text that was never put in (%zu characters)", n);
    return k;
}

// objects looked after by shared pointers: one per key, the pool itself owns each once
struct Life
{
    int key; u64 mark;
    static long& alive() { static long a = 0; return a; }
    explicit Life(int k) noexcept : key(k), mark(0x11fe11fe) { ++alive(); }
    ~Life() { if (mark != 0x11fe11fe) violation(P_(10), "an owned object was destroyed twice"); mark = 0; --alive(); }
private:
    Life(const Life&);
};
typedef nestl::shared_ptr<Life> SP;
typedef nestl::shared_ptr<const Life> SCP;
typedef nestl::weak_ptr<Life> WP;
struct Pool { SP sp[KEYS]; };
inline Pool& pool() { static Pool p; return p; }
inline int life_key(const Life* p)
{
    if (!p) return GONE;
    if (p->mark != 0x11fe11fe) violation(P_(10) | P_(11), "a pointer designates an object that was destroyed");
    if (p->key < 0 || p->key >= KEYS || pool().sp[p->key].get() != p) violation(P_(10) | P_(11), "a pointer designates another object than it should");
    return p->key;
}

// sole owner; cannot be copied
struct Own
{
    int* p;
    static long& alive() { static long a = 0; return a; }
    Own() noexcept : p(nullptr) { ++alive(); }
    explicit Own(int k) noexcept : p((int*)std::malloc(sizeof(int))) { *p = k; ++alive(); }
    Own(Own&& o) noexcept : p(o.p) { o.p = nullptr; ++alive(); }
    Own& operator=(Own&& o) noexcept { if (this != &o) { std::free(p); p = o.p; o.p = nullptr; } return *this; }
    ~Own() { std::free(p); p = nullptr; --alive(); }
    Own(const Own&) = delete;
    Own& operator=(const Own&) = delete;
    friend bool operator<(const Own& a, const Own& b) { return *a.p < *b.p; }
    friend bool operator==(const Own& a, const Own& b) { return *a.p == *b.p; }
};

// knows where it lives, but needs no destructor: copying it is more than copying its bytes
struct Loc
{
    const Loc* at; int k;
    Loc() noexcept : at(this), k(EXPIRED) {}
    Loc(int v) noexcept : at(this), k(v) {}
    Loc(const Loc& o) noexcept : at(this), k(o.key("copied")) {}
    Loc& operator=(const Loc& o) noexcept { key("assigned to"); k = o.key("assigned from"); return *this; }
    int key(const char* what) const { if (at != this) violation(P_(5), "an element was used (%s) where none was constructed", what); return k; }
    friend bool operator==(const Loc& a, const Loc& b) { return a.key("compared") == b.key("compared"); }
    friend bool operator<(const Loc& a, const Loc& b) { return a.key("compared") < b.key("compared"); }
};
// wants more alignment than the default allocator promises; only for allocators that give it
struct alignas(64) Over
{
    int k; char pad[70];
    explicit Over(int v = EXPIRED) noexcept : k(v) { aligned(); std::memset(pad, 0x3c, sizeof pad); }
    Over(const Over& o) noexcept : k(o.key()) { aligned(); std::memset(pad, 0x3c, sizeof pad); }
    Over& operator=(const Over& o) noexcept { key(); k = o.key(); return *this; }
    ~Over() { key(); k = -5; }
    void aligned() const { if ((uintptr_t)this % 64) violation(P_(5) | P_(6), "element of a 64-byte aligned type placed at %p", (const void*)this); }
    int key() const { aligned(); for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != 0x3c) violation(P_(5) | P_(6), "bytes inside a live element were overwritten"); return k; }
    friend bool operator==(const Over& a, const Over& b) { return a.key() == b.key(); }
    friend bool operator<(const Over& a, const Over& b) { return a.key() < b.key(); }
};
// three bytes, made from a number in another representation
struct Rgb
{
    unsigned char c[3];
    Rgb() noexcept { c[0] = c[1] = c[2] = 0; }
    Rgb(int v) noexcept { c[0] = (unsigned char)v; c[1] = (unsigned char)(v * 3); c[2] = (unsigned char)~v; }
    int key() const { if (c[1] != (unsigned char)(c[0] * 3) || c[2] != (unsigned char)~c[0]) violation(P_(1) | P_(2) | P_(5), "a value that was never put in"); return c[0]; }
    friend bool operator==(const Rgb& a, const Rgb& b) { return a.key() == b.key(); }
    friend bool operator<(const Rgb& a, const Rgb& b) { return a.key() < b.key(); }
};
enum Hue : short { HUE0 };
enum class Tone : unsigned char { A };
struct Left { int l; };
struct Right { int r; };
struct Both : Left, Right { int k; };
inline Both* boths() { static Both b[KEYS]; return b; }

// what the drivers need to know about a type: how to make one, read its key, whether it can tell it was moved from
template <class T> struct RT;
template <> struct RT<Text>
{
    static Text make(int k) { return Text(text_of(k)); }
    static int key(const Text& t) { t.check("read"); return key_of_text(t.p, t.n); }
    static const bool moves = true;
    static long alive() { return Text::alive(); }
};
template <> struct RT<const char*> { static const char* make(int k) { return text_of(k); } static int key(const char* s) { return key_of_text(s, std::strlen(s)); } static const bool moves = false; static long alive() { return -1; } };
template <class N> struct RTNum { static N make(int k) { return (N)k; } static int key(N t) { if ((N)(int)t != t) violation(P_(1) | P_(2) | P_(3) | P_(5), "a number that was never put in"); return (int)t; } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<int> : RTNum<int> {};
template <> struct RT<short> : RTNum<short> {};
template <> struct RT<signed char> : RTNum<signed char> {};
template <> struct RT<long long> : RTNum<long long> {};
template <> struct RT<float> : RTNum<float> {};
template <> struct RT<double> : RTNum<double> {};
template <> struct RT<unsigned> : RTNum<unsigned> {};
template <> struct RT<unsigned short> : RTNum<unsigned short> {};
template <> struct RT<char32_t> : RTNum<char32_t> {};
template <> struct RT<long double> : RTNum<long double> {};
template <> struct RT<Hue> { static Hue make(int k) { return (Hue)k; } static int key(Hue h) { return h; } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Tone> { static Tone make(int k) { return (Tone)k; } static int key(Tone h) { return (int)h; } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Loc> { static Loc make(int k) { return Loc(k); } static int key(const Loc& l) { return l.key("read"); } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Over> { static Over make(int k) { return Over(k); } static int key(const Over& l) { return l.key(); } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Rgb> { static Rgb make(int k) { return Rgb(k); } static int key(const Rgb& l) { return l.key(); } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<bool> { static bool make(int k) { return k != 0; } static int key(bool b) { return b ? 1 : 0; } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Right*> { static Right* make(int k) { return boths() + k; } static int key(Right* p) { Both* b = static_cast<Both*>(p); if (b < boths() || b >= boths() + KEYS) violation(P_(1) | P_(2) | P_(5), "a pointer that was never put in"); return (int)(b - boths()); } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<Both*> { static Both* make(int k) { return boths() + k; } static int key(Both* b) { return (int)(b - boths()); } static const bool moves = false; static long alive() { return -1; } };
template <> struct RT<SP> { static SP make(int k) { return pool().sp[k]; } static int key(const SP& p) { return life_key(p.get()); } static const bool moves = true; static long alive() { return -1; } };
template <> struct RT<WP>
{
    static WP make(int k) { return WP(pool().sp[k]); }
    static int key(const WP& c) { WP& w = const_cast<WP&>(c); if (c.expired()) return EXPIRED; SP s = w.lock(); if (!s) violation(P_(11), "a weak pointer is not expired, but cannot be locked"); return life_key(s.get()); }
    static const bool moves = false; static long alive() { return -1; }
};
template <> struct RT<Own> { static Own make(int k) { return Own(k); } static int key(const Own& o) { return o.p ? *o.p : GONE; } static const bool moves = true; static long alive() { return Own::alive(); } };
#if VF_EX
template <> struct RT<std::string> { static std::string make(int k) { return std::string(text_of(k)); } static int key(const std::string& s) { return key_of_text(s.data(), s.size()); } static const bool moves = false; static long alive() { return -1; } };
struct Fn { int k; int operator()() const { return k; } };
template <> struct RT<Fn> { static Fn make(int k) { Fn f = { k }; return f; } static int key(const Fn& f) { return f.k; } static const bool moves = false; static long alive() { return -1; } };
typedef std::function<int()> Func;
template <> struct RT<Func> { static Func make(int k) { Fn f = { k }; return Func(f); } static int key(const Func& f) { return f ? f() : GONE; } static const bool moves = true; static long alive() { return -1; } };
#endif

template <class T> struct Law { static const bool less = true; static const bool eq = true; };
template <> struct Law<SP> { static const bool less = false; static const bool eq = false; };
template <> struct Law<WP> { static const bool less = false; static const bool eq = false; };
template <> struct Law<Right*> { static const bool less = false; static const bool eq = true; };
#if VF_EX
template <> struct Law<Func> { static const bool less = false; static const bool eq = false; };
#endif

struct ByKey
{
    int dir;
    explicit ByKey(int d = 1) : dir(d) {}
    template <class T> bool operator()(const T& a, const T& b) const { int x = RT<T>::key(a), y = RT<T>::key(b); return dir > 0 ? x < y : y < x; }
};

// a source that makes its elements up as it goes: read once, by value
template <class S>
struct Gen
{
    typedef std::input_iterator_tag iterator_category;
    typedef S value_type; typedef std::ptrdiff_t difference_type; typedef const S* pointer; typedef S reference;
    const std::vector<int>* k; size_t i;
    Gen(const std::vector<int>* v, size_t n) : k(v), i(n) {}
    S operator*() const { if (i >= k->size()) violation(P_(1) | P_(2) | P_(13), "a source was read past its end"); return RT<S>::make((*k)[i]); }
    Gen& operator++() { ++i; return *this; }
    Gen operator++(int) { Gen g(*this); ++i; return g; }
    friend bool operator==(const Gen& a, const Gen& b) { return a.i == b.i; }
    friend bool operator!=(const Gen& a, const Gen& b) { return a.i != b.i; }
};

// an array of exactly n elements
template <class S>
struct Arr
{
    S* p; size_t n;
    static void* raw(size_t bytes) { if (alignof(S) <= 16) return std::malloc(bytes ? bytes : 1); void* m = nullptr; if (posix_memalign(&m, alignof(S), bytes ? bytes : 1)) std::abort(); return m; }
    explicit Arr(const std::vector<int>& v) : p(static_cast<S*>(raw(v.size() * sizeof(S)))), n(v.size()) { for (size_t i = 0; i < n; ++i) ::new ((void*)(p + i)) S(RT<S>::make(v[i])); }
    ~Arr() { for (size_t i = 0; i < n; ++i) p[i].~S(); std::free(p); }
    std::vector<int> keys() const { std::vector<int> k; for (size_t i = 0; i < n; ++i) k.push_back(RT<S>::key(p[i])); return k; }
private:
    Arr(const Arr&); Arr& operator=(const Arr&);
};

typedef std::vector<int> Keys;

struct Plan { int step; int fk; long long k; bool storm; Plan() : step(-1), fk(F_NONE), k(0), storm(false) {} };

// ---------------------------------------------------------------- what vectors and lists have in common
template <class C> struct Kind { static const bool list = false; static const u64 seq = P_(1); };
template <class T, class A> struct Kind<nestl::no_exceptions::list<T, A>> { static const bool list = true; static const u64 seq = P_(2); };
#if VF_EX
template <class T, class A> struct Kind<nestl::has_exceptions::list<T, A>> { static const bool list = true; static const u64 seq = P_(2); };
#endif
// the form without exceptions, where there is one to be had
template <class V> auto nx_(V& v, int) -> decltype(v.as_noexcept()) { return v.as_noexcept(); }
template <class V> V& nx_(V& v, long) { return v; }
template <class V> auto nx(V& v) -> decltype(nx_(v, 0)) { return nx_(v, 0); }

// FULL: the list that has every operation (the one that throws lacks some); the same in every build, for comparing builds
template <class C, class T, class S, class E, bool FULL = false>
struct Run
{
    typedef typename C::allocator_type A;
    typedef typename C::iterator I;
    enum { N = 2 };
    static const bool LIST = Kind<C>::list;
    static const bool COPY = std::is_copy_constructible<T>::value;
    static const u64 SEQ = Kind<C>::seq;

    Rng r; Plan plan; int step; bool fired;
    typename std::aligned_storage<sizeof(C), alignof(C)>::type buf[N];
    Keys m[N]; size_t lim; bool dead[KEYS];
    int arena[N];
    C& c(int i) { return *reinterpret_cast<C*>(&buf[i]); }

    Run(u64 seed, const Plan& p) : r(seed), plan(p), step(0), fired(false)
    {
        State& g = G(); g.ev.zero(); g.next_oid = 0; g.next_fault_id = 0; g.fault_seen = false;
        g.armed = false; set_fault(F_NONE, 0);
        for (int k = 0; k < KEYS; ++k) { DefErr e; pool().sp[k] = nestl::make_shared_nothrow<Life>(e, k); dead[k] = false; if (e) std::abort(); }
        for (int i = 0; i < N; ++i) { arena[i] = i + 1; ::new ((void*)&buf[i]) C(AllocOps<A>::make(arena[i])); }
        lim = r.chance(2, 3) ? 8 : 30;
    }
    ~Run()
    {
        for (int i = 0; i < N; ++i) { Call k; c(i).~C(); }
        for (int k = 0; k < KEYS; ++k)
        {
            if (!dead[k]) REQUIRE(pool().sp[k].use_count() == 1, P_(10) | P_(5), "an object has %ld owners after the containers of its owners are gone, expected 1", pool().sp[k].use_count());
            pool().sp[k].reset();
        }
        REQUIRE(Life::alive() == 0, P_(10) | P_(5), "%ld objects alive although nobody owns them", Life::alive());
        long a = RT<T>::alive();
        REQUIRE(a <= 0, P_(5), "%ld elements alive although their containers are gone", a);
    }
    int nk() { for (;;) { int k = (int)r.below(KEYS); if (!dead[k]) return k; } }
    int norm(int k) const { return RT<T>::key(RT<T>::make(k)); }
    Keys nks(size_t n) { Keys v; for (size_t i = 0; i < n; ++i) v.push_back(nk()); return v; }
    Keys normed(Keys v) const { for (size_t i = 0; i < v.size(); ++i) v[i] = norm(v[i]); return v; }
    void arm()
    {
        set_fault(F_NONE, 0);
        if (plan.storm) { if (r.chance(1, 3)) { const size_t far = r.chance(1, 3) ? 9 : 2; const long long n = 1 + (long long)r.below(far); set_fault(F_ALLOC, n, r.chance(1, 6)); } }
        else if (step == plan.step) set_fault(plan.fk, plan.k, false);
    }
    I at(C& x, size_t p) { I it = x.begin(); std::advance(it, p); return it; }
    Keys read(int i)
    {
        Keys k; C& x = c(i);
        for (I it = x.begin(); it != x.end(); ++it) { k.push_back(RT<T>::key(*it)); if (k.size() > 100000) violation(SEQ, "traversal does not end"); }
        return k;
    }
    void check(const char* what)
    {
        long total = 0; int own[KEYS] = { 0 };
        for (int i = 0; i < N; ++i)
        {
            C& x = c(i); const C& cx = x; const size_t n = m[i].size();
            Keys now = read(i);
            REQUIRE(now.size() == n && (size_t)cx.size() == n && cx.empty() == (n == 0), SEQ, "%s: container %d has %zu elements (size() %zu), ideal %zu", what, i, now.size(), (size_t)cx.size(), n);
            for (size_t j = 0; j < n; ++j) REQUIRE(now[j] == m[i][j], SEQ, "%s: container %d: element %zu of %zu has key %d, ideal %d", what, i, j, n, now[j], m[i][j]);
            size_t j = n;
            for (typename C::const_reverse_iterator it = cx.rbegin(); it != cx.rend(); ++it) { REQUIRE(j > 0 && RT<T>::key(*it) == m[i][j - 1], SEQ, "%s: backward traversal wrong", what); --j; }
            REQUIRE(j == 0, SEQ, "%s: backward traversal ends early", what);
            for (j = 0; j < n; ++j) if (m[i][j] >= 0 && m[i][j] < KEYS) ++own[m[i][j]];
            total += (long)n;
            for (j = 0; j < n; ++j) obs((u64)now[j]);
            obs(n);
            if (AllocOps<A>::monitored) REQUIRE(AllocOps<A>::arena(cx.get_allocator()) == arena[i], P_(6), "%s: allocator %d reported, %d given", what, AllocOps<A>::arena(cx.get_allocator()), arena[i]);
        }
        if (RT<T>::alive() >= 0) REQUIRE(RT<T>::alive() == total, P_(5), "%s: %ld elements alive, %ld in the containers", what, RT<T>::alive(), total);
        if (std::is_same<T, SP>::value)
            for (int k = 0; k < KEYS; ++k) if (!dead[k])
            {
                COV("owners in containers counted");
                REQUIRE(pool().sp[k].use_count() == 1 + own[k] && pool().sp[k].unique() == (own[k] == 0), P_(10) | P_(5), "%s: object %d has use count %ld, its owners are %d", what, k, pool().sp[k].use_count(), 1 + own[k]);
            }
        if (std::is_same<T, WP>::value)
            for (int k = 0; k < KEYS; ++k) if (!dead[k]) REQUIRE(pool().sp[k].use_count() == 1, P_(11) | P_(10), "%s: object %d has use count %ld although it is only observed", what, k, pool().sp[k].use_count());
    }
    // after a failure: what of the old contents must still be there
    enum Keep { ALL, SPLIT, PREFIX, NOTHING };
    bool settle(const char* what, const E& err, int i, Keep keep, size_t p, const Keys& want, u64 tags)
    {
        State& g = G();
        const bool f = g.fired;
        ErrInfo ei = check_err(err, tags, what); check_sets(err, f);
        set_fault(F_NONE, 0);
        sig(mix2(hash(what), mix2(std::min<size_t>(m[i].size(), 16) * 64 + p % 64, (u64)f * 4096 + (u64)std::max(plan.k, 0ll))));
        if (ei.cat == 0) { m[i] = want; return true; }
        fired = true;
        Keys now = read(i); const Keys& old = m[i];
        const u64 t = P_(7) | SEQ;
        if (keep == ALL) REQUIRE(now == old, t, "%s failed and changed the contents", what);
        if (keep == SPLIT)
            REQUIRE(now.size() >= old.size() && std::equal(old.begin(), old.begin() + (long)p, now.begin()) && std::equal(old.begin() + (long)p, old.end(), now.end() - (long)(old.size() - p)), t, "%s failed and disturbed elements that were there before", what);
        if (keep == PREFIX)
            REQUIRE(now.size() >= old.size() && std::equal(old.begin(), old.end(), now.begin()), t, "%s failed and disturbed elements that were there before", what);
        m[i] = now;
        COV("failed steps over ordinary types");
        return false;
    }

    // ---- operations that copy elements; a type that cannot be copied has none of them
    template <bool Y> typename std::enable_if<!Y>::type copying(int, u64) {}
    template <class It>
    void range(const char* what, int i, It f, It l, const Keys& k, bool assign, size_t p)
    {
        C& x = c(i); E err; Keys want = m[i];
        if (assign) want = normed(k); else { Keys nn = normed(k); want.insert(want.begin() + (long)p, nn.begin(), nn.end()); }
        auto pos = at(x, p);
        arm();
        Call call;
        if (assign) x.assign_nothrow(err, f, l); else x.insert_nothrow(err, pos, f, l);
        call.done();
        settle(what, err, i, assign ? NOTHING : SPLIT, p, want, SEQ);
    }
    template <bool Y> typename std::enable_if<Y>::type copying(int i, int op)
    {
        C& x = c(i); const int o = 1 - i;
        switch (op)
        {
        case 0: { // append a copy
            int k = nk(); T v(RT<T>::make(k)); Keys want = m[i]; want.push_back(norm(k)); E err; logf("append a copy of %d", k);
            arm(); Call call; x.push_back_nothrow(err, (const T&)v); call.done();
            REQUIRE(RT<T>::key(v) == norm(k), P_(12), "appending a copy changed the original");
            settle("push_back copy", err, i, ALL, 0, want, SEQ); break; }
        case 1: { // insert a copy
            int k = nk(); size_t p = r.below(m[i].size() + 1); T v(RT<T>::make(k)); Keys want = m[i]; want.insert(want.begin() + (long)p, norm(k)); E err; logf("insert a copy of %d at %zu", k, p);
            auto pos = at(x, p); arm(); Call call; I it = x.insert_nothrow(err, pos, (const T&)v); call.done();
            REQUIRE(RT<T>::key(v) == norm(k), P_(12), "inserting a copy changed the original");
            if (settle("insert copy", err, i, ALL, p, want, SEQ)) REQUIRE(it == at(x, p), SEQ, "insert returned the wrong position");
            break; }
        case 2: { // insert an element of its own
            if (m[i].empty()) break;
            size_t q = r.below(m[i].size()), p = r.below(m[i].size() + 1); Keys want = m[i]; want.insert(want.begin() + (long)p, m[i][q]); E err; logf("insert own element %zu at %zu", q, p);
            auto pos = at(x, p); const T& src = *at(x, q); arm(); Call call; x.insert_nothrow(err, pos, src); call.done();
            settle("insert own element", err, i, ALL, p, want, SEQ); break; }
        case 3: { // insert several
            if (!LIST) break;
            int k = nk(); size_t n = r.below(5), p = r.below(m[i].size() + 1); T v(RT<T>::make(k)); Keys want = m[i]; want.insert(want.begin() + (long)p, n, norm(k)); E err; logf("insert %zu copies of %d at %zu", n, k, p);
            auto pos = at(x, p); arm(); Call call; several(x, err, pos, n, v, is_list()); call.done();
            settle("insert several", err, i, SPLIT, p, want, SEQ); break; }
        case 4: { // assign several
            int k = nk(); size_t n = r.below(7); T v(RT<T>::make(k)); Keys want(n, norm(k)); E err; logf("assign %zu copies of %d", n, k);
            arm(); Call call; x.assign_nothrow(err, n, v); call.done();
            settle("assign several", err, i, NOTHING, 0, want, SEQ); break; }
        case 5: { // copy
            E err; logf("copy"); if (LIST && !FULL) break; Keys from = m[o]; arm(); Call call; copy(x, c(o), err, std::integral_constant<bool, !LIST || FULL>()); call.done();
            settle("copy", err, i, NOTHING, 0, from, SEQ);
            REQUIRE(read(o) == from, SEQ | P_(7), "copying changed the source"); break; }
        case 6: ranges_<T>(i); break;
        case 7: ranges_<S>(i); break;
        case 8: { // from the other container
            size_t n = m[o].size(), a = r.below(n + 1), b = a + r.below(n - a + 1), p = r.below(m[i].size() + 1); const bool assign = r.chance(1, 3); Keys k(m[o].begin() + (long)a, m[o].begin() + (long)b), want = m[i]; E err; logf("%s [%zu,%zu) of the other at %zu", assign ? "assign" : "insert", a, b, p);
            if (assign) want = k; else want.insert(want.begin() + (long)p, k.begin(), k.end());
            auto pos = at(x, p); I f = at(c(o), a), l = at(c(o), b); arm(); Call call;
            if (assign) x.assign_nothrow(err, f, l); else x.insert_nothrow(err, pos, f, l);
            call.done(); settle("from the other", err, i, assign ? NOTHING : SPLIT, p, want, SEQ); break; }
        case 9: more(i, std::integral_constant<bool, LIST>()); break;
        default: break;
        }
    }
    template <class Src> void ranges_(int i)
    {
        const bool assign = r.chance(1, 3); const size_t p = assign ? 0 : r.below(m[i].size() + 1);
        Keys k = nks(r.below(r.chance(1, 5) ? 20 : 6));
        const bool same = std::is_same<Src, T>::value;
        logf("%s of %zu %s", assign ? "assign" : "insert", k.size(), same ? "of its own type" : "of another type");
        if (!same) COV("ranges of another type");
        int from = (int)r.below(8);
        if (alignof(Src) > 16 && (from == 3 || from > 5)) from = 5; // (the standard containers do not provide for them)
        switch (from)
        {
        case 0: { COV("ranges from constant arrays"); Arr<Src> a(k); range("constant array", i, (const Src*)a.p, (const Src*)(a.p + a.n), k, assign, p); intact(a, k); break; }
        case 1: { COV("ranges from arrays"); Arr<Src> a(k); range("array", i, a.p, a.p + a.n, k, assign, p); intact(a, k); break; }
        case 2: {
            COV("moved ranges"); Arr<Src> a(k);
            range("moved array", i, std::make_move_iterator(a.p), std::make_move_iterator(a.p + a.n), k, assign, p);
            if (RT<Src>::moves && same && !fired) for (size_t j = 0; j < a.n; ++j) REQUIRE(RT<Src>::key(a.p[j]) == GONE, P_(12), "element %zu of a range handed over as rvalues was copied", j);
            break; }
        case 3: { COV("ranges from lists"); std::list<Src> a; for (size_t j = 0; j < k.size(); ++j) a.push_back(RT<Src>::make(k[j])); range("list", i, a.cbegin(), a.cend(), k, assign, p); break; }
        case 4: { COV("generated ranges"); range("generator", i, Gen<Src>(&k, 0), Gen<Src>(&k, k.size()), k, assign, p); break; }
        case 5: { COV("reversed ranges"); Keys rk(k.rbegin(), k.rend()); Arr<Src> a(rk); typedef std::reverse_iterator<const Src*> RI; range("reversed array", i, RI(a.p + a.n), RI(a.p), k, assign, p); intact(a, rk); break; }
        case 6: { COV("ranges from deques"); std::deque<Src> a; size_t h = k.size() / 2; for (size_t j = h; j < k.size(); ++j) a.push_back(RT<Src>::make(k[j])); for (size_t j = h; j-- > 0;) a.push_front(RT<Src>::make(k[j])); range("deque", i, a.begin(), a.end(), k, assign, p); break; }
        default: { COV("ranges from forward lists"); std::forward_list<Src> a; for (size_t j = k.size(); j-- > 0;) a.push_front(RT<Src>::make(k[j])); range("forward list", i, a.begin(), a.end(), k, assign, p); }
        }
    }
    template <class Src> void intact(const Arr<Src>& a, const Keys& k)
    {
        for (size_t j = 0; j < a.n; ++j) REQUIRE(RT<Src>::key(a.p[j]) == RT<Src>::key(RT<Src>::make(k[j])), P_(12), "element %zu of a range that was only to be read changed", j);
    }
    void more(int i, std::true_type) // list: emplace from the other type
    {
        C& x = c(i); int k = nk(); size_t p = r.below(m[i].size() + 1); Keys want = m[i]; want.insert(want.begin() + (long)p, norm(k)); E err; logf("emplace %d at %zu", k, p);
        S s(RT<S>::make(k)); auto pos = at(x, p); arm(); Call call; I it = x.emplace_nothrow(err, pos, (const S&)s); call.done();
        if (settle("emplace", err, i, ALL, p, want, SEQ)) REQUIRE(it == at(x, p), SEQ, "emplace returned the wrong position");
    }
    void more(int i, std::false_type) // vector: resize, reserve, shrink
    {
        C& x = c(i); E err;
        int what = (int)r.below(4); size_t n = r.below(14);
        if (what == 0) { int k = nk(); T v(RT<T>::make(k)); Keys want = m[i]; want.resize(n, norm(k)); logf("resize %zu", n); arm(); Call call; x.resize_nothrow(err, n, v); call.done(); settle("resize", err, i, n < m[i].size() ? ALL : PREFIX, 0, want, SEQ); }
        else if (what == 1) { Keys want = m[i]; logf("reserve %zu", n); arm(); Call call; x.reserve_nothrow(err, n); call.done(); if (settle("reserve", err, i, ALL, 0, want, SEQ)) REQUIRE(x.capacity() >= n, SEQ | P_(14), "capacity %zu after reserve(%zu)", (size_t)x.capacity(), n); }
        else if (what == 2) { Keys want = m[i]; logf("shrink"); arm(); Call call; x.shrink_to_fit_nothrow(err); call.done(); settle("shrink", err, i, ALL, 0, want, SEQ); }
        else if (m[i].size()) { Keys want = m[i]; size_t q = r.below(want.size()); want.push_back(want[q]); logf("append own element %zu", q); const T& src = *at(x, q); arm(); Call call; x.push_back_nothrow(err, src); call.done(); settle("append own element", err, i, ALL, 0, want, SEQ); }
    }

    // ---- operations every type has
    void step_()
    {
        const int i = (int)r.below(N), o = 1 - i;
        C& x = c(i);
        int op = (int)r.below(20);
        if (op == 10) op = 6;
        if (m[i].size() > lim && op < 12) op = 13 + (int)r.below(2);
        fired = false;
        const char* what = "?";
        if (op < 11) { copying<COPY>(i, op); what = "copying step"; }
        else switch (op)
        {
        case 11: case 12: { // hand one over
            int k = nk(); size_t p = op == 11 ? m[i].size() : r.below(m[i].size() + 1); T v(RT<T>::make(k)); Keys want = m[i]; want.insert(want.begin() + (long)p, norm(k)); E err; logf("hand over %d at %zu", k, p);
            what = "handing one over";
            if (!COPY && !LIST) break;
            auto pos = at(x, p); arm(); Call call; if (op == 11) x.push_back_nothrow(err, std::move(v)); else x.insert_nothrow(err, pos, std::move(v)); call.done();
            if (settle(what, err, i, ALL, p, want, SEQ)) { if (RT<T>::moves) REQUIRE(RT<T>::key(v) == GONE, P_(12), "an element handed over was copied"); }
            else REQUIRE(RT<T>::key(v) == norm(k), P_(7) | P_(12), "an element that could not be inserted was lost");
            break; }
        case 13: { if (m[i].empty() || !LIST) break; what = "erase"; size_t p = r.below(m[i].size()); logf("erase %zu", p); auto pos = at(x, p); Call call; I it = erase1(x, pos, is_list()); call.done(); m[i].erase(m[i].begin() + (long)p); REQUIRE(it == at(x, p), SEQ, "erase returned the wrong position"); break; }
        case 14: { if (!LIST) { what = "clear"; logf(what); Call call; x.clear(); call.done(); m[i].clear(); break; } what = "erase range"; size_t n = m[i].size(), a = r.below(n + 1), b = a + r.below(n - a + 1); logf("erase [%zu,%zu)", a, b); auto f = at(x, a), l = at(x, b); Call call; I it = erase2(x, f, l, is_list()); call.done(); m[i].erase(m[i].begin() + (long)a, m[i].begin() + (long)b); REQUIRE(it == at(x, a), SEQ, "erase returned the wrong position"); break; }
        case 15: { if (m[i].empty() || !LIST) break; what = "pop_back"; logf(what); Call call; pop(x, is_list()); call.done(); m[i].pop_back(); break; }
        case 16: { what = "swap"; logf(what); if (LIST && !FULL) break; Call call; swap(x, c(o), std::integral_constant<bool, !LIST || FULL>()); call.done(); std::swap(m[0], m[1]); std::swap(arena[0], arena[1]); break; }
        case 17: { what = "move"; logf(what); Call call; x = std::move(c(o)); call.done(); m[i] = m[o]; m[o].clear(); arena[i] = read_arena(i); break; }
        case 18: { what = "write"; if (m[i].empty()) break; size_t p = r.below(m[i].size()); int k = nk(); logf("write %d to %zu", k, p); *at(x, p) = RT<T>::make(k); m[i][p] = norm(k); break; }
        default: lists(i, what, std::integral_constant<bool, LIST && FULL>()); break;
        }
        check(what);
        ++step;
    }
    typedef std::integral_constant<bool, LIST> is_list;
    template <class X> void several(X& x, E& err, I pos, size_t n, const T& v, std::true_type) { x.insert_nothrow(err, pos, n, v); }
    template <class X> void several(X&, E&, I, size_t, const T&, std::false_type) {}
    template <class X> void pop(X& x, std::true_type) { x.pop_back(); }
    template <class X> void pop(X&, std::false_type) {}
    template <class X> I erase1(X& x, I p, std::true_type) { return x.erase(p); }
    template <class X> I erase1(X& x, I p, std::false_type) { return p; }
    template <class X> I erase2(X& x, I f, I l, std::true_type) { return x.erase(f, l); }
    template <class X> I erase2(X& x, I f, I l, std::false_type) { return f; }
    template <class X> void swap(X& a, X& b, std::true_type) { nx(a).swap(nx(b)); }
    template <class X> void swap(X&, X&, std::false_type) {}
    template <class X> void copy(X& a, X& b, E& err, std::true_type) { nx(a).copy_nothrow(err, nx(b)); }
    template <class X> void copy(X&, X&, E&, std::false_type) {}
    int read_arena(int i) { return AllocOps<A>::monitored ? AllocOps<A>::arena(c(i).get_allocator()) : arena[i]; }
    void lists(int i, const char*& what, std::false_type)
    {
        // an owner lets go while others observe
        what = "an owner lets go";
        if (!std::is_same<T, WP>::value || !r.chance(1, 3)) return;
        int left = 0; for (int k = 0; k < KEYS; ++k) left += !dead[k];
        if (left < 4) return;
        int k = nk(); logf("owner of %d lets go", k);
        dead[k] = true; pool().sp[k].reset();
        for (int j = 0; j < N; ++j) for (size_t q = 0; q < m[j].size(); ++q) if (m[j][q] == k) m[j][q] = EXPIRED;
        COV("observers in containers outlived the object");
        (void)i;
    }
    void lists(int i, const char*& what, std::true_type)
    {
        C& x = c(i); const int o = 1 - i;
        int op = (int)r.below(6);
        // (nodes may only change lists whose allocators are equal)
        const bool same = arena[0] == arena[1];
        if (op == 0) { lists(i, what, std::false_type()); }
        else if (op == 1) { what = "sort"; int d = r.chance(1, 2) ? 1 : -1; logf("sort %d", d); Call call; x.sort(ByKey(d)); call.done(); std::stable_sort(m[i].begin(), m[i].end(), [d](int a, int b) { return d > 0 ? a < b : b < a; }); }
        else if (op == 2) { what = "plain sort"; if (plain_sort(x, std::integral_constant<bool, Law<T>::less>())) std::stable_sort(m[i].begin(), m[i].end()); }
        else if (op == 3 && same) { what = "merge"; logf(what); for (int j = 0; j < N; ++j) { std::stable_sort(m[j].begin(), m[j].end()); Call call; c(j).sort(ByKey(1)); call.done(); } Call call; x.merge(c(o), ByKey(1)); call.done(); Keys out; std::merge(m[i].begin(), m[i].end(), m[o].begin(), m[o].end(), std::back_inserter(out)); m[i] = out; m[o].clear(); }
        else if (op == 4 && same) { what = "splice"; size_t p = r.below(m[i].size() + 1), n = m[o].size(), a = r.below(n + 1), b = a + r.below(n - a + 1); logf("splice [%zu,%zu) to %zu", a, b, p); auto pos = at(x, p), f = at(c(o), a), l = at(c(o), b); Call call; x.splice(pos, c(o), f, l); call.done(); m[i].insert(m[i].begin() + (long)p, m[o].begin() + (long)a, m[o].begin() + (long)b); m[o].erase(m[o].begin() + (long)a, m[o].begin() + (long)b); }
        else if (m[i].size()) { what = "pop_front"; logf(what); Call call; x.pop_front(); call.done(); m[i].erase(m[i].begin()); }
    }
    bool plain_sort(C& x, std::true_type) { logf("sort"); Call call; x.sort(); call.done(); return true; }
    bool plain_sort(C&, std::false_type) { return false; }
};

// ---------------------------------------------------------------- sets with ordinary comparison objects
template <class T, class K> struct Order { static K make(int) { return K(); } static int dir(int) { return 1; } static const bool assignable = true; };
template <class T> struct Order<T, std::greater<T>> { static std::greater<T> make(int) { return std::greater<T>(); } static int dir(int) { return -1; } static const bool assignable = true; };
template <class T> struct Order<T, ByKey> { static ByKey make(int d) { return ByKey(d); } static int dir(int d) { return d; } static const bool assignable = true; };
template <class T> bool up(const T& a, const T& b) { return RT<T>::key(a) < RT<T>::key(b); }
template <class T> bool down(const T& a, const T& b) { return RT<T>::key(b) < RT<T>::key(a); }
template <class T> struct Order<T, bool (*)(const T&, const T&)> { typedef bool (*F)(const T&, const T&); static F make(int d) { return d > 0 ? &up<T> : &down<T>; } static int dir(int d) { return d; } static const bool assignable = true; };
template <class T> struct Order<T, std::function<bool(const T&, const T&)>> { typedef std::function<bool(const T&, const T&)> F; static F make(int d) { return d > 0 ? F(&up<T>) : F(ByKey(-1)); } static int dir(int d) { return d; } static const bool assignable = false; };
// (copying one may fail, which only a build with exceptions can report)
template <class T> struct Chosen : std::function<bool(const T&, const T&)> { typedef std::function<bool(const T&, const T&)> F; Chosen() {} explicit Chosen(F f) : F(f) {} };
template <class T> struct Order<T, Chosen<T>> { static Chosen<T> make(int d) { return Chosen<T>(Order<T, typename Chosen<T>::F>::make(d)); } static int dir(int d) { return d; } static const bool assignable = true; };

template <class C, class T, class S, class K, class E>
struct SetRun
{
    typedef typename C::allocator_type A;
    typedef typename C::iterator I;
    enum { N = 2 };
    static const bool COPY = std::is_copy_constructible<T>::value;
    Rng r; Plan plan; int step; bool fired;
    typename std::aligned_storage<sizeof(C), alignof(C)>::type buf[N];
    Keys m[N]; int dir[N]; int arena[N];
    C& c(int i) { return *reinterpret_cast<C*>(&buf[i]); }
    SetRun(u64 seed, const Plan& p) : r(seed), plan(p), step(0), fired(false)
    {
        State& g = G(); g.ev.zero(); g.next_oid = 0; g.next_fault_id = 0; g.fault_seen = false; g.armed = false; set_fault(F_NONE, 0);
        for (int k = 0; k < KEYS; ++k) { DefErr e; pool().sp[k] = nestl::make_shared_nothrow<Life>(e, k); if (e) std::abort(); }
        for (int i = 0; i < N; ++i) { int d = r.chance(1, 2) ? 1 : -1; dir[i] = Order<T, K>::dir(d); arena[i] = i + 1; ::new ((void*)&buf[i]) C(Order<T, K>::make(d), AllocOps<A>::make(arena[i])); }
    }
    ~SetRun()
    {
        for (int i = 0; i < N; ++i) { Call k; c(i).~C(); }
        for (int k = 0; k < KEYS; ++k) { REQUIRE(pool().sp[k].use_count() == 1, P_(10) | P_(5), "an object has %ld owners after the sets of its owners are gone, expected 1", pool().sp[k].use_count()); pool().sp[k].reset(); }
        long a = RT<T>::alive();
        REQUIRE(a <= 0, P_(5), "%ld keys alive although their sets are gone", a);
    }
    void arm()
    {
        set_fault(F_NONE, 0);
        if (plan.storm) { if (r.chance(1, 3)) { const long long n = 1 + (long long)r.below(3); set_fault(F_ALLOC, n, r.chance(1, 6)); } }
        else if (step == plan.step) set_fault(plan.fk, plan.k, false);
    }
    bool before(int i, int a, int b) const { return dir[i] > 0 ? a < b : b < a; }
    size_t place(int i, int k, bool& hit) const { size_t p = 0; while (p < m[i].size() && before(i, m[i][p], k)) ++p; hit = p < m[i].size() && m[i][p] == k; return p; }
    Keys read(int i) { Keys k; C& x = c(i); for (I it = x.begin(); it != x.end(); ++it) { k.push_back(RT<T>::key(*it)); if (k.size() > 1000) violation(P_(3), "set traversal does not end"); } return k; }
    I at(C& x, size_t p) { I it = x.begin(); std::advance(it, p); return it; }
    void check(const char* what)
    {
        long total = 0; int own[KEYS] = { 0 };
        for (int i = 0; i < N; ++i)
        {
            C& x = c(i); const C& cx = x; Keys now = read(i); const size_t n = m[i].size();
            REQUIRE(now == m[i] && (size_t)cx.size() == n && cx.empty() == (n == 0), P_(3), "%s: set %d differs from the ideal one (%zu keys, size() %zu, ideal %zu)", what, i, now.size(), (size_t)cx.size(), n);
            size_t j = n;
            for (typename C::const_reverse_iterator it = cx.rbegin(); it != cx.rend(); ++it) { REQUIRE(j > 0 && RT<T>::key(*it) == m[i][j - 1], P_(3), "%s: backward traversal wrong", what); --j; }
            for (j = 0; j < n; ++j) { ++own[m[i][j]]; obs((u64)now[j]); }
            total += (long)n; obs(n);
            if (AllocOps<A>::monitored) REQUIRE(AllocOps<A>::arena(cx.get_allocator()) == arena[i], P_(6), "%s: allocator %d reported, %d given", what, AllocOps<A>::arena(cx.get_allocator()), arena[i]);
        }
        if (RT<T>::alive() >= 0) REQUIRE(RT<T>::alive() == total, P_(5), "%s: %ld keys alive, %ld in the sets", what, RT<T>::alive(), total);
        if (std::is_same<T, SP>::value)
            for (int k = 0; k < KEYS; ++k) REQUIRE(pool().sp[k].use_count() == 1 + own[k], P_(10) | P_(5), "%s: object %d has use count %ld, its owners are %d", what, k, pool().sp[k].use_count(), 1 + own[k]);
    }
    bool settle(const char* what, const E& err, u64 extra)
    {
        const bool f = G().fired;
        ErrInfo ei = check_err(err, P_(3), what); check_sets(err, f); set_fault(F_NONE, 0);
        sig(mix2(hash(what), mix2(m[0].size() * 32 + m[1].size(), extra * 2 + (u64)f)));
        fired = fired || ei.cat != 0;
        if (ei.cat) COV("failed steps over ordinary types");
        return ei.cat == 0;
    }
    template <bool Y> typename std::enable_if<!Y>::type copying(int, int) {}
    template <bool Y> typename std::enable_if<Y>::type copying(int i, int op)
    {
        C& x = c(i); const int o = 1 - i; E err;
        if (op == 0) ins(i, (int)r.below(KEYS), false);
        else { logf("copy"); Keys from = m[o]; copy(i, o, err, std::integral_constant<bool, Order<T, K>::assignable>()); REQUIRE(read(o) == from, P_(3) | P_(7), "copying changed the source"); }
        (void)x;
    }
    void copy(int, int, E&, std::false_type) {}
    void copy(int i, int o, E& err, std::true_type)
    {
        arm(); Call call; c(i).copy_nothrow(err, c(o)); call.done();
        bool ok = settle("copy", err, 0);
        if (ok) { m[i] = m[o]; dir[i] = dir[o]; }
        else { m[i] = read(i); guess(i, o); }
    }
    // a failed copy leaves a usable set: find out which order it is in by using it
    void guess(int i, int o)
    {
        Call call; c(i).clear(); call.done(); m[i].clear();
        E e; set_fault(F_NONE, 0);
        { T a(RT<T>::make(1)), b(RT<T>::make(2)); Call c1; c(i).insert_nothrow(e, std::move(a)); c(i).insert_nothrow(e, std::move(b)); c1.done(); }
        REQUIRE(!e, P_(7), "a set is not usable after a failed copy");
        Keys k = read(i); REQUIRE(k.size() == 2, P_(7) | P_(3), "a set is not usable after a failed copy");
        int d = k[0] < k[1] ? 1 : -1;
        REQUIRE(d == dir[i] || d == dir[o], P_(3) | P_(7), "a set orders its keys by neither comparison object");
        dir[i] = d; m[i] = k;
    }
    void ins(int i, int k, bool hand)
    {
        C& x = c(i); bool hit; size_t p = place(i, k, hit); T v(RT<T>::make(k)); E err; logf("insert %d%s", k, hand ? " handed over" : "");
        Keys want = m[i]; if (!hit) want.insert(want.begin() + (long)p, k);
        arm(); Call call; auto res = put(x, err, v, hand, std::integral_constant<bool, COPY>()); call.done();
        if (settle("insert", err, (u64)p * 2 + hit))
        {
            m[i] = want;
            REQUIRE(res.second == !hit && res.first == at(x, p) && RT<T>::key(*res.first) == k, P_(3), "insert(%d) returned the wrong element or flag", k);
            if (hand && RT<T>::moves) REQUIRE((RT<T>::key(v) == GONE) == !hit, P_(12) | P_(3), "a key handed over was %s", hit ? "taken although an equal one was present" : "copied");
        }
        else { REQUIRE(read(i) == m[i], P_(7) | P_(3), "a failed insert changed the set"); REQUIRE(RT<T>::key(v) == k, P_(7) | P_(12), "a key that could not be inserted was lost"); }
        if (!hand) REQUIRE(RT<T>::key(v) == k, P_(12), "inserting a copy changed the original");
    }
    typename C::iterator_with_flag put(C& x, E& err, T& v, bool hand, std::true_type) { return hand ? x.insert_nothrow(err, std::move(v)) : x.insert_nothrow(err, (const T&)v); }
    typename C::iterator_with_flag put(C& x, E& err, T& v, bool, std::false_type) { return x.insert_nothrow(err, std::move(v)); }
    void step_()
    {
        const int i = (int)r.below(N), o = 1 - i; C& x = c(i); const C& cx = x; const char* what = "insert";
        int op = (int)r.below(14); bool hit;
        switch (op)
        {
        case 0: case 1: case 2: copying<COPY>(i, 0); break;
        case 3: copying<COPY>(i, 1); what = "copy"; break;
        case 4: case 5: ins(i, (int)r.below(KEYS), true); break;
        case 6: case 7: { what = "find"; int k = (int)r.below(KEYS); size_t p = place(i, k, hit); T v(RT<T>::make(k)); logf("find %d", k); Call call; bool f = x.find(v) == (hit ? at(x, p) : x.end()), g = cx.find(v) == (hit ? at(x, p) : x.end()); call.done(); REQUIRE(f && g, P_(3), "find(%d) is wrong", k); break; }
        case 8: { what = "erase key"; int k = (int)r.below(KEYS); size_t p = place(i, k, hit); T v(RT<T>::make(k)); logf("erase key %d", k); Call call; size_t n = x.erase(v); call.done(); REQUIRE(n == (hit ? 1u : 0u), P_(3), "erase(%d) returned %zu", k, n); if (hit) m[i].erase(m[i].begin() + (long)p); break; }
        case 9: { what = "erase"; if (m[i].empty()) break; size_t p = r.below(m[i].size()); logf("erase at %zu", p); I pos = at(x, p); Call call; I it = x.erase(pos); call.done(); m[i].erase(m[i].begin() + (long)p); REQUIRE(it == at(x, p), P_(3), "erase returned the wrong position"); break; }
        case 10: { what = "erase own key"; if (m[i].empty()) break; size_t p = r.below(m[i].size()); logf("erase own key %zu", p); const T& k = *at(x, p); Call call; size_t n = x.erase(k); call.done(); REQUIRE(n == 1, P_(3), "erase of a key by itself returned %zu", n); m[i].erase(m[i].begin() + (long)p); break; }
        case 11: { what = "move assign"; logf(what); assign(i, o); break; }
        case 12: { what = "move construct"; logf(what); Call call; C t(std::move(c(o))); call.done(); I b = t.begin(); Keys k; for (; b != t.end(); ++b) k.push_back(RT<T>::key(*b)); REQUIRE(k == m[o], P_(3) | P_(18), "a moved set has the wrong contents"); REQUIRE(c(o).empty() && c(o).begin() == c(o).end(), P_(18) | P_(3), "a set that was moved from is not empty"); m[o].clear();
                   COV("sets used after being moved from");
                   for (int n = 0; n < 3; ++n) ins(o, (int)r.below(KEYS), true); break; }
        default: if (r.chance(1, 3)) { what = "clear"; logf(what); Call call; x.clear(); call.done(); m[i].clear(); } break;
        }
        check(what);
        ++step;
    }
    void assign(int i, int o)
    {
        Call call; c(i) = std::move(c(o)); call.done();
        m[i] = m[o]; dir[i] = dir[o]; m[o].clear(); arena[i] = AllocOps<A>::monitored ? AllocOps<A>::arena(c(i).get_allocator()) : arena[i];
        COV("sets used after being moved from");
        for (int n = 0; n < 2; ++n) ins(o, (int)r.below(KEYS), true);
    }
};

// ---------------------------------------------------------------- cases
template <class R>
bool history(u64 seed, int steps, const Plan& p)
{
    R run(seed, p); bool any = false;
    run.check("construction");
    for (int s = 0; s < steps; ++s) { run.fired = false; run.step_(); if (run.fired && s == p.step) any = true; }
    return any;
}
template <class R>
void do_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + PART, mix2(n, hash(name)));
    Rng r(seed); std::string mode = o.mode;
    if (mode == "allocfault")
    {
        int pre = 1 + (int)r.below(12), total = pre + 1 + (int)r.below(4);
        for (long long k = 1; k <= 60; ++k)
        {
            Plan p; p.step = pre; p.fk = F_ALLOC; p.k = k;
            logf("--- allocation %lld of step %d fails", k, pre);
            bool fired = history<R>(seed, total, p);
            end_case_new();
            if (!fired) break;
            COV("fault points enumerated"); ++G().evaluations; commit_case();
        }
    }
    else { Plan p; p.storm = mode == "storm"; history<R>(seed, 10 + (int)r.below(50), p); }
    end_case_new();
    end_case();
}
struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
template <class R> Entry ent(const char* n) { Entry e = { n, &do_case<R> }; return e; }
template <class T, class S, class E> void seqs(std::vector<Entry>& es, const char* v, const char* l, const char* nl)
{
    es.push_back(ent<Run<nestl::vector<T, Alloc<T>>, T, S, E>>(v));
    es.push_back(ent<Run<nestl::list<T, nestl::allocator<T>>, T, S, E>>(l));
    es.push_back(ent<Run<nestl::no_exceptions::list<T, Alloc<T>>, T, S, E, true>>(nl));
}
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "real");
    std::string mode = o.mode;
    if (mode == "allocfault" || mode == "storm") G().mode_tags = P_(7);
    std::vector<Entry> es;
#if IN_PART(0)
    seqs<Text, const char*, DefErr>(es, "vector<Text,Alloc> from names", "list<Text> from names", "nx-list<Text,Alloc> from names");
    seqs<Loc, int, DefErr>(es, "vector<located,Alloc> from ints", "list<located> from ints", "nx-list<located,Alloc> from ints");
    es.push_back(ent<Run<nestl::vector<Over, Alloc<Over>>, Over, Over, DefErr>>("vector<over-aligned,Alloc>"));
    es.push_back(ent<Run<nestl::no_exceptions::list<Over, Alloc<Over>>, Over, Over, DefErr, true>>("nx-list<over-aligned,Alloc>"));
    es.push_back(ent<SetRun<nestl::set<Over, std::less<Over>, Alloc<Over>>, Over, Over, std::less<Over>, DefErr>>("set<over-aligned,less,Alloc>"));
    es.push_back(ent<Run<nestl::vector<Loc>, Loc, Loc, usr::Err>>("vector<located>/user-error"));
    es.push_back(ent<SetRun<nestl::set<Loc, std::less<Loc>, Alloc<Loc>>, Loc, int, std::less<Loc>, DefErr>>("set<located,less,Alloc>"));
    es.push_back(ent<SetRun<nestl::set<Text, std::less<Text>, Alloc<Text>>, Text, const char*, std::less<Text>, DefErr>>("set<Text,less,Alloc>"));
    es.push_back(ent<SetRun<nestl::set<Text, std::greater<Text>>, Text, const char*, std::greater<Text>, DefErr>>("set<Text,greater>"));
    typedef std::function<bool(const Text&, const Text&)> TF;
    typedef bool (*TP)(const Text&, const Text&);
    es.push_back(ent<SetRun<nestl::no_exceptions::set<Text, TF, Alloc<Text>>, Text, const char*, TF, usr::Err>>("nx-set<Text,function,Alloc>/user-error"));
    es.push_back(ent<SetRun<nestl::set<Text, TP, Alloc<Text>>, Text, const char*, TP, CodeErr>>("set<Text,pointer,Alloc>/errc"));
#endif
#if IN_PART(1)
    seqs<long long, int, DefErr>(es, "vector<long long,Alloc> from ints", "list<long long> from ints", "nx-list<long long,Alloc> from ints");
    seqs<double, int, usr::Err>(es, "vector<double,Alloc> from ints/user-error", "list<double> from ints/user-error", "nx-list<double,Alloc> from ints/user-error");
    es.push_back(ent<Run<nestl::vector<short>, short, long long, CodeErr>>("vector<short> from long longs/errc"));
    es.push_back(ent<Run<nestl::no_exceptions::vector<float, Alloc<float>>, float, signed char, DefErr>>("nx-vector<float,Alloc> from chars"));
    // (same size, different representation; different size, same representation)
    seqs<float, int, DefErr>(es, "vector<float,Alloc> from ints", "list<float> from ints", "nx-list<float,Alloc> from ints");
    es.push_back(ent<Run<nestl::vector<double>, double, long long, DefErr>>("vector<double> from long longs"));
    es.push_back(ent<Run<nestl::vector<int, Alloc<int>>, int, float, usr::Err>>("vector<int,Alloc> from floats/user-error"));
    es.push_back(ent<Run<nestl::vector<unsigned>, unsigned, int, DefErr>>("vector<unsigned> from ints"));
    es.push_back(ent<Run<nestl::vector<signed char, Alloc<signed char>>, signed char, int, DefErr>>("vector<signed char,Alloc> from ints"));
    es.push_back(ent<Run<nestl::vector<char32_t>, char32_t, unsigned, CodeErr>>("vector<char32_t> from unsigned/errc"));
    es.push_back(ent<Run<nestl::vector<long double, Alloc<long double>>, long double, double, DefErr>>("vector<long double,Alloc> from doubles"));
    es.push_back(ent<Run<nestl::vector<int>, int, Hue, DefErr>>("vector<int> from enumerators"));
    es.push_back(ent<Run<nestl::vector<Tone, Alloc<Tone>>, Tone, Tone, DefErr>>("vector<enum class,Alloc>"));
    es.push_back(ent<Run<nestl::list<Hue>, Hue, Hue, DefErr>>("list<enum>"));
    es.push_back(ent<SetRun<nestl::set<Tone, std::less<Tone>, Alloc<Tone>>, Tone, Tone, std::less<Tone>, DefErr>>("set<enum class,less,Alloc>"));
    seqs<Rgb, int, DefErr>(es, "vector<3 bytes,Alloc> from ints", "list<3 bytes> from ints", "nx-list<3 bytes,Alloc> from ints");
    es.push_back(ent<Run<nestl::vector<Right*, Alloc<Right*>>, Right*, Both*, DefErr>>("vector<base*,Alloc> from derived*"));
    es.push_back(ent<Run<nestl::no_exceptions::list<Right*>, Right*, Both*, DefErr, true>>("nx-list<base*> from derived*"));
    es.push_back(ent<Run<nestl::vector<bool, Alloc<bool>>, bool, int, DefErr>>("vector<bool,Alloc> from ints"));
    es.push_back(ent<SetRun<nestl::set<double, std::less<double>, Alloc<double>>, double, int, std::less<double>, DefErr>>("set<double,less,Alloc>"));
    es.push_back(ent<SetRun<nestl::set<long long, std::greater<long long>>, long long, int, std::greater<long long>, usr::Err>>("set<long long,greater>/user-error"));
#endif
#if IN_PART(2)
    seqs<SP, SP, DefErr>(es, "vector<shared_ptr,Alloc>", "list<shared_ptr>", "nx-list<shared_ptr,Alloc>");
    seqs<WP, SP, DefErr>(es, "vector<weak_ptr,Alloc> from owners", "list<weak_ptr> from owners", "nx-list<weak_ptr,Alloc> from owners");
    es.push_back(ent<SetRun<nestl::set<SP, ByKey, Alloc<SP>>, SP, SP, ByKey, DefErr>>("set<shared_ptr,by key,Alloc>"));
    es.push_back(ent<Run<nestl::list<Own, Alloc<Own>>, Own, int, DefErr>>("list<sole owner,Alloc>"));
    es.push_back(ent<Run<nestl::no_exceptions::list<Own>, Own, int, usr::Err, true>>("nx-list<sole owner>/user-error"));
    es.push_back(ent<SetRun<nestl::set<Own, ByKey, Alloc<Own>>, Own, int, ByKey, DefErr>>("set<sole owner,by key,Alloc>"));
#endif
#if VF_EX && IN_PART(3)
    seqs<std::string, const char*, DefErr>(es, "vector<string,Alloc> from names", "list<string> from names", "nx-list<string,Alloc> from names");
    seqs<Func, Fn, DefErr>(es, "vector<function,Alloc> from functors", "list<function> from functors", "nx-list<function,Alloc> from functors");
    es.push_back(ent<SetRun<nestl::set<std::string, std::less<std::string>, Alloc<std::string>>, std::string, const char*, std::less<std::string>, DefErr>>("set<string,less,Alloc>"));
    es.push_back(ent<SetRun<nestl::set<Text, Chosen<Text>, Alloc<Text>>, Text, const char*, Chosen<Text>, DefErr>>("set<Text,function,Alloc>"));
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
