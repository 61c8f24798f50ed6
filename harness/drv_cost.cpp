// Operation counts on large containers: amortised growth, constant-cost list editing, merge/sort comparisons,
// logarithmic set lookups under hostile key orders.
#include "vf.hpp"
#include "newhook.hpp"
#include <cmath>
using namespace vf;

namespace
{
// counts its events, keeps no registry: containers here are large
struct Light
{
    int key, tag;
    Light() noexcept : key(0), tag(0) { ++G().ev.make; }
    Light(int k, int t) noexcept : key(k), tag(t) { ++G().ev.make; }
    Light(const Light& o) noexcept : key(o.key), tag(o.tag) { ++G().ev.copy; }
    Light(Light&& o) noexcept : key(o.key), tag(o.tag) { o.key = MOVED; ++G().ev.move; }
    Light& operator=(const Light& o) noexcept { key = o.key; tag = o.tag; ++G().ev.assign; return *this; }
    Light& operator=(Light&& o) noexcept { int k = o.key, t = o.tag; o.key = MOVED; key = k; tag = t; ++G().ev.assign; return *this; }
    ~Light() { ++G().ev.destroy; }
};
struct CopyLight
{
    int key, tag;
    CopyLight() noexcept : key(0), tag(0) { ++G().ev.make; }
    CopyLight(int k, int t) noexcept : key(k), tag(t) { ++G().ev.make; }
    CopyLight(const CopyLight& o) noexcept : key(o.key), tag(o.tag) { ++G().ev.copy; }
    CopyLight& operator=(const CopyLight& o) noexcept { key = o.key; tag = o.tag; ++G().ev.assign; return *this; }
    ~CopyLight() { ++G().ev.destroy; }
};
inline bool operator<(const Light& a, const Light& b) { ++G().ev.cmp; return a.key < b.key; }
inline bool operator<(const CopyLight& a, const CopyLight& b) { ++G().ev.cmp; return a.key < b.key; }
inline bool operator==(const Light& a, const Light& b) { ++G().ev.cmp; return a.key == b.key && a.tag == b.tag; }
inline bool operator!=(const Light& a, const Light& b) { return !(a == b); }

double lg(double n) { return std::log2(n); }
size_t loguni(Rng& r, double lo, double hi) { double a = std::log(lo), b = std::log(hi); return (size_t)std::exp(a + (b - a) * (double)r.below(1000001) / 1e6); }
double cpu_now() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }

// ---------------------------------------------------------------- vector growth
template <class T> struct OneRange { const T* a; const T* b; };

template <class C, class T>
void vector_case(Rng& r, size_t most)
{
    typedef typename C::allocator_type A;
    typedef DefErr E;
    C v(AllocOps<A>::make(1));
    std::vector<int> want;
    E e;
    // state to append to
    const unsigned prelude = (unsigned)r.below(9);
    size_t m = prelude ? loguni(r, 1, 3000) : 0;
    for (size_t i = 0; i < m; ++i) { T x((int)i, 1); Call k; v.push_back_nothrow(e, x); want.push_back((int)i); }
    bool reserved = false;
    size_t n = loguni(r, 8, (double)most);
    switch (prelude)
    {
    case 2: { Call k; v.shrink_to_fit_nothrow(e); break; }
    case 3: { Call k; v.clear(); } want.clear(); break;
    case 4: { Call k; v.reserve_nothrow(e, m + n); } reserved = true; break;
    case 5: { Call k; C w(std::move(v)); v = std::move(w); break; }
    case 6: { C w(AllocOps<A>::make(1)); { Call k; w.copy_nothrow(e, v); v = std::move(w); } break; }
    case 7: { C w(AllocOps<A>::make(1)); { Call k; w.assign_nothrow(e, v.cbegin(), v.cend()); v.swap(w); } break; }
    case 8: { Call k; v.resize_nothrow(e, m / 2); v.shrink_to_fit_nothrow(e); } want.resize(m / 2); break;
    default: break;
    }
    REQUIRE(!e, P_(19), "preparing the vector failed");
    m = want.size();
    const unsigned style = (unsigned)r.below(12);
    static const char* const N[] = { "push_back(const&)", "push_back(&&)", "insert(end, const&)", "insert(end, &&)", "emplace_back", "emplace(end)", "resize(size()+1)", "resize(size()+1, value)",
                                     "insert(end, 1, value)", "insert(end, range of one)", "push_back(own element)", "a mixture" };
    logf("append %zu by %s to %zu (prelude %u)", n, N[style], m, prelude);
    const size_t cap0 = v.capacity();
    Counters b = G().ev; const u64 asked = newstat().asked; (void)asked;
    size_t next = 64;
    for (size_t i = 0; i < n; ++i)
    {
        const int key = (int)(i * 7 % 100003);
        int got = key;
        unsigned s = style == 11 ? (unsigned)r.below(11) : style;
        T x(key, 2); --G().ev.make;
        switch (s)
        {
        case 0: { Call k; v.push_back_nothrow(e, x); break; }
        case 1: { Call k; v.push_back_nothrow(e, std::move(x)); break; }
        case 2: { Call k; v.insert_nothrow(e, v.cend(), x); break; }
        case 3: { Call k; v.insert_nothrow(e, v.cend(), std::move(x)); break; }
        case 4: { Call k; v.emplace_back_nothrow(e, key, 2); break; }
        case 5: { Call k; v.insert_nothrow(e, v.cend(), T(key, 2)); break; }
        case 6: { Call k; v.resize_nothrow(e, v.size() + 1); got = 0; break; }
        case 7: { Call k; v.resize_nothrow(e, v.size() + 1, x); break; }
        case 8: { Call k; const T* q = &x; v.insert_nothrow(e, v.cend(), q, q + 1); break; }
        case 9: { RangeState<T> st = { &x, &x + 1, 0 }; It<T, std::input_iterator_tag> p(&st, &x), q(&st, &x + 1); Call k; v.insert_nothrow(e, v.cend(), p, q); break; }
        default:
            if (v.empty()) { Call k; v.push_back_nothrow(e, x); break; }
            { size_t j = r.below(v.size()); got = v[j].key; Call k; v.push_back_nothrow(e, v[j]); }
        }
        if (e) violation(P_(19) | P_(20), "append failed");
        want.push_back(got);
        if (i + 1 == next || i + 1 == n)
        {
            next *= 2;
            const Counters& g = G().ev; const double t = (double)(m + i + 1);
            const u64 births = g.make + g.copy + g.move + g.assign - b.make - b.copy - b.move - b.assign, allocs = g.alloc - b.alloc;
            REQUIRE((double)births <= 6 * t + 64, P_(19), "%zu elements appended to %zu by %s: %llu element constructions and assignments", i + 1, m, N[style], births);
            REQUIRE((double)allocs <= 4 * lg(t + 1) + 16, P_(19), "%zu elements appended to %zu by %s: %llu reallocations", i + 1, m, N[style], allocs);
            if (reserved) REQUIRE(allocs == 0, P_(15) | P_(19), "appending within the reserved capacity allocated");
            COV("growth totals judged");
        }
    }
    REQUIRE(v.size() == want.size(), P_(1), "wrong size after appending");
    for (size_t i = 0; i < want.size(); ++i) REQUIRE(v[i].key == want[i], P_(1), "wrong element %zu after appending", i);
    sig(mix2(style * 16 + prelude, (u64)(lg((double)n) * 2) * 64 + (u64)lg((double)m + 1) + (cap0 ? 1000 : 0)));
    COVD(N[style]);
    { Call k; v = C(AllocOps<A>::make(1)); }
}
template <class C, class T>
void throwing_vector_case(Rng& r, size_t most)
{
#if VF_EX
    typedef typename C::allocator_type A;
    C v(AllocOps<A>::make(1));
    size_t n = loguni(r, 8, (double)most), m = 0;
    bool rv = r.chance(1, 2), copied = r.chance(1, 3);
    if (copied)
    {
        m = loguni(r, 1, 2000); C w(AllocOps<A>::make(1));
        for (size_t i = 0; i < m; ++i) { Call k; w.push_back(T((int)i, 1)); }
        if (r.chance(1, 2)) { Call k; v = w; } else { Call k; C u(w); v = std::move(u); }
    }
    logf("append %zu by throwing push_back to %zu", n, m);
    Counters b = G().ev;
    for (size_t i = 0; i < n; ++i) { T x((int)i, 2); --G().ev.make; if (rv) { Call k; v.push_back(std::move(x)); } else { Call k; v.push_back(x); } }
    const Counters& g = G().ev; const double t = (double)(m + n);
    const u64 births = g.make + g.copy + g.move + g.assign - b.make - b.copy - b.move - b.assign, allocs = g.alloc - b.alloc;
    REQUIRE((double)births <= 6 * t + 64, P_(19), "%zu elements appended to %zu by throwing push_back: %llu element constructions and assignments", n, m, births);
    REQUIRE((double)allocs <= 4 * lg(t + 1) + 16, P_(19), "%zu elements appended to %zu by throwing push_back: %llu reallocations", n, m, allocs);
    REQUIRE(v.size() == m + n, P_(1), "wrong size after appending");
    sig(mix2(99 + rv * 2 + copied, (u64)(lg((double)n) * 2)));
    COV("throwing push_back");
#else
    (void)r; (void)most;
#endif
}

// ---------------------------------------------------------------- list editing, merge, sort
template <class C, class T>
void list_case(Rng& r, size_t most)
{
    typedef typename C::allocator_type A;
    typedef typename C::const_iterator CI;
    typedef DefErr E;
    E e;
    auto fill = [&](C& c, size_t n, unsigned pat, int tag) {
        for (size_t i = 0; i < n; ++i)
        {
            int k = 0;
            switch (pat)
            {
            case 0: k = (int)r.below(1000000); break;
            case 1: k = (int)i; break;
            case 2: k = (int)(n - i); break;
            case 3: k = 5; break;
            case 4: k = (int)(i < n / 2 ? i : n - i); break;
            case 5: k = (int)(i ^ 1); break;
            case 6: k = (int)(i * 2 + (unsigned)tag % 2); break;
            default: k = (int)r.below(8); break;
            }
            Call q; c.push_back_nothrow(e, T(k, (int)i * 2 + tag));
        }
        if (e) violation(P_(19) | P_(20), "filling a list failed");
    };
    const unsigned what = (unsigned)r.below(4);
    if (what <= 1)
    {
        // edits of a long list
        size_t n = loguni(r, 4, (double)most);
        C c(AllocOps<A>::make(1)), d(AllocOps<A>::make(1));
        fill(c, n, 1, 0); fill(d, 200, 1, 1);
        std::vector<CI> at;                    // iterators to some elements of c
        { size_t step = n / 300 + 1, i = 0; for (CI it = c.cbegin(); it != c.cend(); ++it, ++i) if (i % step == 0) at.push_back(it); }
        std::vector<CI> dt; for (CI it = d.cbegin(); it != d.cend(); ++it) dt.push_back(it);
        const size_t K = 3000;
        size_t size = n, dsize = 200;
        logf("%zu edits of a list of %zu", K, n);
        double t0 = cpu_now();
        for (size_t k = 0; k < K; ++k)
        {
            const unsigned op = (unsigned)r.below(16);
            CI pos = at[r.below(at.size())];
            if (r.chance(1, 10)) pos = c.cend();
            T x((int)k, 3);
            Counters b = G().ev;
            bool ins = false; u64 died = 0;
            switch (op)
            {
            case 0: { Call q; c.insert_nothrow(e, pos, x); ins = true; break; }
            case 1: { Call q; c.insert_nothrow(e, pos, std::move(x)); ins = true; break; }
            case 2: { Call q; c.emplace_nothrow(e, pos, (int)k, 3); ins = true; break; }
            case 3: { Call q; c.push_front_nothrow(e, x); ins = true; break; }
            case 4: { Call q; c.push_back_nothrow(e, x); ins = true; break; }
            case 5: { Call q; c.emplace_front_nothrow(e, (int)k, 3); ins = true; break; }
            case 6: { Call q; c.emplace_back_nothrow(e, (int)k, 3); ins = true; break; }
            case 7: { if (at.size() < 20) continue; size_t i = r.below(at.size()); CI p = at[i]; at[i] = at.back(); at.pop_back(); b = G().ev; { Call q; c.erase(p); } died = 1; --size; break; }
            case 8: { CI f = c.cbegin(); bool mine = false; for (size_t i = 0; i < at.size(); ++i) if (at[i] == f) mine = true; if (mine) continue; b = G().ev; { Call q; c.pop_front(); } died = 1; --size; break; }
            case 9: { CI f = c.cend(); --f; bool mine = false; for (size_t i = 0; i < at.size(); ++i) if (at[i] == f) mine = true; if (mine) continue; b = G().ev; { Call q; c.pop_back(); } died = 1; --size; break; }
            case 10: { if (dt.empty()) continue; CI p = dt.back(); dt.pop_back(); { Call q; c.splice(pos, d, p); } at.push_back(p); ++size; --dsize; break; }
            case 11: { CI p = at[r.below(at.size())]; CI nx = p; ++nx; if (pos == p || pos == nx) continue; { Call q; c.splice(pos, c, p); } break; }
            case 12: { if (dt.size() < 3) continue; { Call q; c.splice(pos, d, d.cbegin(), d.cbegin()); } break; }
            case 14: case 15:
            {
                // the whole long list moves out and back in
                C t(AllocOps<A>::make(1)); b = G().ev;
                { Call q; if (op == 14) t.splice(t.cbegin(), c); else t.splice(t.cend(), std::move(c)); }
                { Call q; if (k % 2) c.splice(c.cbegin(), t); else c.splice(c.cend(), std::move(t)); }
                COV("whole long lists spliced");
                break;
            }
            default:
            {
                // a whole list moves in, then out again one by one is not needed
                C t(AllocOps<A>::make(1)); { Call q; t.push_back_nothrow(e, x); t.push_back_nothrow(e, x); } b = G().ev; { Call q; if (k % 2) c.splice(pos, t); else c.splice(pos, std::move(t)); } size += 2;
                const Counters& g = G().ev;
                REQUIRE(g.make + g.copy + g.move + g.assign + g.destroy == b.make + b.copy + b.move + b.assign + b.destroy && g.alloc == b.alloc, P_(19) | P_(18), "splicing a list touched elements or allocated");
                continue;
            }
            }
            if (e) violation(P_(19) | P_(20), "list insertion failed");
            const Counters& g = G().ev;
            const u64 births = g.make + g.copy + g.move - b.make - b.copy - b.move, assigns = g.assign - b.assign, gone = g.destroy - b.destroy, allocs = g.alloc - b.alloc;
            if (ins) { ++size; REQUIRE(births >= 1 && births <= 3 && assigns <= 1 && gone + 1 == births && allocs <= 2, P_(19), "list insertion %u among %zu: %llu constructions, %llu assignments, %llu destructions, %llu allocations", op, size, births, assigns, gone, allocs); }
            else REQUIRE(births == 0 && assigns == 0 && gone == died && allocs == 0, P_(19), "list edit %u among %zu: %llu constructions, %llu assignments, %llu destructions, %llu allocations", op, size, births, assigns, gone, allocs);
            COV("list edits judged");
        }
        double t = cpu_now() - t0;
        // thousands of constant-time edits: milliseconds; one walk over the list per edit: minutes
        REQUIRE(n < 50000 || t < 3.0, P_(19), "%zu edits of a list of %zu elements took %.1f s of CPU time", K, n, t);
        if (n >= 50000) COV("long lists timed");
        REQUIRE(c.size() == size && d.size() == dsize, P_(2), "list of %zu elements, expected %zu", (size_t)c.size(), size);
        sig(mix2(1, (u64)(lg((double)n) * 8)));
        { Call q; c.clear(); d.clear(); }
        return;
    }
    if (what == 2)
    {
        size_t n = r.chance(1, 12) ? 0 : loguni(r, 1, (double)most / 2), m = r.chance(1, 12) ? 0 : r.chance(1, 3) ? loguni(r, 1, 8) : loguni(r, 1, (double)most / 2);
        if (r.chance(1, 3)) std::swap(n, m);
        C c(AllocOps<A>::make(1)), d(AllocOps<A>::make(1));
        static const unsigned S[] = { 1, 3, 6 };
        unsigned p1 = S[r.below(3)], p2 = S[r.below(3)];
        fill(c, n, p1, 0); fill(d, m, p2, 1);
        const bool own = r.chance(1, 2);
        logf("merge of %zu (pattern %u) and %zu (pattern %u)", n, p1, m, p2);
        Counters b = G().ev; u64 cmps = 0;
        if (own) { Call q; c.merge(d); cmps = G().ev.cmp - b.cmp; }
        else { Call q; c.merge(std::move(d), [&](const T& x, const T& y) { ++cmps; return x.key < y.key; }); }
        const Counters& g = G().ev;
        const u64 most_cmp = n + m ? n + m - 1 : 0;
        REQUIRE(cmps <= most_cmp, P_(19), "merging %zu and %zu elements made %llu comparisons", n, m, cmps);
        REQUIRE(g.make + g.copy + g.move + g.assign + g.destroy == b.make + b.copy + b.move + b.assign + b.destroy && g.alloc == b.alloc, P_(19) | P_(18), "merge touched elements or allocated");
        REQUIRE(c.size() == n + m && d.empty(), P_(2), "merge lost elements");
        const T* prev = nullptr;
        for (CI it = c.cbegin(); it != c.cend(); ++it)
        {
            if (prev) REQUIRE(prev->key < it->key || (prev->key == it->key && (prev->tag % 2 < it->tag % 2 || (prev->tag % 2 == it->tag % 2 && prev->tag < it->tag))), P_(2), "merge is not ordered or not stable");
            prev = &*it;
        }
        COV("merges judged"); sig(mix2(2000 + p1 * 10 + p2, (u64)(lg((double)n + 1) * 4) * 200 + (u64)(lg((double)m + 1) * 4)));
        { Call q; c.clear(); }
        return;
    }
    size_t n = r.chance(1, 4) ? (size_t)1 << (1 + r.below((u64)lg((double)most))) : loguni(r, 1, (double)most);
    if (r.chance(1, 4)) n += r.below(3); else if (n && r.chance(1, 4)) --n;
    const unsigned pat = (unsigned)r.below(8);
    C c(AllocOps<A>::make(1));
    fill(c, n, pat, 0);
    logf("sort of %zu, pattern %u", n, pat);
    const unsigned form = (unsigned)r.below(3);
    Counters b = G().ev; u64 cmps = 0;
    const double st0 = cpu_now();
    if (form == 0) { Call q; c.sort(); cmps = G().ev.cmp - b.cmp; }
    else if (form == 1) { Call q; c.sort([&](const T& x, const T& y) { ++cmps; return x.key < y.key; }); }
    else { Call q; c.sort([&](const T& x, const T& y) { ++cmps; return x.key > y.key; }); }
    const double st = cpu_now() - st0;
    // n log n steps: tens of milliseconds
    REQUIRE(n < 50000 || st < 5.0, P_(19), "sorting a list of %zu elements took %.1f s of CPU time", n, st);
    const Counters& g = G().ev;
    const double limit = n < 2 ? 1 : 2.0 * (double)n * std::ceil(lg((double)n)) + 16;
    REQUIRE((double)cmps <= limit, P_(19), "sorting %zu elements (pattern %u) made %llu comparisons", n, pat, cmps);
    REQUIRE(g.make + g.copy + g.move + g.assign + g.destroy == b.make + b.copy + b.move + b.assign + b.destroy && g.alloc == b.alloc, P_(19) | P_(18), "sort touched elements or allocated");
    REQUIRE(c.size() == n, P_(2), "sort lost elements");
    const T* prev = nullptr;
    for (CI it = c.cbegin(); it != c.cend(); ++it)
    {
        if (prev) REQUIRE((form == 2 ? prev->key > it->key : prev->key < it->key) || (prev->key == it->key && prev->tag < it->tag), P_(2), "sort is not ordered or not stable");
        prev = &*it;
    }
    // and backwards
    size_t back = 0; for (CI it = c.cend(); it != c.cbegin(); --it) ++back;
    REQUIRE(back == n, P_(2), "sorted list has %zu elements backwards", back);
    COV("sorts judged"); sig(mix2(3000 + pat, (u64)(lg((double)n + 1) * 8)));
    { Call q; c.clear(); }
}

// ---------------------------------------------------------------- large sets
// a red-black tree of n keys is at most 2*log2(n+1) keys deep; the way down meets each of them, and compares with each at most twice
u64 set_bound(size_t n, int times) { return (u64)times * ((u64)(2.0 * std::log2((double)n + 1.0) + 1e-9) + 1) + 1; }
struct Cmp
{
    u64* n; bool desc;
    Cmp() : n(nullptr), desc(false) {}
    Cmp(u64* c, bool d) : n(c), desc(d) {}
    bool operator()(const int& a, const int& b) const { ++*n; visited().mark(&a); visited().mark(&b); return desc ? b < a : a < b; }
};

// a key order over [0, n)
struct Order
{
    unsigned kind; size_t n; size_t a;
    Order(Rng& r, size_t size) : kind((unsigned)r.below(9)), n(size), a(0) { if (n > 2) do a = 1 + r.below(n - 1); while (gcd(a, n) != 1); }
    static size_t gcd(size_t x, size_t y) { return y ? gcd(y, x % y) : x; }
    int at(size_t i) const
    {
        switch (kind)
        {
        case 0: return (int)i;
        case 1: return (int)(n - 1 - i);
        case 2: return (int)(i % 2 ? n - 1 - i / 2 : i / 2);                               // both ends
        case 3: { size_t h = n / 2; return (int)(i % 2 ? (h > i / 2 ? h - 1 - i / 2 : n - 1 - (i - 2 * h > n ? 0 : (i - 2 * h))) : h + i / 2 < n ? h + i / 2 : 0); }   // from the middle (approximately)
        case 4: { size_t b = 0, w = 1; while (w < n) { w *= 2; ++b; } size_t v = 0; for (size_t k = 0; k < b; ++k) if (i >> k & 1) v |= (size_t)1 << (b - 1 - k); return (int)(v < n ? v : i); }   // bit reversal (approximately)
        case 5: { size_t q = (size_t)std::sqrt((double)n) + 1; return (int)((i % q) * q + i / q) % (int)n; }       // columns
        case 6: { size_t q = 64; size_t base = i / q * q; return (int)(base + (q - 1 - i % q) < n ? base + (q - 1 - i % q) : i); }   // saw tooth
        default: return n > 2 ? (int)((u64)i * a % n) : (int)i;                            // random walk over all
        }
    }
};

struct Bits
{
    std::vector<bool> b; size_t n;
    explicit Bits(size_t m) : b(m), n(0) {}
    bool add(int k) { if (b[(size_t)k]) return false; b[(size_t)k] = true; ++n; return true; }
    bool del(int k) { if (!b[(size_t)k]) return false; b[(size_t)k] = false; --n; return true; }
};

template <class C>
void set_case(Rng& r, size_t most)
{
    typedef DefErr E;
    typedef typename C::allocator_type A;
    E e; u64 cmps = 0;
    const size_t N = loguni(r, 16, (double)most);
    const bool desc = r.chance(1, 2);
    C s(Cmp(&cmps, desc), AllocOps<A>::make(1));
    Bits m(N);
    unsigned rounds = 1 + (unsigned)r.below(5);
    u64 kinds = 0;
    logf("set of up to %zu keys, %u rounds%s", N, rounds, desc ? ", descending comparator" : "");
    auto judge = [&](const char* what, size_t n, u64 c, int times) {
        COV("comparison counts judged");
        const u64 keys = set_bound(n, times); const size_t met = visited().n;
        REQUIRE(met <= keys && c <= 2 * keys, P_(4), "%s on %zu keys made %llu comparisons that involved %zu different keys, bound %llu", what, n, c, met, keys);
    };
    auto ins = [&](int k) {
        size_t n = m.n; u64 c0 = cmps;
        bool fresh;
        if (k & 1) { Call q; fresh = s.insert_nothrow(e, k).second; } else { const int x = k; Call q; fresh = s.insert_nothrow(e, x).second; }
        if (e) violation(P_(4) | P_(20), "insertion failed");
        judge("insert", n, cmps - c0, 1);
        REQUIRE(fresh == m.add(k), P_(3), "insert reported %d", (int)fresh);
    };
    auto del = [&](int k) {
        size_t n = m.n; u64 c0 = cmps; size_t g;
        { Call q; g = s.erase(k); }
        judge("erase by key", n, cmps - c0, 2);
        REQUIRE((g == 1) == m.del(k), P_(3), "erase reported %zu", g);
    };
    auto look = [&](int k) {
        u64 c0 = cmps; const C& cs = s; visited().n = 0; auto it = cs.find(k);
        judge("find", m.n, cmps - c0, 1);
        REQUIRE((it != cs.end()) == (k >= 0 && (size_t)k < N && m.b[(size_t)k]) && (it == cs.end() || *it == k), P_(3), "find(%d) is wrong", k);
    };
    for (unsigned round = 0; round < rounds; ++round)
    {
        const unsigned how = round == 0 ? 0 : (unsigned)r.below(8);
        kinds = kinds * 16 + how;
        switch (how)
        {
        case 0: case 1:      // insert in some order
        {
            Order o(r, N); logf("insert order %u", o.kind); kinds = kinds * 16 + o.kind;
            size_t cnt = r.chance(1, 3) ? N / 2 : N;
            for (size_t i = 0; i < cnt; ++i) ins(o.at(i));
            break;
        }
        case 2:              // erase in some order
        {
            Order o(r, N); logf("erase order %u", o.kind); kinds = kinds * 16 + o.kind;
            size_t cnt = r.below(N + 1);
            for (size_t i = 0; i < cnt; ++i) del(o.at(i));
            break;
        }
        case 3:              // erase a stretch through iterators
        {
            size_t skip = r.below(m.n + 1), cnt = r.below(m.n - skip + 1);
            logf("erase %zu by iterator after %zu", cnt, skip);
            auto it = s.begin(); for (size_t i = 0; i < skip; ++i) ++it;
            for (size_t i = 0; i < cnt; ++i) { int k = *it; u64 c0 = cmps; { Call q; it = s.erase(it); } if (cmps != c0) COV("erase by iterator compared"); if (!m.del(k)) violation(P_(3), "iterated a key that is not there"); }
            break;
        }
        case 4:              // keep only every j-th
        {
            size_t j = 2 + r.below(6), i = 0; logf("keep every %zu-th", j);
            for (auto it = s.begin(); it != s.end(); ++i) { if (i % j) { int k = *it; { Call q; it = s.erase(it); } m.del(k); } else ++it; }
            break;
        }
        case 5:              // move a window over the keys
        {
            size_t w = 1 + r.below(N / 2 + 1); logf("sliding window of %zu", w);
            { Call q; s.clear(); } m = Bits(N);
            for (size_t i = 0; i < N; ++i) { ins((int)i); if (i >= w) del((int)(i - w)); }
            break;
        }
        case 6:              // a copy takes over
        {
            logf("copy"); C t(Cmp(&cmps, !desc), AllocOps<A>::make(1));
            { Call q; t.copy_nothrow(e, s); } if (e) violation(P_(4) | P_(20), "copy failed");
            { Call q; s = std::move(t); }
            break;
        }
        default:             // churn
        {
            size_t c = loguni(r, 4, (double)N); logf("churn %zu", c);
            for (size_t i = 0; i < c; ++i) { int k = (int)r.below(N); if (r.chance(1, 2)) ins(k); else del(k); }
        }
        }
        size_t probes = std::min<size_t>(N, 4000);
        for (size_t i = 0; i < probes; ++i) look((int)(N <= 4000 ? i : r.below(N)));
        look(-1); look((int)N); look((int)N + 5);
    }
    // the order is intact
    size_t cnt = 0; int prev = 0; bool any = false;
    for (auto it = s.begin(); it != s.end(); ++it) { if (any) REQUIRE(desc ? *it < prev : prev < *it, P_(3), "keys out of order"); prev = *it; any = true; ++cnt; REQUIRE(m.b[(size_t)*it], P_(3), "key %d should be gone", *it); }
    REQUIRE(cnt == m.n && s.size() == m.n, P_(3), "set iterates %zu keys, expected %zu", cnt, m.n);
    sig(mix2(kinds, (u64)(lg((double)N) * 4) + desc * 1000));
    { Call q; s.clear(); }
}

typedef void (*Fn)(Rng&, size_t);
struct Entry { const char* name; Fn fn; size_t most; };
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "cost");
    new_cap() = (size_t)512 << 20; cap_bytes() = (size_t)512 << 20;
    std::vector<Entry> es;
#if IN_PART(0)
    typedef nestl::no_exceptions::vector<Light, Alloc<Light>> V1;
    typedef nestl::no_exceptions::vector<CopyLight, nestl::allocator<CopyLight>> V2;
    typedef nestl::no_exceptions::vector<Light> V3;
    es.push_back({ "vector<Light,Alloc>", &vector_case<V1, Light>, 60000 });
    es.push_back({ "vector<CopyLight>", &vector_case<V2, CopyLight>, 60000 });
    es.push_back({ "default vector<Light>", &vector_case<V3, Light>, 60000 });
#if VF_EX
    typedef nestl::has_exceptions::vector<Light, Alloc<Light>> V4;
    es.push_back({ "throwing vector<Light>", &throwing_vector_case<V4, Light>, 60000 });
#endif
#endif
#if IN_PART(1)
    typedef nestl::no_exceptions::list<Light, Alloc<Light>> L1;
    typedef nestl::no_exceptions::list<Light> L2;
    es.push_back({ "list<Light,Alloc>", &list_case<L1, Light>, 30000 });
    es.push_back({ "default list<Light>", &list_case<L2, Light>, 200000 });
#endif
#if IN_PART(2)
    typedef nestl::no_exceptions::set<int, Cmp, Alloc<int>> S1;
    typedef nestl::set<int, Cmp> S2;
    es.push_back({ "set<int,Alloc>", &set_case<S1>, 20000 });
    es.push_back({ "default set<int>", &set_case<S2>, 120000 });
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n)
    {
        const Entry& e = use[n % use.size()];
        begin_case(n, e.name, 240);
        Rng r(mix2(o.seed * 1000003 + hash(e.name), n));
        e.fn(r, e.most * (o.scale ? o.scale : 1));
        end_case_new(); end_case();
    }
    return finish();
}
