// Impossible and borderline sizes, storage really obtained, and the error objects themselves.
#include "vf.hpp"
#include "newhook.hpp"
using namespace vf;

namespace
{
typedef unsigned __int128 u128;
const size_t SZ_MAX = ~(size_t)0;

template <size_t N> struct Blob
{
    unsigned char b[N];
    Blob() noexcept { std::memset(b, 0x11, N); }
    explicit Blob(int k) noexcept { std::memset(b, k & 0xFF, N); }
    Blob(const Blob& o) noexcept { std::memcpy(b, o.b, N); }
    Blob& operator=(const Blob& o) noexcept { std::memmove(b, o.b, N); return *this; }
    int key() const { for (size_t i = 1; i < N; ++i) if (b[i] != b[0]) return -1; return b[0]; }
};

// counts whose byte size, or whose grown capacity, sits at an interesting place
size_t tricky(Rng& r, size_t sz, size_t cap, size_t maxn)
{
    size_t d = r.below(4), big = r.below(1000);
    switch (r.below(16))
    {
    case 0: return SZ_MAX - d;
    case 1: return SZ_MAX / sz + d;                       // first byte sizes that wrap
    case 2: return SZ_MAX / sz - d;
    case 3: return (size_t)(((u128)(1 + r.below(sz)) << 64) / sz) + d;    // wraps to a tiny byte size
    case 4: return (size_t)(((u128)(1 + r.below(sz)) << 64) / sz) + big;
    case 5: return maxn + 1 + d;
    case 6: return maxn - d;
    case 7: return maxn;
    case 8: return ((size_t)1 << r.below(64)) + d;
    case 9: return (((size_t)1 << r.below(64)) / sz) + d;
    case 10: return SZ_MAX / 2 - d;
    case 11: return SZ_MAX / 3 + d;                       // capacity * 3 wraps
    case 12: return cap / sz + d;
    case 13: return cap / sz - std::min(cap / sz, d);
    case 14: return r.below(cap / sz + 1);
    default: return r.next();
    }
}

// ---------------------------------------------------------------- direct allocation
template <class T, class E>
void direct_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    Rng r(mix2(o.seed * 1000003 + hash(name), n));
    const size_t cap = (size_t)1 << (14 + r.below(7));
    new_cap() = cap;
    for (int i = 0; i < 24; ++i)
    {
        size_t q = tricky(r, sizeof(T), cap, SZ_MAX / 2 / sizeof(T));
        nestl::allocator<T> a;
        E err;
        logf("allocate(%zu) of %zu bytes each", q, sizeof(T));
        set_fault(F_NONE, 0);
        T* p;
        { Call k; p = i % 2 ? a.allocate(err, q) : nestl::allocator_traits<nestl::allocator<T>>::allocate(err, a, q); }
        ErrInfo e = err_info(err);
        u128 need = (u128)q * sizeof(T);
        if (e.cat == 0)
        {
            size_t got = storage_bytes(p);
            REQUIRE(p && (u128)got >= need, P_(14), "allocate(%zu) of %zu-byte elements succeeded with %zu bytes of storage", q, sizeof(T), got);
            COV("allocations granted");
            { Call k; a.deallocate(p, q); }
        }
        else
        {
            REQUIRE(e.cat == 1, P_(14) | P_(20), "allocate(%zu) refused with category %d", q, e.cat);
            REQUIRE(need > cap, P_(14) | P_(7), "allocate(%zu) of %zu-byte elements refused although the storage was available", q, sizeof(T));
            REQUIRE(all_outstanding() == 0, P_(14) | P_(6), "a refused allocation keeps storage");
            COV("allocations refused");
        }
        check_sets(err, e.cat != 0);
        REQUIRE(all_outstanding() == 0, P_(6), "storage outstanding after deallocate");
        sig(mix2(q, sizeof(T)));
    }
    new_cap() = (size_t)64 << 20;
    end_case_new();
    end_case();
}

// ---------------------------------------------------------------- vector
template <class T> struct Mk { static T of(int k) { return T(k); } static int key(const T& t) { return t.key(); } };
template <> struct Mk<int> { static int of(int k) { return k; } static int key(int t) { return t; } };
template <> struct Mk<signed char> { static signed char of(int k) { return (signed char)k; } static int key(signed char t) { return t; } };
template <> struct Mk<Elem> { static Elem of(int k) { return Elem(k, 0); } static int key(const Elem& t) { return t.key; } };
template <> struct Mk<Wide> { static Wide of(int k) { return Wide(k, 0); } static int key(const Wide& t) { return t.key; } };

// a random access source that claims to be enormous
template <class T>
struct Counting
{
    typedef std::random_access_iterator_tag iterator_category;
    typedef T value_type; typedef std::ptrdiff_t difference_type; typedef const T* pointer; typedef T reference;
    std::ptrdiff_t i; static u64 reads;
    Counting(std::ptrdiff_t k) : i(k) {}
    reference operator*() const { ++reads; return Mk<T>::of((int)(i % 100)); }
    Counting& operator++() { ++i; return *this; }
    Counting operator++(int) { Counting r = *this; ++i; return r; }
    Counting& operator--() { --i; return *this; }
    Counting& operator+=(std::ptrdiff_t d) { i += d; return *this; }
    Counting operator+(std::ptrdiff_t d) const { return Counting(i + d); }
    friend std::ptrdiff_t operator-(const Counting& a, const Counting& b) { return a.i - b.i; }
    friend bool operator==(const Counting& a, const Counting& b) { return a.i == b.i; }
    friend bool operator!=(const Counting& a, const Counting& b) { return a.i != b.i; }
    friend bool operator<(const Counting& a, const Counting& b) { return a.i < b.i; }
};
template <class T> u64 Counting<T>::reads;

template <class C, class T, class E>
struct Vec
{
    C v; std::vector<int> m; Rng r; size_t cap;
    Vec(u64 seed, size_t c) : v(AllocOps<typename C::allocator_type>::make(9)), r(seed), cap(c) {}

    std::vector<int> read() { std::vector<int> x; const C& k = v; for (size_t i = 0; i < k.size(); ++i) x.push_back(Mk<T>::key(k[i])); return x; }
    void storage(const char* what)
    {
        REQUIRE(v.capacity() >= v.size(), P_(14) | P_(1), "%s: capacity %zu below size %zu", what, (size_t)v.capacity(), (size_t)v.size());
        if (v.capacity())
        {
            size_t got = storage_bytes((const void*)v.cbegin());
            REQUIRE((u128)got >= (u128)v.capacity() * sizeof(T), P_(14), "%s: reported capacity %zu of %zu-byte elements, obtained %zu bytes", what, (size_t)v.capacity(), sizeof(T), got);
        }
        COV("capacity compared with storage obtained");
    }
    // q: number of elements the operation must hold
    void judge(const char* what, size_t q, bool keep, const std::vector<int>* want, bool can_overshoot, const std::function<void(E&)>& f)
    {
        const std::vector<int> old = m; const size_t oc = v.capacity(); const void* op = oc ? (const void*)v.cbegin() : nullptr;
        E err;
        set_fault(F_NONE, 0);
        const u64 al = G().ev.alloc;
        { Call k; f(err); }
        ErrInfo e = err_info(err);
        check_sets(err, e.cat != 0);
        const u128 need = (u128)q * sizeof(T);
        if (e.cat == 0)
        {
            REQUIRE(need <= cap, P_(14), "%s(%zu) of %zu-byte elements reported success, %zu bytes are available", what, q, sizeof(T), cap);
            REQUIRE(v.capacity() >= q, P_(14), "%s(%zu) reported success but capacity is %zu", what, q, (size_t)v.capacity());
            if (want) m = *want;
            REQUIRE(read() == m, P_(14) | P_(1), "%s(%zu): wrong contents after success", what, q);
            COV("requests granted");
        }
        else
        {
            if (q > v.max_size()) REQUIRE(e.cat == 2, P_(14) | P_(20), "%s(%zu): over-long request (max_size %zu) refused with category %d", what, q, (size_t)v.max_size(), e.cat);
            else if (need > cap) REQUIRE(e.cat == 1, P_(20), "%s(%zu): request within max_size that cannot be allocated refused with category %d", what, q, e.cat);
            else if (!can_overshoot) REQUIRE(false, P_(14) | P_(7), "%s(%zu) of %zu-byte elements refused with category %d although %zu bytes are available", what, q, sizeof(T), e.cat, cap);
            std::vector<int> now = read();
            if (keep)
            {
                REQUIRE(now == old && v.capacity() == oc && (!oc || (const void*)v.cbegin() == op), P_(14), "%s(%zu): refused, but contents, capacity or storage changed", what, q);
            }
            else
            {
                bool prefix = want == nullptr || (now.size() <= want->size() && std::equal(now.begin(), now.end(), want->begin()));
                REQUIRE(now == old || prefix || now.empty(), P_(14), "%s(%zu): refused and left contents that are neither old nor new", what, q);
            }
            m = now;
            if (q > v.max_size()) COV("over-long requests refused"); else COV("unallocatable requests refused");
        }
        (void)al;
        storage(what);
        REQUIRE(all_outstanding() <= 1, P_(6), "%s: %zu blocks outstanding", what, all_outstanding());
        sig(mix2(hash(what), mix2(q, old.size() * 100 + oc)));
    }
    void step()
    {
        size_t q = tricky(r, sizeof(T), cap, v.max_size());
        int k = (int)r.below(100);
        switch (r.below(8))
        {
        case 0: case 1:
            logf("reserve(%zu) size %zu capacity %zu", q, (size_t)v.size(), (size_t)v.capacity());
            if (q <= v.capacity()) judge("reserve", q, true, nullptr, false, [&](E& e) { v.reserve_nothrow(e, q); });
            else judge("reserve", q, true, nullptr, true, [&](E& e) { v.reserve_nothrow(e, q); });
            break;
        case 2: case 3:
        {
            if ((u128)q * sizeof(T) <= cap && q > 3000) q %= 3000;
            std::vector<int> w = m; if (q < 100000) w.resize(q, k);
            const T x = Mk<T>::of(k);
            logf("resize(%zu, value) size %zu capacity %zu", q, (size_t)v.size(), (size_t)v.capacity());
            judge("resize", q, true, q < 100000 ? &w : nullptr, true, [&](E& e) { v.resize_nothrow(e, q, x); });
            break;
        }
        case 4:
        {
            if ((u128)q * sizeof(T) <= cap && q > 3000) q %= 3000;
            std::vector<int> w = m; if (q < 100000) w.resize(q, Mk<T>::key(T()));
            logf("resize(%zu) size %zu capacity %zu", q, (size_t)v.size(), (size_t)v.capacity());
            judge("resize", q, true, q < 100000 ? &w : nullptr, true, [&](E& e) { v.resize_nothrow(e, q); });
            break;
        }
        case 5:
        {
            if ((u128)q * sizeof(T) <= cap && q > 3000) q %= 3000;
            std::vector<int> w; if (q < 100000) w.resize(q, k);
            const T x = Mk<T>::of(k);
            logf("assign(%zu, value) size %zu capacity %zu", q, (size_t)v.size(), (size_t)v.capacity());
            judge("assign", q, false, q < 100000 ? &w : nullptr, true, [&](E& e) { v.assign_nothrow(e, (typename C::size_type)q, x); });
            break;
        }
        case 6:
        {
            // append until refused, nearly full storage included
            size_t start = cap / sizeof(T) - std::min(cap / sizeof(T), (size_t)(1 + r.below(cap / sizeof(T) > 4000 ? 40 : cap / sizeof(T))));
            E e0; { Call c; v.reserve_nothrow(e0, start); }
            if (v.size() > start || start > 20000) break;
            logf("append until refused, size %zu capacity %zu", (size_t)v.size(), (size_t)v.capacity());
            const T x = Mk<T>::of(k);
            for (size_t guard = 0; guard < 30000; ++guard)
            {
                E e; const size_t os = v.size(), oc = v.capacity(); const void* op = (const void*)v.cbegin();
                bool front = os && r.chance(1, 50);
                { Call c; if (front) v.insert_nothrow(e, v.cbegin(), x); else v.push_back_nothrow(e, x); }
                if (e)
                {
                    REQUIRE(err_info(e).cat == 1, P_(20) | P_(14), "append refused with category %d", err_info(e).cat);
                    REQUIRE((u128)(os + 1) * sizeof(T) > cap / 4, P_(14), "append of element %zu refused early", os + 1);
                    REQUIRE(v.size() == os && v.capacity() == oc && (const void*)v.cbegin() == op, P_(14), "refused append changed the vector");
                    COV("appends until refused"); break;
                }
                REQUIRE(v.size() == os + 1 && v.capacity() >= v.size(), P_(14) | P_(1), "append: size or capacity wrong");
                if (v.capacity() != oc) storage("append");
                m.insert(front ? m.begin() : m.end(), k);
            }
            REQUIRE(read() == m, P_(14) | P_(1), "contents wrong after appending until refused");
            { Call c; v.clear(); } m.clear();
            E e1; { Call c; v.shrink_to_fit_nothrow(e1); }
            REQUIRE(!e1, P_(7) | P_(14), "shrink_to_fit of an empty vector failed");
            storage("shrink");
            break;
        }
        case 7: huge_range(); break;
        }
    }
    void huge_range()
    {
        std::ptrdiff_t d = (std::ptrdiff_t)(tricky(r, sizeof(T), cap, v.max_size()) & (SZ_MAX / 2));
        if ((u128)(size_t)d * sizeof(T) <= (u128)cap * 2) d = std::numeric_limits<std::ptrdiff_t>::max() - 5;
        logf("assign(range of %td) size %zu capacity %zu", d, (size_t)v.size(), (size_t)v.capacity());
        Counting<T>::reads = 0;
        const std::vector<int> old = m;
        E err;
        { Call c; v.assign_nothrow(err, Counting<T>(0), Counting<T>(d)); }
        ErrInfo e = err_info(err);
        REQUIRE(e.cat == 1 || e.cat == 2, P_(14) | P_(20), "assign from %td elements: category %d", d, e.cat);
        REQUIRE((size_t)d <= v.max_size() || e.cat == 2 || Counting<T>::reads, P_(20), "assign from %td elements (over-long): category %d", d, e.cat);
        std::vector<int> now = read();
        bool prefix = true; for (size_t i = 0; i < now.size(); ++i) prefix = prefix && now[i] == Mk<T>::key(Mk<T>::of((int)(i % 100)));
        REQUIRE(now == old || prefix, P_(14), "refused assign left contents that are neither old nor new");
        m = now; storage("assign range"); COV("enormous ranges refused"); sig(mix2((u64)d, 77));
    }
};

template <class C, class T, class E>
void vector_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x99);
    size_t cap = (size_t)1 << (12 + r.below(7));      // 4 KB .. 256 KB
    new_cap() = cap; cap_bytes() = cap;
    {
        Vec<C, T, E> x(seed, cap);
        size_t pre = r.below(8);
        for (size_t i = 0; i < pre; ++i)
        {
            E e; const T t = Mk<T>::of((int)i + 1); { Call c; x.v.push_back_nothrow(e, t); }
            if (e) break;
            x.m.push_back((int)i + 1);
        }
        int k = 3 + (int)r.below(12);
        for (int i = 0; i < k; ++i) x.step();
        G().armed = true;
    }
    G().armed = false;
    new_cap() = (size_t)64 << 20; cap_bytes() = (size_t)256 << 20;
    end_case_new();
    end_case();
}

// ---------------------------------------------------------------- growth arithmetic at capacities nobody can really have
struct Claim { size_t asked[64]; int n; bool refuse; };
Claim& claim() { static Claim c; return c; }
template <class T>
struct Liar
{
    typedef T value_type;
    typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef Liar<U> other; };
    Liar() noexcept {}
    Liar(const Liar&) noexcept {}
    template <class U> Liar(const Liar<U>&) noexcept {}
    Liar& operator=(const Liar&) noexcept { return *this; }
    template <class E> T* allocate(E& err, size_type n, const void* = 0) noexcept
    {
        Claim& c = claim();
        if (c.n < 64) c.asked[c.n++] = n;
        if (c.refuse) { build_bad_alloc(err); return nullptr; }
        // pretends to have given n elements; only the first few exist
        T* p = static_cast<T*>(raw_block(64 * sizeof(T), 16));
        BlockRec* b = blocks().put((std::uintptr_t)p); b->arena = 0; b->n = n; b->bytes = 64 * sizeof(T);
        return p;
    }
    void deallocate(T* p, size_type n) noexcept
    {
        if (!p) return;
        BlockRec* b = blocks().get((std::uintptr_t)p);
        if (!b) violation(P_(6), "block returned that is not outstanding");
        if (b->n != n) violation(P_(6) | P_(14), "block of %zu elements returned as %zu", b->n, (size_t)n);
        blocks().del((std::uintptr_t)p); std::free((void*)p);
    }
};

template <class T, class E>
void growth_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    Rng r(mix2(o.seed * 1000003 + hash(name), n));
    typedef nestl::no_exceptions::vector<T, Liar<T>> C;
    for (int round = 0; round < 6; ++round)
    {
        C v;
        Claim& c = claim(); std::memset((void*)&c, 0, sizeof c);
        const size_t maxn = v.max_size();
        size_t cap = tricky(r, sizeof(T), 4096, maxn);
        if (r.chance(1, 2)) cap = (size_t)((u128)maxn * (600 + r.below(401)) / 1000);      // where growing by half no longer fits
        if (cap > maxn) cap = maxn;
        { E e; Call k; v.reserve_nothrow(e, cap); if (e) violation(P_(14) | P_(7), "reserve(%zu) refused although storage was granted", cap); }
        for (int i = 0; i < 3 && cap >= 3; ++i) { E e; const T t = Mk<T>::of(i); Call k; v.push_back_nothrow(e, t); if (e) violation(P_(14), "append within capacity failed"); }
        const size_t size = v.size(), oc = v.capacity();
        REQUIRE(oc >= cap, P_(14), "reserve(%zu) succeeded, capacity %zu", cap, oc);
        c.refuse = true; c.n = 0;
        size_t q = r.chance(1, 2) ? oc + 1 + r.below(3) : tricky(r, sizeof(T), 4096, maxn);
        if (q <= oc) q = oc + 1;
        if (q <= oc) continue;      // wrapped: oc is the largest number there is
        unsigned op = (unsigned)r.below(3);
        logf("capacity %zu (max %zu): %s(%zu) while storage is refused", oc, maxn, op == 0 ? "reserve" : op == 1 ? "resize" : "resize value", q);
        E err; const T t = Mk<T>::of(9);
        { Call k; if (op == 0) v.reserve_nothrow(err, q); else if (op == 1) v.resize_nothrow(err, q); else v.resize_nothrow(err, q, t); }
        ErrInfo e = err_info(err);
        REQUIRE(e.cat != 0, P_(14), "request for %zu elements succeeded although storage was refused", q);
        if (q > maxn) REQUIRE(e.cat == 2 && c.n == 0, P_(14) | P_(20), "over-long request %zu: category %d, %d allocations asked", q, e.cat, c.n);
        for (int i = 0; i < c.n; ++i)
            REQUIRE(c.asked[i] >= q, P_(14), "%zu elements requested, but the allocator was asked for %zu (capacity was %zu)", q, c.asked[i], oc);
        REQUIRE(v.size() == size && v.capacity() == oc, P_(14), "refused request changed size or capacity");
        for (size_t i = 0; i < size; ++i) REQUIRE(Mk<T>::key(v[i]) == (int)i, P_(14), "refused request changed element %zu", i);
        COV("growth requests judged"); sig(mix2(oc, q));
        G().armed = true;
    }
    G().armed = false;
    end_case();
}

// ---------------------------------------------------------------- node containers and shared objects
template <class E>
void node_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    Rng r(mix2(o.seed * 1000003 + hash(name), n));
    cap_total() = 4096 + r.below(8192);
    {
        typedef nestl::no_exceptions::list<Elem, Alloc<Elem>> L;
        L l((Alloc<Elem>(5)));
        std::vector<Val> m;
        size_t pre = r.below(6);
        for (size_t i = 0; i < pre; ++i) { E e; Call k; l.emplace_back_nothrow(e, (int)i, 7); m.push_back(Val((int)i, 7)); }
        size_t q = std::max<size_t>(tricky(r, sizeof(Elem), 1 << 20, SZ_MAX / 2 / sizeof(Elem)), 100000);
        Holder<Elem> h(Val(50, 1));
        size_t p = r.below(pre + 1); auto it = l.cbegin(); std::advance(it, (std::ptrdiff_t)p);
        bool ins = r.chance(1, 2);
        logf("list %s of %zu copies into %zu elements", ins ? "insertion" : "assignment", q, pre);
        E err;
        { Call k; if (ins) l.insert_nothrow(err, it, (typename L::size_type)q, h.cref()); else l.assign_nothrow(err, (typename L::size_type)q, h.cref()); }
        ErrInfo e = err_info(err);
        REQUIRE(e.cat == 1 || e.cat == 2, P_(14) | P_(20), "list request for %zu elements: category %d", q, e.cat);
        std::vector<Val> now; for (auto i = l.cbegin(); i != l.cend(); ++i) now.push_back(ET<Elem>::val(*i));
        REQUIRE(now.size() == l.size(), P_(2) | P_(14), "list size wrong after a refused request");
        if (ins)
        {
            bool ok = now.size() >= m.size();
            for (size_t i = 0; ok && i < p; ++i) ok = now[i] == m[i];
            for (size_t i = 0; ok && i < m.size() - p; ++i) ok = now[now.size() - 1 - i] == m[m.size() - 1 - i];
            for (size_t i = p; ok && i < now.size() - (m.size() - p); ++i) ok = now[i] == Val(50, 1);
            REQUIRE(ok, P_(14) | P_(7), "refused list insertion disturbed pre-existing elements");
        }
        { E e2; Call k; l.clear(); l.emplace_back_nothrow(e2, 1, 1); REQUIRE(!e2 && l.size() == 1, P_(7) | P_(14), "list unusable after a refused request"); }
        COV("list requests refused"); sig(mix2(q, pre * 8 + p));
        G().armed = true;
    }
    G().armed = false;
    cap_total() = ~(size_t)0;
    // an object larger than what can be had
    {
        typedef Blob<200000> Big;
        new_cap() = 100000; cap_bytes() = 100000;
        E e1, e2; Alloc<Big> a(6);
        nestl::shared_ptr<Big> s1, s2;
        { Call k; s1 = nestl::make_shared_nothrow<Big>(e1); s2 = nestl::make_shared_a_nothrow<Big>(e2, a); }
        REQUIRE(err_info(e1).cat == 1 && err_info(e2).cat == 1 && !s1 && !s2 && s1.use_count() == 0, P_(14) | P_(7) | P_(20), "shared creation of an object that does not fit: categories %d %d", err_info(e1).cat, err_info(e2).cat);
        new_cap() = (size_t)64 << 20; cap_bytes() = (size_t)256 << 20;
        E e3; nestl::shared_ptr<Big> s3;
        { Call k; s3 = nestl::make_shared_a_nothrow<Big>(e3, a); }
        REQUIRE(!e3 && s3, P_(14) | P_(7), "shared creation refused although storage was available");
        REQUIRE(blocks().n == 1, P_(6), "shared creation keeps %zu blocks", (size_t)blocks().n);
        for (size_t i = 0; i < blocks().cap; ++i) if (blocks().t[i].k)
        {
            std::uintptr_t b = blocks().t[i].k; size_t by = blocks().t[i].r.bytes; std::uintptr_t q = (std::uintptr_t)s3.get();
            REQUIRE(q >= b && q + sizeof(Big) <= b + by, P_(14) | P_(6), "shared object outside the storage obtained for it");
        }
        COV("oversized shared objects refused");
        G().armed = true;
        s3.reset();
        G().armed = false;
    }
    end_case_new();
    end_case();
}

// ---------------------------------------------------------------- the error objects themselves
template <class E>
void same(const char* what, const E& e, int cat, int id)
{
    ErrInfo i = err_info(e);
    REQUIRE(i.cat == cat && (cat != 3 || i.id == id), P_(20), "%s: category %d id %d, expected %d id %d", what, i.cat, i.id, cat, id);
    REQUIRE(bool(e) == (cat != 0) && !e == (cat == 0), P_(20), "%s: truth value wrong", what);
    REQUIRE((e ? true : false) == (cat != 0), P_(20), "%s: truth value in a condition wrong", what);
}
template <class E>
void copies(const char* what, const E& e, int cat, int id)
{
    same(what, e, cat, id);
    E a(e); same("copy of error", a, cat, id);
    E b; b = e; same("assigned error", b, cat, id);
    E c(std::move(a)); same("moved error", c, cat, id);
    E d; d = std::move(c); same("move assigned error", d, cat, id);
    const E& alias = d; d = alias; same("self assigned error", d, cat, id);
    same("source of copies", e, cat, id);
    d = E(); same("reset error", d, 0, 0);
    b = d; same("overwritten error", b, 0, 0);
    same("source after reset of copies", e, cat, id);
    COV("error objects compared");
}
template <class E>
void builders(const char* what)
{
    E e; copies(what, e, 0, 0);
    E m; build_bad_alloc(m); copies("build_bad_alloc", m, 1, 0);
    E l; build_length_error(l); copies("build_length_error", l, 2, 0);
    same("untouched error", e, 0, 0);
}
template <class E> struct NotArithmetic { static_assert(!std::is_convertible<E, int>::value, "error objects must not convert to numbers silently"); };

#if VF_EX
struct Odd { std::string s; int n; Odd(const char* c, int k) : s(c), n(k) {} };
template <class X, class F>
void thrown(const char* what, const PtrErr& e, F same_)
{
    int hit = 0;
    for (int i = 0; i < 2; ++i)
    {
        try { throw_exception(e); }
        catch (const X& x) { hit += same_(x) && typeid(x) == typeid(X); }
        catch (...) {}
        try { std::rethrow_exception(e.value()); }
        catch (const X& x) { hit += same_(x) && typeid(x) == typeid(X); }
        catch (...) {}
    }
    REQUIRE(hit == 4, P_(20) | P_(9), "%s: rethrown error lost its type or value (%d of 4 matched)", what, hit);
    COV("errors rethrown");
}
template <class X, class F>
void carries(const char* what, X x, F same_)
{
    PtrErr a; from_exception(a, x);
    REQUIRE((bool)a, P_(20), "%s: from_exception left the error clear", what);
    PtrErr b; try { throw x; } catch (...) { from_exception_ptr(b, std::current_exception()); }
    REQUIRE((bool)b, P_(20), "%s: from_exception_ptr left the error clear", what);
    PtrErr c(b), d; d = a; PtrErr e(b.value());
    a = PtrErr();
    thrown<X>(what, b, same_); thrown<X>(what, c, same_); thrown<X>(what, d, same_); thrown<X>(what, e, same_);
    b = PtrErr(); thrown<X>(what, c, same_);
    REQUIRE(!a && !b && c && d && e, P_(20), "%s: copies of an error are not independent", what);
}
#endif

void error_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    Rng r(mix2(o.seed * 1000003 + hash(name), n));
    builders<DefErr>("default error"); builders<CodeErr>("errc based error"); builders<usr::Err>("user error");
    NotArithmetic<DefErr>(); NotArithmetic<CodeErr>();
    CodeErr c; build_bad_alloc(c); REQUIRE(c.value() == ENOMEM, P_(20), "out of memory has code %d", c.value());
    CodeErr l; build_length_error(l); REQUIRE(l.value() == ERANGE, P_(20), "length error has code %d", l.value());
    REQUIRE(CodeErr().value() == 0 && CodeErr(EINVAL).value() == nestl::errc::invalid_argument, P_(20), "error code values");
    int code = (int)r.next(); CodeErr x(code);
    REQUIRE(x.value() == code && bool(x) == (code != 0), P_(20), "error code %d became %d", code, x.value());
    CodeErr z(0); REQUIRE(!z, P_(20), "code 0 must mean no error");
    sig((u64)(unsigned)code);
#if VF_EX
    builders<PtrErr>("exception based error");
    int k = (int)r.below(1000000); std::string s = "text " + std::to_string(k);
    carries("int", k, [&](int v) { return v == k; });
    carries("string", s, [&](const std::string& v) { return v == s; });
    carries("object", Odd(s.c_str(), k), [&](const Odd& v) { return v.s == s && v.n == k; });
    carries("runtime_error", std::runtime_error(s), [&](const std::runtime_error& v) { return s == v.what(); });
    carries("out_of_range", std::out_of_range(s), [&](const std::out_of_range& v) { return s == v.what(); });
    carries("bad_alloc", std::bad_alloc(), [&](const std::bad_alloc&) { return true; });
    carries("class", Boom(k), [&](const Boom& v) { return v.id == k; });
    carries("derived class", BoomChild(k), [&](const BoomChild& v) { return v.id == k && v.extra == k * 7; });
    {
        // a derived exception caught by its base must still be the derived one
        PtrErr e; try { throw BoomChild(k); } catch (const Boom&) { from_exception_ptr(e, std::current_exception()); }
        thrown<BoomChild>("derived through base", e, [&](const BoomChild& v) { return v.id == k && v.extra == k * 7; });
        PtrErr m; build_bad_alloc(m); thrown<std::bad_alloc>("build_bad_alloc", m, [&](const std::bad_alloc&) { return true; });
        PtrErr q; build_length_error(q); thrown<std::length_error>("build_length_error", q, [&](const std::length_error&) { return true; });
    }
#endif
    // reported by operations, with nothing else going on
    {
        typedef nestl::no_exceptions::vector<int> V;
        V v; DefErr e1; { Call k2; v.reserve_nothrow(e1, v.max_size() + 1); } copies("reserve(max_size + 1)", e1, 2, 0);
        usr::Err e2; { Call k2; v.resize_nothrow(e2, SZ_MAX); } copies("resize(largest)", e2, 2, 0);
        CodeErr e3; { Call k2; v.assign_nothrow(e3, (V::size_type)SZ_MAX, 1); } copies("assign(largest)", e3, 2, 0);
        DefErr e4; { Call k2; v.reserve_nothrow(e4, v.max_size()); } copies("reserve(max_size)", e4, 1, 0);
        CodeErr e5; { Call k2; v.push_back_nothrow(e5, 1); } copies("push_back", e5, 0, 0);
        REQUIRE(v.size() == 1 && v[0] == 1, P_(1) | P_(14), "vector contents");
        DefErr e6; { Call k2; v.reserve_nothrow(e6, v.max_size() + 1 + r.below(1000)); } copies("reserve beyond max_size", e6, 2, 0);
        REQUIRE(v.size() == 1 && v[0] == 1, P_(14), "refused reserve changed the vector");
        G().armed = true;
    }
    G().armed = false;
    end_case_new();
    end_case();
}

struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
} // namespace
int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "limits");
    std::string mode = o.mode;
    std::vector<Entry> es;
#define DIRECT(T, name) es.push_back({ "allocator<" name ">", &direct_case<T, DefErr> });
#define VEC(T, A, E, name) { typedef nestl::no_exceptions::vector<T, A<T>> C; es.push_back({ name, &vector_case<C, T, E> }); }
    if (mode == "errors") es.push_back({ "error objects", &error_case });
    else
    {
#if IN_PART(0)
        DIRECT(char, "1") DIRECT(short, "2") DIRECT(Blob<3>, "3") DIRECT(double, "8") DIRECT(Blob<24>, "24") DIRECT(Blob<1000>, "1000") DIRECT(Blob<4096>, "4096") DIRECT(Blob<65537>, "65537")
        es.push_back({ "allocator<12>/user-error", &direct_case<Blob<12>, usr::Err> });
        es.push_back({ "allocator<48>/errc", &direct_case<Blob<48>, CodeErr> });
        es.push_back({ "growth<char>", &growth_case<signed char, DefErr> });
        es.push_back({ "growth<int>/user-error", &growth_case<int, usr::Err> });
        es.push_back({ "growth<Blob<24>>", &growth_case<Blob<24>, DefErr> });
        es.push_back({ "list and shared objects", &node_case<DefErr> });
        es.push_back({ "list and shared objects/user-error", &node_case<usr::Err> });
#endif
#if IN_PART(1)
        VEC(int, nestl::allocator, DefErr, "vector<int>")
        VEC(signed char, nestl::allocator, usr::Err, "vector<char>/user-error")
        VEC(Blob<3>, nestl::allocator, CodeErr, "vector<3 bytes>/errc")
        VEC(Blob<24>, nestl::allocator, DefErr, "vector<24 bytes>")
        VEC(Blob<1000>, Alloc, DefErr, "vector<1000 bytes,Alloc>")
        VEC(Elem, Alloc, usr::Err, "vector<Elem,Alloc>/user-error")
        VEC(Wide, nestl::allocator, DefErr, "vector<Wide>")
#endif
    }
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
