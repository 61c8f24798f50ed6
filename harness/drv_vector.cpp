// nestl::vector under random, aliasing and fault-injected histories, checked against an ideal sequence after every call.
#include "vf.hpp"
#include "newhook.hpp"
using namespace vf;

namespace
{
template <class V> auto nx_(V& v, int) -> decltype(v.as_noexcept()) { return v.as_noexcept(); }
template <class V> V& nx_(V& v, long) { return v; }
template <class V> auto nx(V& v) -> decltype(nx_(v, 0)) { return nx_(v, 0); }

template <class T> struct CoresOf { static const int n = ET<T>::tracked ? 1 : 0; };
#if VF_EX
template <> struct CoresOf<LateThrower> { static const int n = 2; };
#endif

enum OnFail { NOFAIL, UNCHANGED, GROWN, INSERTED, REPLACED };

struct Expect
{
    std::vector<Val> ok;
    OnFail onfail;
    size_t pos, count;        // insertion point and number of inserted elements
    bool may_realloc;         // the operation may obtain new storage although the new size fits
    size_t stable;            // leading elements that must stay untouched when no reallocation is due
    const void* arg;          // harness owned argument (construction from it must not lose anything)
    const void* arg_end;
    bool arg_alias;           // the argument is an element of the vector itself
    Expect() : onfail(NOFAIL), pos(0), count(0), may_realloc(false), stable(0), arg(nullptr), arg_end(nullptr), arg_alias(false) {}
};

struct Plan { int step; int fk; long long k; bool storm; bool sticky; Plan() : step(-1), fk(F_NONE), k(0), storm(false), sticky(false) {} };

template <class C, class T, class E>
struct VRun
{
    typedef typename C::allocator_type A;
    typedef typename C::const_iterator CI;
    Rng r; Plan plan; int step; bool plan_fired; bool shape_small;
    typename std::aligned_storage<sizeof(C), alignof(C)>::type buf[2];
    std::vector<Val> m[2];
    int arena[2];
    int tagc;
    size_t base_live;      // elements alive that the harness owns

    C& c(int i) { return *reinterpret_cast<C*>(&buf[i]); }

    VRun(u64 seed, const Plan& p) : r(seed), plan(p), step(0), plan_fired(false), tagc(0)
    {
        G().ev.zero(); G().next_oid = 0; G().next_fault_id = 0; G().fault_seen = false;
        for (int i = 0; i < 2; ++i) { arena[i] = i + 1; ::new ((void*)&buf[i]) C(AllocOps<A>::make(arena[i])); }
        shape_small = r.chance(3, 4);
    }
    ~VRun()
    {
        for (int i = 0; i < 2; ++i) { Call k; c(i).~C(); }
    }

    Val nv() { return ET<T>::norm(Val((int)r.below(9), ++tagc)); }
    std::vector<Val> nvs(size_t n) { std::vector<Val> v; for (size_t i = 0; i < n; ++i) v.push_back(nv()); return v; }

    void arm()
    {
        set_fault(F_NONE, 0);
        if (plan.storm) { if (r.chance(1, 3)) { FaultKind fk = r.chance(1, 2) ? F_ALLOC : F_ELEM; size_t far = r.chance(1, 3) ? 12 : 3; long long at = 1 + (long long)r.below(far); set_fault(fk, at, r.chance(1, 6)); } }
        else if (step == plan.step) set_fault(plan.fk, plan.k, plan.sticky);
    }

    std::vector<Val> read(int i)
    {
        std::vector<Val> v;
        const C& k = c(i);
        for (size_t j = 0; j < k.size(); ++j) v.push_back(ET<T>::val(k[j]));
        return v;
    }

    void check(int i, const char* what)
    {
        const u64 t = P_(1);
        C& v = c(i); const C& k = v;
        const std::vector<Val>& e = m[i];
        const size_t n = e.size();
        REQUIRE(k.size() == n, t, "%s: size %zu, ideal sequence has %zu", what, (size_t)k.size(), n);
        REQUIRE(k.empty() == (n == 0), t, "%s: empty() wrong for size %zu", what, n);
        REQUIRE(k.capacity() >= n, t | P_(14), "%s: capacity %zu below size %zu", what, (size_t)k.capacity(), n);
        REQUIRE(k.max_size() >= n, t | P_(14), "%s: max_size below size", what);
        REQUIRE((size_t)std::distance(k.begin(), k.end()) == n && (size_t)std::distance(v.begin(), v.end()) == n && (size_t)std::distance(k.cbegin(), k.cend()) == n, t, "%s: iterator distance differs from size %zu", what, n);
        size_t j = 0;
        for (auto it = v.begin(); it != v.end(); ++it, ++j)
        {
            REQUIRE(j < n, t, "%s: iteration runs past %zu elements", what, n);
            Val g = ET<T>::val(*it);
            REQUIRE(g == e[j], t, "%s: element %zu of %zu is (%d,%d), ideal sequence has (%d,%d)", what, j, n, g.key, g.tag, e[j].key, e[j].tag);
            REQUIRE(addr(k[j]) == addr(*it) && addr(v[j]) == addr(*it), t, "%s: operator[](%zu) and iterator disagree", what, j);
            obs((u64)g.key * 31 + (u64)g.tag);
        }
        j = n;
        for (auto it = v.rbegin(); it != v.rend(); ++it) { REQUIRE(j > 0 && ET<T>::val(*it) == e[j - 1], t, "%s: reverse iteration wrong at %zu", what, j); --j; }
        REQUIRE(j == 0, t, "%s: reverse iteration stops early", what);
        j = n;
        for (auto it = k.rbegin(); it != k.rend(); ++it) { REQUIRE(j > 0 && ET<T>::val(*it) == e[j - 1], t, "%s: const reverse iteration wrong at %zu", what, j); --j; }
        REQUIRE(j == 0, t, "%s: const reverse iteration stops early", what);
        j = n;
        for (auto it = k.crbegin(); it != k.crend(); ++it) { REQUIRE(j > 0 && ET<T>::val(*it) == e[j - 1], t, "%s: crbegin iteration wrong at %zu", what, j); --j; }
        REQUIRE(j == 0, t, "%s: crbegin iteration stops early", what);
        if (n)
        {
            REQUIRE(addr(v.front()) == addr(v[0]) && addr(k.front()) == addr(k[0]), t, "%s: front()", what);
            REQUIRE(addr(v.back()) == addr(v[n - 1]) && addr(k.back()) == addr(k[n - 1]), t, "%s: back()", what);
            REQUIRE(nx(v).data() == addr(v[0]), t, "%s: data()", what);
            const auto& kn = nx(v);
            REQUIRE(kn.data() == addr(v[0]), t, "%s: const data()", what);
        }
        if (k.capacity())
        {
            size_t b = storage_bytes((const void*)k.begin());
            REQUIRE(b >= k.capacity() * sizeof(T), P_(14) | P_(6), "%s: capacity %zu of %zu-byte elements but only %zu bytes of storage", what, (size_t)k.capacity(), sizeof(T), b);
        }
        if (AllocOps<A>::monitored)
            REQUIRE(AllocOps<A>::arena(k.get_allocator()) == arena[i], P_(6), "%s: container %d reports allocator %d, was given %d", what, i, AllocOps<A>::arena(k.get_allocator()), arena[i]);
        obs(n); obs(k.capacity());
    }
    void check_both(const char* what)
    {
        check(0, what); check(1, what);
        REQUIRE(all_outstanding() <= 2, P_(6), "%s: %zu blocks outstanding for two vectors", what, all_outstanding());
    }
    void check_live(const char* what, size_t harness)
    {
        if (!CoresOf<T>::n) return;
        size_t want = harness + CoresOf<T>::n * (c(0).size() + c(1).size());
        REQUIRE(live().n == want, P_(5), "%s: %zu elements alive, %zu expected", what, (size_t)live().n, want);
    }

    static bool is_prefix(const std::vector<Val>& a, const std::vector<Val>& b)   // a prefix of b
    { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

    void check_failed(const char* what, const std::vector<Val>& old, const std::vector<Val>& now, const Expect& ex, size_t oldcap)
    {
        State& g = G();
        u64 t = g.fk == F_ALLOC ? P_(7) : P_(8);
        bool arg_failed = g.fk == F_ELEM && !ex.arg_alias && !g.sticky && (!g.fault_src || (g.fault_src >= ex.arg && g.fault_src < ex.arg_end));
        bool full = old.size() == oldcap;
        switch (ex.onfail)
        {
        case NOFAIL:
            REQUIRE(false, t, "%s: an operation that cannot fail reported an error", what); break;
        case UNCHANGED:
            REQUIRE(now == old, t, "%s: failed, but the contents changed (size %zu -> %zu)", what, old.size(), now.size());
            break;
        case GROWN:
            REQUIRE(is_prefix(old, now) && is_prefix(now, ex.ok), t, "%s: failed resize disturbed pre-existing elements", what); break;
        case REPLACED:
            REQUIRE(is_prefix(now, ex.ok) || now == old, t, "%s: failed assignment left neither a prefix of the new contents nor the old ones", what); break;
        case INSERTED:
        {
            bool ok = false;
            // old[0,pos) + first j inserted + old[pos,..)
            for (size_t j = 0; j <= ex.count && !ok; ++j)
            {
                std::vector<Val> want(old.begin(), old.begin() + ex.pos);
                want.insert(want.end(), ex.ok.begin() + ex.pos, ex.ok.begin() + ex.pos + j);
                size_t keep = want.size();
                want.insert(want.end(), old.begin() + ex.pos, old.end());
                if (now == want) ok = j < ex.count || ex.count == 0;
                else if (g.fk == F_ELEM && !arg_failed && ex.count == 1 && !full && now.size() >= keep && is_prefix(now, want)) ok = true;
                else if (g.fk == F_ELEM && !arg_failed && ex.count > 1 && now.size() >= keep && is_prefix(now, want)) ok = true;
            }
            REQUIRE(ok, t, "%s: failed insertion at %zu of %zu left contents it may not leave (size now %zu)", what, ex.pos, old.size(), now.size());
            break;
        }
        }
    }

    bool mutate(const char* what, int i, const Expect& ex, size_t harness, const std::function<void(E&)>& f)
    {
        State& g = G();
        const std::vector<Val> old = m[i];
        C& v = c(i);
        const size_t oldcap = v.capacity();
        const void* oldptr = oldcap ? (const void*)v.begin() : nullptr;
        std::vector<u64> oids;
        for (size_t j = 0; j < old.size(); ++j) oids.push_back(ET<T>::oid(v[j]));
        arm();
        E err;
        Call call;
        f(err);
        call.done();
        Delta d(call);
        if (g.fired) plan_fired = true;
        ErrInfo info = check_err(err, P_(1), what);
        check_sets(err, info.cat != 0);
        obs(d.make); obs(d.copy); obs(d.move); obs(d.destroy); obs(d.alloc); obs(d.dealloc);
        sig(mix2((u64)(what[0] * 131 + what[1] + 7 * std::strlen(what)), mix2((u64)std::min<size_t>(old.size(), 24) * 64 + (u64)(old.size() == oldcap), mix2(ex.pos * 77 + ex.count, (u64)g.fk * 4096 + (u64)(g.fired ? plan.k : 0)))));
        if (!info.cat)
        {
            m[i] = ex.ok;
            if (!ex.may_realloc && ex.ok.size() <= oldcap)
            {
                COV("within-capacity stability checks");
                REQUIRE(v.capacity() == oldcap && (!oldcap || (const void*)v.begin() == oldptr), P_(15), "%s: storage changed although the new size %zu fits the capacity %zu", what, ex.ok.size(), oldcap);
                REQUIRE(d.alloc == 0, P_(15), "%s: allocated although the new size fits the capacity", what);
                for (size_t j = 0; j < ex.stable && j < ex.ok.size(); ++j)
                    REQUIRE(ET<T>::oid(v[j]) == oids[j], P_(15), "%s: element %zu before the insertion point was replaced without reallocation", what, j);
            }
        }
        else
        {
            COV("failed operations judged");
            std::vector<Val> now = read(i);
            check_failed(what, old, now, ex, oldcap);
            m[i] = now;
        }
        check_live(what, harness);
        check_both(what);
        return info.cat == 0;
    }

    size_t pos_for(size_t n)
    {
        switch (r.below(4)) { case 0: return 0; case 1: return n; default: return r.below(n + 1); }
    }
    CI at(int i, size_t p) { return c(i).cbegin() + (std::ptrdiff_t)p; }

    static std::vector<Val> ins(std::vector<Val> v, size_t p, const std::vector<Val>& x) { v.insert(v.begin() + (std::ptrdiff_t)p, x.begin(), x.end()); return v; }

    Expect exp_insert(int i, size_t p, Val x)
    {
        Expect e; e.ok = ins(m[i], p, std::vector<Val>(1, x)); e.onfail = INSERTED; e.pos = p; e.count = 1; e.stable = p; return e;
    }
    static const size_t CORES = CoresOf<T>::n;
    template <class H> void with_arg(Expect& e, H& h) { e.arg = addr(h.ref()); e.arg_end = addr(h.ref()) + 1; }

    void arg_intact(const char* what, Holder<T>& h, Val v)
    {
        State& g = G();
        if (g.fired && g.fk == F_ALLOC)
        {
            Val now = ET<T>::val(h.cref());
            REQUIRE(now == v, P_(7), "%s: allocation failed but the inserted argument changed", what);
            COV("argument intact checks");
        }
    }
    void handed_over(const char* what, Holder<T>& h)
    {
        if (!Moves<T>::yes) return;
        COV("rvalues seen handed over");
        REQUIRE(ET<T>::val(h.cref()).key == MOVED, P_(12), "%s: the rvalue argument was not passed on as an rvalue", what);
    }
    void ret_iter(const char* what, int i, typename C::iterator it, size_t p)
    {
        C& v = c(i);
        REQUIRE((size_t)(it - v.begin()) == p, P_(1), "%s: returned iterator is at %zd, inserted at %zu", what, (std::ptrdiff_t)(it - v.begin()), p);
    }

    template <class Tag> void range_op(const char* what, int i, bool assign, size_t n, size_t p)
    {
        std::vector<Val> x = nvs(n);
        Row<T> row(x);
        RangeState<T> st = { row.begin(), row.end(), 0 };
        It<T, Tag> a(&st, row.begin()), b(&st, row.end());
        Expect e; e.arg = row.begin(); e.arg_end = row.end();
        if (assign) { e.ok = x; e.onfail = REPLACED; e.may_realloc = true; }
        else { e.ok = ins(m[i], p, x); e.onfail = INSERTED; e.pos = p; e.count = n; e.stable = p; }
        logf("v%d.%s n=%zu pos=%zu", i, what, n, p);
        if (assign) mutate(what, i, e, n * CORES, [&](E& err) { c(i).assign_nothrow(err, a, b); });
        else mutate(what, i, e, n * CORES, [&](E& err) { c(i).insert_nothrow(err, at(i, p), a, b); });
        for (size_t j = 0; j < n; ++j) REQUIRE(ET<T>::val(row.p[j]) == x[j], P_(1) | P_(7) | P_(8), "%s: source element %zu was altered", what, j);
    }

    void one()
    {
        State& g = G();
        const int i = (int)r.below(2), o = 1 - i;
        const size_t n = m[i].size();
        size_t lim = shape_small ? 12 : 60;
        unsigned op = (unsigned)r.below(40);
        if (n > lim && op < 20) op = 24 + (unsigned)r.below(4);
        ++step;
        switch (op)
        {
        case 0: case 1: case 2:
        {
            Val x = nv(); Holder<T> h(x);
            logf("v%d.push_back(const& %d)", i, x.key); COV("push_back const&");
            Expect e = exp_insert(i, n, x); e.onfail = UNCHANGED; with_arg(e, h);
            mutate("push_back(const&)", i, e, CORES, [&](E& err) { c(i).push_back_nothrow(err, h.cref()); });
            REQUIRE(ET<T>::val(h.cref()) == x, P_(1) | P_(12), "push_back(const&) altered its argument");
            break;
        }
        case 3: case 4:
        {
            Val x = nv(); Holder<T> h(x);
            logf("v%d.push_back(&& %d)", i, x.key); COV("push_back &&");
            Expect e = exp_insert(i, n, x); e.onfail = UNCHANGED; with_arg(e, h);
            if (mutate("push_back(&&)", i, e, CORES, [&](E& err) { c(i).push_back_nothrow(err, std::move(h.ref())); })) handed_over("push_back(&&)", h);
            arg_intact("push_back(&&)", h, x);
            break;
        }
        case 5: case 6:
        {
            if (!n) break;
            size_t s = r.below(n); Val x = m[i][s];
            logf("v%d.push_back(own element %zu)", i, s); COV("push_back aliasing");
            Expect e = exp_insert(i, n, x); e.onfail = UNCHANGED; e.arg_alias = true;
            mutate("push_back(own element)", i, e, 0, [&](E& err) { const C& k = c(i); c(i).push_back_nothrow(err, k[s]); });
            break;
        }
        case 7:
        {
            Val x = nv();
            logf("v%d.emplace_back(%d,%d)", i, x.key, x.tag); COV("emplace_back");
            Expect e = exp_insert(i, n, x); e.onfail = UNCHANGED;
            mutate("emplace_back(args)", i, e, 0, [&](E& err) { emplace_back(c(i), err, x); });
            break;
        }
        case 8:
        {
            if (!n) break;
            size_t s = r.below(n); Val x = m[i][s];
            logf("v%d.emplace_back(own element %zu)", i, s); COV("emplace_back aliasing");
            Expect e = exp_insert(i, n, x); e.onfail = UNCHANGED; e.arg_alias = true;
            mutate("emplace_back(own element)", i, e, 0, [&](E& err) { const C& k = c(i); c(i).emplace_back_nothrow(err, k[s]); });
            break;
        }
        case 9: case 10:
        {
            size_t p = pos_for(n); Val x = nv(); Holder<T> h(x);
            logf("v%d.insert(%zu, const& %d)", i, p, x.key); COV("insert const&");
            Expect e = exp_insert(i, p, x); with_arg(e, h); if (n == c(i).capacity() || p == n) e.onfail = UNCHANGED;
            typename C::iterator it = typename C::iterator();
            if (mutate("insert(const&)", i, e, CORES, [&](E& err) { it = c(i).insert_nothrow(err, at(i, p), h.cref()); })) ret_iter("insert(const&)", i, it, p);
            break;
        }
        case 11: case 12:
        {
            size_t p = pos_for(n); Val x = nv(); Holder<T> h(x);
            logf("v%d.insert(%zu, && %d)", i, p, x.key); COV("insert &&");
            Expect e = exp_insert(i, p, x); with_arg(e, h); if (n == c(i).capacity() || p == n) e.onfail = UNCHANGED;
            typename C::iterator it = typename C::iterator();
            if (mutate("insert(&&)", i, e, CORES, [&](E& err) { it = c(i).insert_nothrow(err, at(i, p), std::move(h.ref())); })) { ret_iter("insert(&&)", i, it, p); handed_over("insert(&&)", h); }
            arg_intact("insert(&&)", h, x);
            break;
        }
        case 13: case 14: case 15:
        {
            if (!n) break;
            size_t p = pos_for(n), s = r.below(n); Val x = m[i][s];
            logf("v%d.insert(%zu, own element %zu)", i, p, s); COV("insert aliasing");
            Expect e = exp_insert(i, p, x); e.arg_alias = true; if (n == c(i).capacity() || p == n) e.onfail = UNCHANGED;
            typename C::iterator it = typename C::iterator();
            if (mutate("insert(own element)", i, e, 0, [&](E& err) { const C& k = c(i); it = c(i).insert_nothrow(err, at(i, p), k[s]); })) ret_iter("insert(own)", i, it, p);
            break;
        }
        case 16: case 17:
        {
            size_t p = pos_for(n), q = r.below(r.chance(1, 6) ? 30 : 6);
            switch (r.below(4))
            {
            case 0: COV("range insert input"); range_op<std::input_iterator_tag>("insert(input range)", i, false, q, p); break;
            case 1: COV("range insert forward"); range_op<std::forward_iterator_tag>("insert(forward range)", i, false, q, p); break;
            case 2: COV("range insert bidirectional"); range_op<std::bidirectional_iterator_tag>("insert(bidi range)", i, false, q, p); break;
            default: COV("range insert random"); range_op<std::random_access_iterator_tag>("insert(random range)", i, false, q, p); break;
            }
            break;
        }
        case 18: case 19:
        {
            size_t q = r.below(r.chance(1, 6) ? 40 : 8);
            switch (r.below(4))
            {
            case 0: COV("range assign input"); range_op<std::input_iterator_tag>("assign(input range)", i, true, q, 0); break;
            case 1: COV("range assign forward"); range_op<std::forward_iterator_tag>("assign(forward range)", i, true, q, 0); break;
            case 2: COV("range assign bidirectional"); range_op<std::bidirectional_iterator_tag>("assign(bidi range)", i, true, q, 0); break;
            default: COV("range assign random"); range_op<std::random_access_iterator_tag>("assign(random range)", i, true, q, 0); break;
            }
            break;
        }
        case 20:
        {
            size_t q = r.below(10); Val x = nv(); Holder<T> h(x);
            logf("v%d.assign(%zu, %d)", i, q, x.key); COV("assign count");
            Expect e; e.ok.assign(q, x); e.onfail = REPLACED; e.may_realloc = true; with_arg(e, h);
            mutate("assign(n, value)", i, e, CORES, [&](E& err) { c(i).assign_nothrow(err, (typename C::size_type)q, h.cref()); });
            break;
        }
        case 21:
        {
            if (!n) break;
            size_t q = r.below(10), s = r.below(n); Val x = m[i][s];
            logf("v%d.assign(%zu, own element %zu)", i, q, s); COV("assign count aliasing");
            Expect e; e.ok.assign(q, x); e.onfail = REPLACED; e.may_realloc = true; e.arg_alias = true;
            mutate("assign(n, own element)", i, e, 0, [&](E& err) { const C& k = c(i); c(i).assign_nothrow(err, (typename C::size_type)q, k[s]); });
            break;
        }
        case 22:
        {
            size_t a = r.below(n + 1), b = a + r.below(n - a + 1);
            logf("v%d.assign(own range %zu..%zu)", i, a, b); COV("assign own range");
            Expect e; e.ok.assign(m[i].begin() + (std::ptrdiff_t)a, m[i].begin() + (std::ptrdiff_t)b); e.onfail = REPLACED; e.may_realloc = true; e.arg_alias = true;
            mutate("assign(own range)", i, e, 0, [&](E& err) { c(i).assign_nothrow(err, at(i, a), at(i, b)); });
            break;
        }
        case 23:
        {
            bool self = r.chance(1, 4); int s = self ? i : o;
            logf("v%d.copy(v%d)", i, s); COV("copy_nothrow");
            std::vector<Val> src = m[s];
            Expect e; e.ok = src; e.onfail = REPLACED; e.may_realloc = true; e.arg_alias = true;
            mutate("copy_nothrow", i, e, 0, [&](E& err) { nx(c(i)).copy_nothrow(err, nx(c(s))); });
            if (!self) REQUIRE(read(s) == src, P_(1) | P_(7) | P_(8), "copy_nothrow altered its source");
            break;
        }
        case 24:
        {
            size_t q = r.chance(1, 2) ? r.below(n + 1) : r.below(n + 9);
            logf("v%d.resize(%zu)", i, q); COV("resize");
            Expect e; e.ok = m[i]; e.ok.resize(q, fresh()); e.onfail = q > n ? GROWN : NOFAIL; e.stable = std::min(n, q);
            if (fixed_default())
            {
                mutate("resize(n)", i, e, 0, [&](E& err) { c(i).resize_nothrow(err, q); });
            }
            break;
        }
        case 25:
        {
            size_t q = r.chance(1, 2) ? r.below(n + 1) : r.below(n + 9); Val x = nv(); Holder<T> h(x);
            logf("v%d.resize(%zu, %d)", i, q, x.key); COV("resize value");
            Expect e; e.ok = m[i]; e.ok.resize(q, x); e.onfail = q > n ? GROWN : NOFAIL; e.stable = std::min(n, q); with_arg(e, h);
            mutate("resize(n, value)", i, e, CORES, [&](E& err) { c(i).resize_nothrow(err, q, h.cref()); });
            break;
        }
        case 26:
        {
            if (!n) break;
            size_t q = r.below(n + 9), s = r.below(n); Val x = m[i][s];
            logf("v%d.resize(%zu, own element %zu)", i, q, s); COV("resize aliasing");
            Expect e; e.ok = m[i]; e.ok.resize(q, x); e.onfail = q > n ? GROWN : NOFAIL; e.stable = std::min(n, q); e.arg_alias = true;
            mutate("resize(n, own element)", i, e, 0, [&](E& err) { const C& k = c(i); c(i).resize_nothrow(err, q, k[s]); });
            break;
        }
        case 27:
        {
            logf("v%d.clear()", i); COV("clear");
            Expect e; e.onfail = NOFAIL;
            mutate("clear", i, e, 0, [&](E&) { c(i).clear(); });
            break;
        }
        case 28: case 29:
        {
            size_t q = r.below(2 * n + 6);
            logf("v%d.reserve(%zu)", i, q); COV("reserve");
            Expect e; e.ok = m[i]; e.onfail = UNCHANGED; e.may_realloc = q > c(i).capacity(); e.stable = n;
            size_t oc = c(i).capacity();
            if (mutate("reserve", i, e, 0, [&](E& err) { c(i).reserve_nothrow(err, q); }))
                REQUIRE(c(i).capacity() >= q && c(i).capacity() >= oc, P_(1) | P_(14) | P_(15), "reserve(%zu) succeeded but capacity is %zu", q, (size_t)c(i).capacity());
            else
                REQUIRE(c(i).capacity() == oc, P_(7) | P_(8), "failed reserve changed the capacity");
            break;
        }
        case 30:
        {
            logf("v%d.shrink_to_fit()", i); COV("shrink");
            Expect e; e.ok = m[i]; e.onfail = UNCHANGED; e.may_realloc = true;
            size_t oc = c(i).capacity();
            if (mutate("shrink_to_fit", i, e, 0, [&](E& err) { c(i).shrink_to_fit_nothrow(err); }))
            {
                REQUIRE(c(i).capacity() <= oc, P_(1), "shrink_to_fit enlarged the capacity");
                REQUIRE(c(i).capacity() == n, P_(19), "after shrink_to_fit the capacity is %zu for %zu elements", (size_t)c(i).capacity(), n);
            }
            else
                REQUIRE(c(i).capacity() == oc, P_(7) | P_(8), "failed shrink changed the capacity");
            break;
        }
        case 31: case 32:
        {
            bool self = r.chance(1, 5);
            logf("v%d.swap(%s)", i, self ? "self" : "other"); COV("swap");
            const void* p0 = c(0).begin(); const void* p1 = c(1).begin();
            set_fault(F_NONE, 0);
            Call call; nx(c(i)).swap(nx(c(self ? i : o))); call.done();
            Delta d(call);
            REQUIRE(d.touches() == 0 && d.alloc == 0 && d.dealloc == 0, P_(18), "vector swap touched elements or storage");
            if (!self) { std::swap(m[0], m[1]); std::swap(arena[0], arena[1]); std::swap(p0, p1); }
            REQUIRE((m[0].empty() || (const void*)c(0).begin() == p0) && (m[1].empty() || (const void*)c(1).begin() == p1), P_(18) | P_(15), "vector swap did not keep elements in place");
            check_live("swap", 0); check_both("swap");
            break;
        }
        case 33: case 34:
        {
            logf("v%d: move construct and back", i); COV("move construct");
            set_fault(F_NONE, 0);
            const void* p = c(i).begin();
            Call call; C t(std::move(c(i))); call.done();
            Delta d(call);
            REQUIRE(d.touches() == 0 && d.alloc == 0 && d.dealloc == 0, P_(18), "vector move construction touched elements or storage");
            REQUIRE(t.size() == n && (n == 0 || (const void*)t.begin() == p), P_(18) | P_(1), "vector move construction lost contents");
            REQUIRE(c(i).empty() && c(i).size() == 0, P_(18), "moved-from vector is not empty");
            if (AllocOps<A>::monitored) REQUIRE(AllocOps<A>::arena(t.get_allocator()) == arena[i], P_(6), "move construction changed the allocator");
            std::vector<Val> saved = m[i]; m[i].clear();
            check_live("move construct", CORES * n);
            REQUIRE(all_outstanding() <= 3, P_(6), "too many blocks outstanding after move construction");
            if (r.chance(1, 2))
            {
                // the source stays fully usable
                Val x = nv(); Holder<T> h(x);
                E err; { Call k2; c(i).push_back_nothrow(err, h.cref()); }
                REQUIRE(!err, P_(18) | P_(1), "moved-from vector cannot be used");
                m[i].push_back(x); check(i, "use after move");
                logf("  push into the moved-from vector");
            }
            size_t had = m[i].size();
            if (r.chance(2, 3))
            {
                Call k3; c(i) = std::move(t); k3.done();
                Delta d3(k3);
                REQUIRE(d3.births() == 0 && d3.assign == 0 && d3.alloc == 0 && d3.destroy == CORES * had, P_(18), "vector move assignment touched transferred elements");
                REQUIRE(t.empty(), P_(18), "source of move assignment is not empty");
                m[i] = saved;
                logf("  moved back");
            }
            { Call k4; { C sink(std::move(t)); } }
            check_live("move", 0); 
            check(i, "move"); check(o, "move");
            break;
        }
        case 35: case 36:
        {
            logf("v%d = move(v%d)", i, o); COV("move assign");
            set_fault(F_NONE, 0);
            const size_t no = m[o].size();
            const void* p = c(o).begin();
            Call call; c(i) = std::move(c(o)); call.done();
            Delta d(call);
            REQUIRE(d.births() == 0 && d.assign == 0 && d.alloc == 0, P_(18), "vector move assignment constructed, assigned or allocated");
            if (CORES) REQUIRE(d.destroy == CORES * n, P_(18) | P_(5), "vector move assignment destroyed %llu elements, target had %zu", d.destroy, n);
            REQUIRE(c(o).empty(), P_(18), "source of move assignment is not empty");
            REQUIRE(no == 0 || (const void*)c(i).begin() == p, P_(18), "vector move assignment did not keep elements in place");
            m[i] = m[o]; m[o].clear();
            arena[i] = arena[o];
            check_live("move assign", 0); check_both("move assign");
            // the source must stay usable with its own allocator
            break;
        }
        case 37:
        {
            logf("v%d = move(v%d) (self)", i, i); COV("self move");
            set_fault(F_NONE, 0);
            Call call; C& self = c(i); c(i) = std::move(self); call.done();
            std::vector<Val> now = read(i);
            REQUIRE(now == m[i] || now.empty(), P_(18), "self move left other contents");
            m[i] = now;
            check_live("self move", 0); check_both("self move");
            break;
        }
        case 38:
        {
            COV("equality");
            set_fault(F_NONE, 0);
            bool want = m[0] == m[1];
            Call call;
            const auto& a = nx(c(0)); const auto& b = nx(c(1));
            bool got = a == b, got2 = b == a, refl = a == a;
            call.done();
            logf("v0 == v1 -> %d", (int)got);
            REQUIRE(got == want && got2 == want && refl, P_(1), "operator== says %d, the sequences are %s", (int)got, want ? "equal" : "different");
            if (Delta(call).touches()) REQUIRE(false, P_(18) | P_(5), "comparison touched elements");
            obs(got);
            break;
        }
        case 39:
        {
            if (!n) break;
            // mutation through a reference, an iterator or operator[]
            size_t p = r.below(n); Val x = nv();
            logf("v%d[%zu] := %d", i, p, x.key); COV("write through reference");
            switch (r.below(3))
            {
            case 0: ET<T>::set(c(i)[p], x); break;
            case 1: ET<T>::set(*(c(i).begin() + (std::ptrdiff_t)p), x); break;
            default: ET<T>::set(*(c(i).rend() - 1 - (std::ptrdiff_t)p), x); break;
            }
            m[i][p] = x;
            check_both("write");
            break;
        }
        }
        (void)g;
    }

    // what resize(n) creates: a value-initialised element
    static Val fresh() { return fresh_(std::integral_constant<bool, ET<T>::tracked>()); }
    static Val fresh_(std::true_type) { return Val(FRESH, 0); }
    static Val fresh_(std::false_type) { return Val(0, 0); }
    static bool fixed_default() { return true; }

    template <class V> static void emplace_back(V& v, E& err, Val x) { emplace_(v, err, x, std::integral_constant<bool, ET<T>::tagged>()); }
    template <class V> static void emplace_(V& v, E& err, Val x, std::true_type) { v.emplace_back_nothrow(err, x.key, x.tag); }
    template <class V> static void emplace_(V& v, E& err, Val x, std::false_type) { v.emplace_back_nothrow(err, (T)x.key); }

    void history(int nops)
    {
        for (int s = 0; s < nops; ++s)
        {
            int before = step;
            one();
            (void)before;
        }
    }
};

// a history; with a fault plan at one of its steps
template <class C, class T, class E>
bool run(u64 seed, int nops, const Plan& p)
{
    bool fired;
    {
        VRun<C, T, E> v(seed, p);
        v.history(nops);
        fired = v.plan_fired;
    }
    set_fault(F_NONE, 0);
    return fired;
}

template <class C, class T, class E>
void do_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x55);
    std::string mode = o.mode;
    if (mode == "random")
    {
        run<C, T, E>(seed, 10 + (int)r.below(70), Plan());
    }
    else if (mode == "storm")
    {
        Plan p; p.storm = true;
        run<C, T, E>(seed, 10 + (int)r.below(60), p);
    }
    else
    {
        // enumerate every fault point of the last-but-few operations of a history
        int fk = mode == "allocfault" ? F_ALLOC : F_ELEM;
        int pre = 1 + (int)r.below(14);
        int total = pre + 1 + (int)r.below(5);
        for (long long k = 1; k <= 80; ++k)
        {
            Plan p; p.step = pre; p.fk = fk; p.k = k; p.sticky = (fk == F_ALLOC && r.chance(1, 4));
            logf("--- history with the %lld%s %s of operation %d failing", k, "th", fk == F_ALLOC ? "allocation" : "element construction", pre);
            bool fired = run<C, T, E>(seed, total, p);
            end_case_new();
            REQUIRE(live().n == 0 && all_outstanding() == 0, P_(5) | P_(6), "leak after a history with a failed operation");
            if (!fired) break;
            COV("fault points enumerated");
            ++G().evaluations; commit_case();
        }
    }
    end_case_new();
    end_case();
}

struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
template <class C, class T, class E> Entry ent(const char* n) { Entry e = { n, &do_case<C, T, E> }; return e; }

} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "vector");
    std::string mode = o.mode;
    if (mode == "allocfault") G().mode_tags = P_(7);
    if (mode == "elemfault") G().mode_tags = P_(8);
    if (mode == "storm") G().mode_tags = P_(7) | P_(8);
    std::vector<Entry> es;
#if IN_PART(0)
    es.push_back(ent<nestl::vector<Elem, Alloc<Elem>>, Elem, DefErr>("vector<Elem,Alloc>"));
    es.push_back(ent<nestl::no_exceptions::vector<Two, Alloc<Two>>, Two, usr::Err>("nx-vector<Two,Alloc>/user-error"));
#endif
#if IN_PART(1)
    es.push_back(ent<nestl::vector<Two, Alloc<Two>>, Two, DefErr>("vector<Two,Alloc>"));
    es.push_back(ent<nestl::vector<int, nestl::allocator<int>>, int, DefErr>("vector<int>"));
#endif
#if IN_PART(2)
    es.push_back(ent<nestl::vector<Wide, nestl::allocator<Wide>>, Wide, usr::Err>("vector<Wide>/user-error"));
    es.push_back(ent<nestl::no_exceptions::vector<signed char, Alloc<signed char>>, signed char, CodeErr>("nx-vector<char,Alloc>/errc"));
    es.push_back(ent<nestl::vector<Pod, Alloc<Pod>>, Pod, CodeErr>("vector<Pod,Alloc>/errc"));
#endif
#if VF_EX
#if IN_PART(3)
    es.push_back(ent<nestl::vector<Thrower, Alloc<Thrower>>, Thrower, DefErr>("vector<Thrower,Alloc>"));
    es.push_back(ent<nestl::no_exceptions::vector<CopyThrower, Alloc<CopyThrower>>, CopyThrower, usr::Err>("nx-vector<CopyThrower,Alloc>/user-error"));
#endif
#if IN_PART(4)
    es.push_back(ent<nestl::vector<LateThrower, nestl::allocator<LateThrower>>, LateThrower, DefErr>("vector<LateThrower>"));
#endif
#endif
    // element faults need a type that can fail
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i)
    {
        bool canfail = std::strstr(es[i].name, "Two") || std::strstr(es[i].name, "Thrower");
        if (mode == "elemfault" && !canfail) continue;
        if (o.only && std::strcmp(o.only, es[i].name)) continue;
        use.push_back(es[i]);
    }
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
