// nestl::list under random, splice/merge/sort-heavy and fault-injected histories. The model keeps, for every element,
// its value, address, identity and an iterator taken when it was first seen; all four must stay true.
#include "vf.hpp"
#include "newhook.hpp"
using namespace vf;

namespace
{
template <class T> struct CoresOf { static const int n = ET<T>::tracked ? 1 : 0; };
#if VF_EX
template <> struct CoresOf<LateThrower> { static const int n = 2; };
#endif

struct Plan { int step; int fk; long long k; bool storm; bool sticky; Plan() : step(-1), fk(F_NONE), k(0), storm(false), sticky(false) {} };
enum OnFail { NOFAIL, UNCHANGED, INSERTED, REPLACED };

// stateful comparator: orders by a chosen projection of the key, counts into the monitor
template <class T>
struct Cmp
{
    int kind; const int* alive;
    explicit Cmp(int k = -1, const int* a = nullptr) : kind(k), alive(a) {}
    Cmp(const Cmp& o) noexcept : kind(o.kind), alive(o.alive) {}
    Cmp& operator=(const Cmp& o) noexcept { kind = o.kind; alive = o.alive; return *this; }
    // like a std::function: nothing is left in one that was moved from
    Cmp(Cmp&& o) noexcept : kind(o.kind), alive(o.alive) { o.kind = -1; o.alive = nullptr; }
    Cmp& operator=(Cmp&& o) noexcept { if (this != &o) { kind = o.kind; alive = o.alive; o.kind = -1; o.alive = nullptr; } return *this; }
    static int proj(int kind, int key) { return kind == 0 ? key : kind == 1 ? -key : kind == 2 ? key % 3 : 0; }
    static bool less(int kind, Val a, Val b) { return proj(kind, a.key) < proj(kind, b.key); }
    bool operator()(const T& a, const T& b) const
    {
        if (kind < 0 || !alive || *alive != 4711) violation(P_(2) | P_(3), "comparison object was not the one supplied");
        ++G().ev.cmp;
        return less(kind, ET<T>::val(a), ET<T>::val(b));
    }
};

template <class C, class T, class E>
struct LRun
{
    typedef typename C::allocator_type A;
    typedef typename C::iterator I;
    typedef typename C::const_iterator CI;
    static const bool full = std::is_same<C, nestl::no_exceptions::list<T, A>>::value;
    static const size_t CORES = CoresOf<T>::n;
    enum { NL = 3 };
    struct Node { Val v; const void* addr; u64 oid; I it; Node() : addr(nullptr), oid(0) {} explicit Node(Val x) : v(x), addr(nullptr), oid(0) {} };
    typedef std::vector<Node> Seq;

    Rng r; Plan plan; int step; bool plan_fired; size_t lim;
    typename std::aligned_storage<sizeof(C), alignof(C)>::type buf[NL];
    Seq m[NL];
    int arena[NL];
    int tagc; int token;

    C& c(int i) { return *reinterpret_cast<C*>(&buf[i]); }
    LRun(u64 seed, const Plan& p) : r(seed), plan(p), step(0), plan_fired(false), tagc(0), token(4711)
    {
        State& g = G();
        g.ev.zero(); g.next_oid = 0; g.next_fault_id = 0; g.fault_seen = false;
        for (int i = 0; i < NL; ++i) { arena[i] = i == 2 ? 2 : 1; ::new ((void*)&buf[i]) C(AllocOps<A>::make(arena[i])); }
        lim = r.chance(3, 4) ? 10 : r.chance(5, 6) ? 40 : 300;
    }
    ~LRun() { for (int i = 0; i < NL; ++i) { Call k; c(i).~C(); } }

    Val nv() { return ET<T>::norm(Val((int)r.below(8), ++tagc)); }
    std::vector<Val> nvs(size_t n) { std::vector<Val> v; for (size_t i = 0; i < n; ++i) v.push_back(nv()); return v; }
    void arm()
    {
        set_fault(F_NONE, 0);
        if (plan.storm) { if (r.chance(1, 3)) { FaultKind fk = r.chance(1, 2) ? F_ALLOC : F_ELEM; size_t far = r.chance(1, 3) ? 10 : 3; long long at = 1 + (long long)r.below(far); set_fault(fk, at, r.chance(1, 6)); } }
        else if (step == plan.step) set_fault(plan.fk, plan.k, plan.sticky);
    }
    size_t total() { size_t t = 0; for (int i = 0; i < NL; ++i) t += m[i].size(); return t; }

    static void same(const char* what, size_t j, const Node& want, const Val& v, const void* a, u64 oid, u64 idtags)
    {
        REQUIRE(want.v == v, P_(2), "%s: element %zu is (%d,%d), ideal sequence has (%d,%d)", what, j, v.key, v.tag, want.v.key, want.v.tag);
        if (want.addr) REQUIRE(want.addr == a && want.oid == oid, P_(15) | idtags, "%s: element %zu (%d,%d) is no longer the same object (moved from %p to %p)", what, j, v.key, v.tag, want.addr, a);
    }
    // compare list i with the model and learn the identities of new elements
    void check(int i, const char* what, u64 idtags = 0)
    {
        C& l = c(i); const C& k = l; Seq& e = m[i];
        const size_t n = e.size(); const u64 t = P_(2);
        REQUIRE(k.empty() == (n == 0), t, "%s: list %d: empty() wrong, ideal size %zu", what, i, n);
        size_t j = 0;
        for (I it = l.begin(); it != l.end(); ++it, ++j)
        {
            REQUIRE(j < n, t, "%s: list %d has more than the ideal %zu elements", what, i, n);
            T& x = *it;
            same(what, j, e[j], ET<T>::val(x), addr(x), ET<T>::oid(x), idtags);
            REQUIRE(it.operator->() == addr(x), t, "%s: operator-> differs from operator*", what);
            if (!e[j].addr) { e[j].addr = addr(x); e[j].oid = ET<T>::oid(x); e[j].it = it; }
            else REQUIRE(addr(*e[j].it) == e[j].addr && e[j].it == it, P_(15), "%s: a kept iterator no longer designates its element %zu", what, j);
            obs((u64)e[j].v.key * 31 + (u64)e[j].v.tag);
        }
        REQUIRE(j == n, t, "%s: list %d has %zu elements, ideal sequence %zu", what, i, j, n);
        REQUIRE(k.size() == n, t, "%s: size() is %zu, ideal %zu", what, (size_t)k.size(), n);
        REQUIRE(k.max_size() >= n, t, "%s: max_size below size", what);
        if (r.chance(1, 2))
        {
            I it = l.end();
            for (j = n; j-- > 0;) { --it; REQUIRE(addr(*it) == e[j].addr, t, "%s: backward traversal wrong at %zu", what, j); }
            REQUIRE(it == l.begin(), t, "%s: backward traversal does not reach begin()", what);
            for (j = 0; j < n; ++j) { I old = it++; REQUIRE(addr(*old) == e[j].addr && old != it, t, "%s: post-increment wrong at %zu", what, j); }
            REQUIRE(it == l.end(), t, "%s: post-increment does not reach end()", what);
            for (j = n; j-- > 0;) { I old = it--; REQUIRE(addr(*it) == e[j].addr && old != it, t, "%s: post-decrement wrong at %zu", what, j); }
            CI ci;
            ci = k.cend();
            for (j = n; j-- > 0;) { --ci; REQUIRE(addr(*ci) == e[j].addr && ci.operator->() == addr(*ci), t, "%s: const traversal wrong at %zu", what, j); }
            REQUIRE(ci == l.begin() && k.cbegin() == CI(l.begin()) && k.cend() == l.end(), t, "%s: iterators and const iterators disagree", what);
            for (j = 0; j < n; ++j) { CI old = ci++; REQUIRE(addr(*old) == e[j].addr && old != ci, t, "%s: const traversal wrong at %zu", what, j); }
            REQUIRE(ci == k.cend() && k.begin() == k.cbegin() && k.end() == k.cend(), t, "%s: const traversal end", what);
            for (j = n; j-- > 0;) { CI old = ci--; REQUIRE(addr(*ci) == e[j].addr && old != ci, t, "%s: const backward traversal wrong at %zu", what, j); }
            j = n;
            for (typename C::const_reverse_iterator ri = k.crbegin(); ri != k.crend(); ++ri) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: crbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: crbegin iteration stops early", what);
            j = n;
            for (typename C::reverse_iterator ri = l.rbegin(); ri != l.rend(); ri++) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: rbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: rbegin iteration stops early", what);
            j = n;
            for (typename C::const_reverse_iterator ri = k.rbegin(); ri != k.rend(); ++ri) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: const rbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: const rbegin iteration stops early", what);
        }
        if (n)
        {
            REQUIRE(addr(l.front()) == e[0].addr && addr(k.front()) == e[0].addr, t, "%s: front()", what);
            REQUIRE(addr(l.back()) == e[n - 1].addr && addr(k.back()) == e[n - 1].addr, t, "%s: back()", what);
        }
        if (AllocOps<A>::monitored)
            REQUIRE(AllocOps<A>::arena(k.get_allocator()) == arena[i], P_(6), "%s: list %d reports allocator %d, was given %d", what, i, AllocOps<A>::arena(k.get_allocator()), arena[i]);
        obs(n);
    }
    void check_all(const char* what, u64 idtags = 0) { for (int i = 0; i < NL; ++i) check(i, what, idtags); }
    void check_live(const char* what, size_t harness)
    {
        if (!CORES) return;
        size_t want = harness + CORES * total();
        REQUIRE(live().n == want, P_(5), "%s: %zu elements alive, %zu expected", what, (size_t)live().n, want);
    }
    Seq read(int i)
    {
        Seq s; C& l = c(i);
        for (I it = l.begin(); it != l.end(); ++it) { Node n(ET<T>::val(*it)); n.addr = addr(*it); n.oid = ET<T>::oid(*it); n.it = it; s.push_back(n); if (s.size() > 100000) violation(P_(2), "list traversal does not end"); }
        return s;
    }
    static bool same_node(const Node& want, const Node& got) { return want.v == got.v && (!want.addr || (want.addr == got.addr && want.oid == got.oid)); }
    static bool same_seq(const Seq& want, const Seq& got)
    {
        if (want.size() != got.size()) return false;
        for (size_t j = 0; j < want.size(); ++j) if (!same_node(want[j], got[j])) return false;
        return true;
    }

    struct Expect { Seq ok; OnFail onfail; size_t pos, count; Expect() : onfail(NOFAIL), pos(0), count(0) {} };

    bool mutate(const char* what, int i, const Expect& ex, size_t harness, const std::function<void(E&)>& f)
    {
        State& g = G();
        const Seq old = m[i];
        arm();
        E err;
        Call call; f(err); call.done();
        Delta d(call);
        if (g.fired) plan_fired = true;
        ErrInfo info = check_err(err, P_(2), what);
        check_sets(err, info.cat != 0);
        obs(d.make); obs(d.copy); obs(d.move); obs(d.destroy); obs(d.alloc); obs(d.dealloc);
        sig(mix2(hash(what), mix2(std::min<size_t>(old.size(), 24), mix2(ex.pos * 77 + ex.count, (u64)g.fk * 4096 + (u64)(g.fired ? plan.k : 0)))));
        if (!info.cat) m[i] = ex.ok;
        else
        {
            COV("failed operations judged");
            u64 t = g.fk == F_ALLOC ? P_(7) : P_(8);
            Seq now = read(i);
            bool ok = false;
            switch (ex.onfail)
            {
            case NOFAIL: break;
            case UNCHANGED: ok = same_seq(old, now); break;
            case INSERTED:
                for (size_t j = 0; j < std::max<size_t>(ex.count, 1) && !ok; ++j)
                {
                    Seq want(old.begin(), old.begin() + (std::ptrdiff_t)ex.pos);
                    want.insert(want.end(), ex.ok.begin() + (std::ptrdiff_t)ex.pos, ex.ok.begin() + (std::ptrdiff_t)(ex.pos + j));
                    want.insert(want.end(), old.begin() + (std::ptrdiff_t)ex.pos, old.end());
                    ok = same_seq(want, now);
                }
                break;
            case REPLACED:
                ok = same_seq(old, now) || (now.size() <= ex.ok.size() && same_seq(Seq(ex.ok.begin(), ex.ok.begin() + (std::ptrdiff_t)now.size()), now));
                break;
            }
            REQUIRE(ok, t | P_(15), "%s: failed, and left contents it may not leave (%zu elements before, %zu now)", what, old.size(), now.size());
            m[i] = now;
        }
        check_live(what, harness);
        check_all(what);
        return info.cat == 0;
    }

    size_t pos_for(size_t n) { switch (r.below(4)) { case 0: return 0; case 1: return n; default: return r.below(n + 1); } }
    I at(int i, size_t p) { return p < m[i].size() ? m[i][p].it : c(i).end(); }
    static Seq ins(Seq s, size_t p, const std::vector<Val>& x) { Seq y; for (size_t j = 0; j < x.size(); ++j) y.push_back(Node(x[j])); s.insert(s.begin() + (std::ptrdiff_t)p, y.begin(), y.end()); return s; }
    Expect exp_insert(int i, size_t p, const std::vector<Val>& x, OnFail f) { Expect e; e.ok = ins(m[i], p, x); e.onfail = f; e.pos = p; e.count = x.size(); return e; }
    Expect exp_insert(int i, size_t p, Val x) { return exp_insert(i, p, std::vector<Val>(1, x), UNCHANGED); }
    static Seq fresh(const std::vector<Val>& x) { return ins(Seq(), 0, x); }

    void intact(const char* what, Holder<T>& h, Val v)
    {
        State& g = G();
        if (g.fired && g.fk == F_ALLOC) { COV("argument intact checks"); REQUIRE(ET<T>::val(h.cref()) == v, P_(7), "%s: allocation failed but the inserted argument changed", what); }
    }
    void handed_over(const char* what, Holder<T>& h)
    {
        if (!Moves<T>::yes) return;
        COV("rvalues seen handed over");
        REQUIRE(ET<T>::val(h.cref()).key == MOVED, P_(12), "%s: the rvalue argument was not passed on as an rvalue", what);
    }
    void ret(const char* what, int i, const I& it, size_t p)
    {
        REQUIRE(it != c(i).end() && addr(*it) == m[i][p].addr, P_(2), "%s: returned iterator does not designate the inserted element", what);
    }

    template <class Tag> void range_op(const char* what, int i, bool assign, size_t n, size_t p)
    {
        std::vector<Val> x = nvs(n);
        Row<T> row(x);
        RangeState<T> st = { row.begin(), row.end(), 0 };
        It<T, Tag> a(&st, row.begin()), b(&st, row.end());
        logf("l%d.%s n=%zu pos=%zu", i, what, n, p);
        if (assign) { Expect e; e.ok = fresh(x); e.onfail = REPLACED; mutate(what, i, e, n * CORES, [&](E& err) { c(i).assign_nothrow(err, a, b); }); }
        else { Expect e = exp_insert(i, p, x, INSERTED); mutate(what, i, e, n * CORES, [&](E& err) { c(i).insert_nothrow(err, CI(at(i, p)), a, b); }); }
        for (size_t j = 0; j < n; ++j) REQUIRE(ET<T>::val(row.p[j]) == x[j], P_(2) | P_(7) | P_(8), "%s: source element %zu was altered", what, j);
    }

    template <class V> static void emplace(V& l, E& err, CI p, I& it, Val x, std::true_type) { it = l.emplace_nothrow(err, p, x.key, x.tag); }
    template <class V> static void emplace(V& l, E& err, CI p, I& it, Val x, std::false_type) { it = l.emplace_nothrow(err, p, (T)x.key); }
    template <class V> static void emplace_back(V& l, E& err, Val x, std::true_type) { l.emplace_back_nothrow(err, x.key, x.tag); }
    template <class V> static void emplace_back(V& l, E& err, Val x, std::false_type) { l.emplace_back_nothrow(err, (T)x.key); }
    template <class V> static void emplace_front(V& l, E& err, Val x, std::true_type) { l.emplace_front_nothrow(err, x.key, x.tag); }
    template <class V> static void emplace_front(V& l, E& err, Val x, std::false_type) { l.emplace_front_nothrow(err, (T)x.key); }
    typedef std::integral_constant<bool, ET<T>::tagged> tagged;

    // operations only the exception-free list offers for its own type
    template <class V> void copy(V& a, V& b, E& err, std::true_type) { a.copy_nothrow(err, b); }
    template <class V> void copy(V&, V&, E&, std::false_type) {}
    template <class V> void swap(V& a, V& b, std::true_type) { a.swap(b); }
    template <class V> void swap(V&, V&, std::false_type) {}
    template <class V> bool equal(const V& a, const V& b, std::true_type) { return a == b; }
    template <class V> bool equal(const V&, const V&, std::false_type) { return false; }
    typedef std::integral_constant<bool, full> is_full;

    void untouched(const char* what, const Delta& d, bool storage = true)
    {
        REQUIRE(d.touches() == 0, P_(18), "%s: constructed, copied, assigned or destroyed elements (%llu events)", what, d.touches());
        if (storage) REQUIRE(d.alloc == 0 && d.dealloc == 0, P_(18), "%s: allocated or released storage", what);
    }
    void after_relink(const char* what, const Delta& d)
    {
        untouched(what, d);
        sig(mix2(hash(what), mix2(m[0].size() * 1000 + m[1].size(), m[2].size())));
        check_live(what, 0);
        check_all(what, P_(18));
    }

    void sort_model(int i, int kind)
    {
        std::stable_sort(m[i].begin(), m[i].end(), [&](const Node& a, const Node& b) { return Cmp<T>::less(kind, a.v, b.v); });
    }
    void do_sort(int i, int kind, bool plain)
    {
        logf("l%d.sort(%s%d) n=%zu", i, plain ? "default " : "comparator ", kind, m[i].size()); COV("sort");
        set_fault(F_NONE, 0);
        Call call; if (plain) c(i).sort(); else c(i).sort(Cmp<T>(kind, &token)); call.done();
        sort_model(i, kind);
        after_relink("sort", Delta(call));
    }

    void one()
    {
        const int i = (int)r.below(NL); int o = (int)((i + 1 + r.below(NL - 1)) % NL);
        const size_t n = m[i].size();
        unsigned op = (unsigned)r.below(60);
        if (n > lim && op < 26) op = 26 + (unsigned)r.below(8);
        ++step;
        switch (op)
        {
        case 0: case 1: case 2:
        {
            Val x = nv(); Holder<T> h(x); bool front = r.chance(1, 2);
            logf("l%d.push_%s(const& %d)", i, front ? "front" : "back", x.key); COV("push const&");
            Expect e = exp_insert(i, front ? 0 : n, x);
            mutate(front ? "push_front(const&)" : "push_back(const&)", i, e, CORES, [&](E& err) { if (front) c(i).push_front_nothrow(err, h.cref()); else c(i).push_back_nothrow(err, h.cref()); });
            REQUIRE(ET<T>::val(h.cref()) == x, P_(2) | P_(12), "push(const&) altered its argument");
            break;
        }
        case 3: case 4: case 5:
        {
            Val x = nv(); Holder<T> h(x); bool front = r.chance(1, 2);
            logf("l%d.push_%s(&& %d)", i, front ? "front" : "back", x.key); COV("push &&");
            Expect e = exp_insert(i, front ? 0 : n, x);
            if (mutate(front ? "push_front(&&)" : "push_back(&&)", i, e, CORES, [&](E& err) { if (front) c(i).push_front_nothrow(err, std::move(h.ref())); else c(i).push_back_nothrow(err, std::move(h.ref())); })) handed_over("push(&&)", h);
            intact("push(&&)", h, x);
            break;
        }
        case 6: case 7:
        {
            Val x = nv(); bool front = r.chance(1, 2);
            logf("l%d.emplace_%s(%d,%d)", i, front ? "front" : "back", x.key, x.tag); COV("emplace at an end");
            Expect e = exp_insert(i, front ? 0 : n, x);
            mutate(front ? "emplace_front" : "emplace_back", i, e, 0, [&](E& err) { if (front) emplace_front(c(i), err, x, tagged()); else emplace_back(c(i), err, x, tagged()); });
            break;
        }
        case 8: case 9: case 10:
        {
            size_t p = pos_for(n); Val x = nv(); Holder<T> h(x); I it;
            logf("l%d.insert(%zu, const& %d)", i, p, x.key); COV("insert const&");
            if (mutate("insert(const&)", i, exp_insert(i, p, x), CORES, [&](E& err) { it = c(i).insert_nothrow(err, CI(at(i, p)), h.cref()); })) ret("insert(const&)", i, it, p);
            break;
        }
        case 11: case 12:
        {
            size_t p = pos_for(n); Val x = nv(); Holder<T> h(x); I it;
            logf("l%d.insert(%zu, && %d)", i, p, x.key); COV("insert &&");
            if (mutate("insert(&&)", i, exp_insert(i, p, x), CORES, [&](E& err) { it = c(i).insert_nothrow(err, CI(at(i, p)), std::move(h.ref())); })) { ret("insert(&&)", i, it, p); handed_over("insert(&&)", h); }
            intact("insert(&&)", h, x);
            break;
        }
        case 13: case 14:
        {
            size_t p = pos_for(n); Val x = nv(); I it;
            logf("l%d.emplace(%zu, %d,%d)", i, p, x.key, x.tag); COV("emplace");
            if (mutate("emplace", i, exp_insert(i, p, x), 0, [&](E& err) { emplace(c(i), err, CI(at(i, p)), it, x, tagged()); })) ret("emplace", i, it, p);
            break;
        }
        case 15: case 16:
        {
            if (!n) break;
            size_t p = pos_for(n), s = r.below(n); Val x = m[i][s].v; I it; const T& own = *m[i][s].it;
            logf("l%d.insert(%zu, own element %zu)", i, p, s); COV("insert aliasing");
            if (mutate("insert(own element)", i, exp_insert(i, p, x), 0, [&](E& err) { it = c(i).insert_nothrow(err, CI(at(i, p)), own); })) ret("insert(own)", i, it, p);
            break;
        }
        case 17: case 18:
        {
            size_t p = pos_for(n), q = r.below(6); Val x = nv();
            bool alias = n && r.chance(1, 3); size_t s = alias ? r.below(n) : 0;
            logf("l%d.insert(%zu, %zu, %s)", i, p, q, alias ? "own element" : "value"); COV("insert count");
            if (alias)
            {
                const T& own = *m[i][s].it; x = m[i][s].v;
                mutate("insert(count, own)", i, exp_insert(i, p, std::vector<Val>(q, x), INSERTED), 0, [&](E& err) { c(i).insert_nothrow(err, CI(at(i, p)), (typename C::size_type)q, own); });
            }
            else
            {
                Holder<T> h(x);
                mutate("insert(count)", i, exp_insert(i, p, std::vector<Val>(q, x), INSERTED), CORES, [&](E& err) { c(i).insert_nothrow(err, CI(at(i, p)), (typename C::size_type)q, h.cref()); });
            }
            break;
        }
        case 19: case 20: case 21:
        {
            size_t p = pos_for(n), q = r.below(r.chance(1, 6) ? 30 : 6);
            switch (r.below(4))
            {
            case 0: COV("range insert input"); range_op<std::input_iterator_tag>("insert(input range)", i, false, q, p); break;
            case 1: COV("range insert forward"); range_op<std::forward_iterator_tag>("insert(forward range)", i, false, q, p); break;
            case 2: COV("range insert bidirectional"); range_op<std::bidirectional_iterator_tag>("insert(bidi range)", i, false, q, p); break;
            default: COV("range insert random"); range_op<std::random_access_iterator_tag>("insert(random range)", i, false, q, p); break;
            }
            break;
        }
        case 22: case 23:
        {
            size_t q = r.below(r.chance(1, 6) ? 30 : 8);
            switch (r.below(4))
            {
            case 0: COV("range assign input"); range_op<std::input_iterator_tag>("assign(input range)", i, true, q, 0); break;
            case 1: COV("range assign forward"); range_op<std::forward_iterator_tag>("assign(forward range)", i, true, q, 0); break;
            case 2: COV("range assign bidirectional"); range_op<std::bidirectional_iterator_tag>("assign(bidi range)", i, true, q, 0); break;
            default: COV("range assign random"); range_op<std::random_access_iterator_tag>("assign(random range)", i, true, q, 0); break;
            }
            break;
        }
        case 24:
        {
            // from another list's range
            size_t a = r.below(m[o].size() + 1), b = a + r.below(m[o].size() - a + 1); size_t p = pos_for(n);
            std::vector<Val> x; for (size_t j = a; j < b; ++j) x.push_back(m[o][j].v);
            logf("l%d.insert(%zu, l%d range %zu..%zu)", i, p, o, a, b); COV("insert other list's range");
            mutate("insert(other list's range)", i, exp_insert(i, p, x, INSERTED), 0, [&](E& err) { c(i).insert_nothrow(err, CI(at(i, p)), at(o, a), at(o, b)); });
            break;
        }
        case 25:
        {
            size_t q = r.below(8); Val x = nv(); bool alias = n && r.chance(1, 3); size_t s = alias ? r.below(n) : 0;
            logf("l%d.assign(%zu, %s)", i, q, alias ? "own element" : "value"); COV("assign count");
            Expect e; e.onfail = REPLACED;
            if (alias) { const T& own = *m[i][s].it; e.ok = fresh(std::vector<Val>(q, m[i][s].v)); mutate("assign(count, own)", i, e, 0, [&](E& err) { c(i).assign_nothrow(err, (typename C::size_type)q, own); }); }
            else { Holder<T> h(x); e.ok = fresh(std::vector<Val>(q, x)); mutate("assign(count)", i, e, CORES, [&](E& err) { c(i).assign_nothrow(err, (typename C::size_type)q, h.cref()); }); }
            break;
        }
        case 26: case 27: case 28:
        {
            if (!n) break;
            size_t p = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : n - 1) : r.below(n); I it;
            logf("l%d.erase(%zu)", i, p); COV("erase");
            Expect e; e.ok = m[i]; e.ok.erase(e.ok.begin() + (std::ptrdiff_t)p); e.pos = p;
            mutate("erase", i, e, 0, [&](E&) { it = c(i).erase(CI(at(i, p))); });
            REQUIRE(it == at(i, p), P_(2), "erase returned the wrong iterator");
            break;
        }
        case 29: case 30:
        {
            size_t a = r.below(n + 1), b = a + r.below(n - a + 1); I it;
            if (r.chance(1, 6)) { a = 0; b = n; }
            logf("l%d.erase(%zu..%zu)", i, a, b); COV("erase range");
            Expect e; e.ok = m[i]; e.ok.erase(e.ok.begin() + (std::ptrdiff_t)a, e.ok.begin() + (std::ptrdiff_t)b); e.pos = a; e.count = b - a;
            mutate("erase(range)", i, e, 0, [&](E&) { it = c(i).erase(CI(at(i, a)), CI(at(i, b))); });
            REQUIRE(it == at(i, a), P_(2), "erase(range) returned the wrong iterator");
            break;
        }
        case 31: case 32:
        {
            if (!n) break;
            bool front = r.chance(1, 2);
            logf("l%d.pop_%s()", i, front ? "front" : "back"); COV("pop");
            Expect e; e.ok = m[i]; if (front) e.ok.erase(e.ok.begin()); else e.ok.pop_back();
            mutate(front ? "pop_front" : "pop_back", i, e, 0, [&](E&) { if (front) c(i).pop_front(); else c(i).pop_back(); });
            break;
        }
        case 33:
        {
            logf("l%d.clear()", i); COV("clear");
            Expect e; mutate("clear", i, e, 0, [&](E&) { c(i).clear(); });
            break;
        }
        case 34: case 35: case 36:
        {
            if (!full) { do_sort(i, (int)r.below(4), false); break; }
            bool self = r.chance(1, 5);
            logf("l%d.copy(l%d)", i, self ? i : o); COV("copy_nothrow");
            Expect e; e.onfail = REPLACED;
            if (self) e.ok = m[i]; else { std::vector<Val> x; for (size_t j = 0; j < m[o].size(); ++j) x.push_back(m[o][j].v); e.ok = fresh(x); }
            if (self) for (size_t j = 0; j < e.ok.size(); ++j) e.ok[j].addr = nullptr;
            mutate("copy_nothrow", i, e, 0, [&](E& err) { copy(c(i), c(self ? i : o), err, is_full()); });
            break;
        }
        case 37: case 38:
        {
            if (!full) { do_sort(i, 0, true); break; }
            bool self = r.chance(1, 6); int q = self ? i : o;
            logf("l%d.swap(l%d)", i, q); COV("swap");
            set_fault(F_NONE, 0);
            Call call; swap(c(i), c(q), is_full()); call.done();
            std::swap(m[i], m[q]); std::swap(arena[i], arena[q]);
            after_relink("swap", Delta(call));
            break;
        }
        case 39: case 40:
        {
            logf("l%d: move construct and back", i); COV("move construct");
            set_fault(F_NONE, 0);
            Call call; C t(std::move(c(i))); call.done();
            untouched("move construction", Delta(call));
            REQUIRE(c(i).empty() && c(i).size() == 0, P_(18), "moved-from list is not empty");
            Seq saved = m[i]; m[i].clear();
            REQUIRE(t.size() == saved.size(), P_(18) | P_(2), "move construction lost elements");
            { size_t j = 0; for (I it = t.begin(); it != t.end(); ++it, ++j) REQUIRE(addr(*it) == saved[j].addr && it == saved[j].it, P_(18) | P_(15), "move construction moved element %zu", j); }
            if (AllocOps<A>::monitored) REQUIRE(AllocOps<A>::arena(t.get_allocator()) == arena[i], P_(6), "move construction changed the allocator");
            check(i, "moved-from");
            if (r.chance(1, 2))
            {
                Val x = nv(); Holder<T> h(x); E err; { Call k2; c(i).push_back_nothrow(err, h.cref()); }
                REQUIRE(!err, P_(18) | P_(2), "moved-from list cannot be used");
                m[i].push_back(Node(x)); check(i, "use after move"); logf("  push into the moved-from list");
            }
            size_t had = m[i].size();
            if (r.chance(2, 3))
            {
                Call k3; c(i) = std::move(t); k3.done(); Delta d3(k3);
                REQUIRE(d3.births() == 0 && d3.assign == 0 && d3.alloc == 0 && d3.destroy == CORES * had, P_(18), "list move assignment touched transferred elements or kept old ones");
                REQUIRE(t.empty(), P_(18), "source of move assignment is not empty");
                m[i] = saved; logf("  moved back");
            }
            { Call k4; C sink(std::move(t)); }
            check_live("move", 0); check_all("move", P_(18));
            break;
        }
        case 41: case 42:
        {
            logf("l%d = move(l%d)", i, o); COV("move assign");
            set_fault(F_NONE, 0);
            Call call; c(i) = std::move(c(o)); call.done(); Delta d(call);
            REQUIRE(d.births() == 0 && d.assign == 0 && d.alloc == 0, P_(18), "list move assignment constructed, assigned or allocated");
            if (CORES) REQUIRE(d.destroy == CORES * n, P_(18) | P_(5), "list move assignment destroyed %llu elements, target had %zu", d.destroy, n);
            REQUIRE(c(o).empty(), P_(18), "source of move assignment is not empty");
            m[i] = m[o]; m[o].clear(); arena[i] = arena[o];
            sig(mix2(hash("move assign"), mix2(n, m[i].size())));
            check_live("move assign", 0); check_all("move assign", P_(18));
            break;
        }
        case 43:
        {
            logf("l%d = move(l%d) (self)", i, i); COV("self move");
            set_fault(F_NONE, 0);
            Call call; C& self = c(i); c(i) = std::move(self); call.done();
            Seq now = read(i);
            REQUIRE(now.empty() || same_seq(m[i], now), P_(18), "self move left other contents");
            m[i] = now; check_live("self move", 0); check_all("self move");
            break;
        }
        case 44: case 45: case 46:
        {
            // whole list
            if (arena[i] != arena[o]) break;
            size_t p = pos_for(n); bool rv = r.chance(1, 2);
            logf("l%d.splice(%zu, l%d)", i, p, o); COV("splice list");
            set_fault(F_NONE, 0);
            CI pos = at(i, p);
            Call call; if (rv) c(i).splice(pos, std::move(c(o))); else c(i).splice(pos, c(o)); call.done();
            m[i].insert(m[i].begin() + (std::ptrdiff_t)p, m[o].begin(), m[o].end()); m[o].clear();
            after_relink("splice(list)", Delta(call));
            break;
        }
        case 47: case 48: case 49:
        {
            int s = r.chance(1, 2) ? i : o;
            if (arena[i] != arena[s] || m[s].empty()) break;
            size_t p = pos_for(n), q = r.below(m[s].size()); bool rv = r.chance(1, 2);
            logf("l%d.splice(%zu, l%d, element %zu)", i, p, s, q); COVD(s == i ? "splice element within" : "splice element");
            set_fault(F_NONE, 0);
            CI pos = at(i, p), it = at(s, q);
            Call call; if (rv) c(i).splice(pos, std::move(c(s)), it); else c(i).splice(pos, c(s), it); call.done();
            Node nd = m[s][q];
            if (s != i) { m[s].erase(m[s].begin() + (std::ptrdiff_t)q); m[i].insert(m[i].begin() + (std::ptrdiff_t)p, nd); }
            else if (p != q && p != q + 1)
            {
                m[i].erase(m[i].begin() + (std::ptrdiff_t)q);
                m[i].insert(m[i].begin() + (std::ptrdiff_t)(p > q ? p - 1 : p), nd);
            }
            after_relink("splice(element)", Delta(call));
            break;
        }
        case 50: case 51: case 52:
        {
            int s = r.chance(1, 2) ? i : o;
            if (arena[i] != arena[s]) break;
            size_t k = m[s].size(); size_t a = r.below(k + 1), b = a + r.below(k - a + 1), p = pos_for(n); bool rv = r.chance(1, 2);
            if (s == i)
            {
                // pos must not lie inside the range (its end is allowed)
                if (r.chance(1, 4)) p = b;
                if (p >= a && p < b) p = b;
            }
            logf("l%d.splice(%zu, l%d, %zu..%zu)", i, p, s, a, b); COVD(s == i ? "splice range within" : "splice range");
            set_fault(F_NONE, 0);
            CI pos = at(i, p), f = at(s, a), l = at(s, b);
            Call call; if (rv) c(i).splice(pos, std::move(c(s)), f, l); else c(i).splice(pos, c(s), f, l); call.done();
            Seq x(m[s].begin() + (std::ptrdiff_t)a, m[s].begin() + (std::ptrdiff_t)b);
            m[s].erase(m[s].begin() + (std::ptrdiff_t)a, m[s].begin() + (std::ptrdiff_t)b);
            size_t at2 = (s == i && p >= b) ? p - (b - a) : p;
            m[i].insert(m[i].begin() + (std::ptrdiff_t)at2, x.begin(), x.end());
            after_relink("splice(range)", Delta(call));
            break;
        }
        case 53: case 54: case 55:
            do_sort(i, r.chance(1, 3) ? 0 : (int)r.below(4), false); break;
        case 56:
            do_sort(i, 0, true); break;
        case 57: case 58:
        {
            if (arena[i] != arena[o]) break;
            bool plain = r.chance(1, 3); int kind = plain ? 0 : (int)r.below(4); bool rv = r.chance(1, 2);
            do_sort(i, kind, false); do_sort(o, kind, false);
            logf("l%d.merge(l%d) kind %d%s", i, o, kind, plain ? " default" : ""); COV("merge");
            Call call;
            if (plain) { if (rv) c(i).merge(std::move(c(o))); else c(i).merge(c(o)); }
            else { if (rv) c(i).merge(std::move(c(o)), Cmp<T>(kind, &token)); else c(i).merge(c(o), Cmp<T>(kind, &token)); }
            call.done();
            Delta d(call);
            size_t a = m[i].size(), b = m[o].size();
            if (CORES || !plain) REQUIRE(d.cmp <= (a && b ? a + b - 1 : 0), P_(19), "merge of %zu and %zu elements made %llu comparisons", a, b, d.cmp);
            Seq out;
            std::merge(m[i].begin(), m[i].end(), m[o].begin(), m[o].end(), std::back_inserter(out), [&](const Node& x, const Node& y) { return Cmp<T>::less(kind, x.v, y.v); });
            m[i] = out; m[o].clear();
            after_relink("merge", d);
            break;
        }
        case 59:
        {
            if (full)
            {
                COV("equality");
                bool want = m[i].size() == m[o].size();
                for (size_t j = 0; want && j < m[i].size(); ++j) want = m[i][j].v == m[o][j].v;
                Call call; bool got = equal(c(i), c(o), is_full()), refl = equal(c(i), c(i), is_full()); call.done();
                REQUIRE(got == want && refl, P_(2), "operator== says %d, the sequences are %s", (int)got, want ? "equal" : "different");
                obs(got);
            }
            if (n)
            {
                size_t p = r.below(n); Val x = nv();
                logf("l%d[%zu] := %d", i, p, x.key); COV("write through iterator");
                ET<T>::set(*m[i][p].it, x); m[i][p].v = x;
                check_all("write");
            }
            break;
        }
        }
    }
};

template <class C, class T, class E>
bool run(u64 seed, int nops, const Plan& p)
{
    bool fired;
    { LRun<C, T, E> v(seed, p); for (int s = 0; s < nops; ++s) v.one(); fired = v.plan_fired; }
    set_fault(F_NONE, 0);
    return fired;
}

template <class C, class T, class E>
void do_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x55);
    std::string mode = o.mode;
    if (mode == "random") run<C, T, E>(seed, 10 + (int)r.below(80), Plan());
    else if (mode == "storm") { Plan p; p.storm = true; run<C, T, E>(seed, 10 + (int)r.below(60), p); }
    else
    {
        int fk = mode == "allocfault" ? F_ALLOC : F_ELEM;
        int pre = 1 + (int)r.below(14), total = pre + 1 + (int)r.below(5);
        for (long long k = 1; k <= 60; ++k)
        {
            Plan p; p.step = pre; p.fk = fk; p.k = k; p.sticky = (fk == F_ALLOC && r.chance(1, 4));
            logf("--- history with the %lldth %s of operation %d failing", k, fk == F_ALLOC ? "allocation" : "element construction", pre);
            bool fired = run<C, T, E>(seed, total, p);
            end_case_new();
            REQUIRE(live().n == 0 && all_outstanding() == 0, P_(5) | P_(6), "leak after a history with a failed operation");
            if (!fired) break;
            COV("fault points enumerated");
            ++G().evaluations; commit_case();
        }
    }
    end_case_new();
    end_case();
}
struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
template <class C, class T, class E> Entry ent(const char* n) { Entry e = { n, &do_case<C, T, E> }; return e; }
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "list");
    std::string mode = o.mode;
    if (mode == "allocfault") G().mode_tags = P_(7);
    if (mode == "elemfault") G().mode_tags = P_(8);
    if (mode == "storm") G().mode_tags = P_(7) | P_(8);
    std::vector<Entry> es;
#if IN_PART(0)
    es.push_back(ent<nestl::no_exceptions::list<Elem, Alloc<Elem>>, Elem, DefErr>("nx-list<Elem,Alloc>"));
#endif
#if IN_PART(1)
    es.push_back(ent<nestl::list<Two, Alloc<Two>>, Two, DefErr>("list<Two,Alloc>"));
    es.push_back(ent<nestl::no_exceptions::list<int, nestl::allocator<int>>, int, CodeErr>("nx-list<int>/errc"));
#endif
#if IN_PART(2)
    es.push_back(ent<nestl::no_exceptions::list<Wide, nestl::allocator<Wide>>, Wide, usr::Err>("nx-list<Wide>/user-error"));
    es.push_back(ent<nestl::no_exceptions::list<Pod, Alloc<Pod>>, Pod, CodeErr>("nx-list<Pod,Alloc>/errc"));
#endif
#if VF_EX
#if IN_PART(3)
    es.push_back(ent<nestl::no_exceptions::list<Thrower, Alloc<Thrower>>, Thrower, DefErr>("nx-list<Thrower,Alloc>"));
    es.push_back(ent<nestl::list<LateThrower, nestl::allocator<LateThrower>>, LateThrower, usr::Err>("list<LateThrower>/user-error"));
#endif
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i)
    {
        bool canfail = std::strstr(es[i].name, "Two") || std::strstr(es[i].name, "Thrower");
        if (mode == "elemfault" && !canfail) continue;
        if (o.only && std::strcmp(o.only, es[i].name)) continue;
        use.push_back(es[i]);
    }
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
