// The throwing containers against their error-object counterparts, with every allocation and element failure.
#include "vf.hpp"
#include "newhook.hpp"
using namespace vf;
#if !VF_EX
int main() { return 20; }
#else
#include <typeinfo>
namespace
{
template <class F>
Caught guarded(bool nested, F f)
{
    Caught c;
    // sometimes while another exception is being handled
    if (nested)
    {
        try { throw 4711; }
        catch (int)
        {
            try { f(); }
            catch (...) { c = caught_now(); }
        }
        return c;
    }
    try { f(); }
    catch (...) { c = caught_now(); }
    return c;
}

void faithful(const char* what, const Caught& c)
{
    State& g = G();
    if (g.fired)
    {
        REQUIRE(c.kind != 0, P_(9) | P_(20) | P_(g.fk == F_ALLOC ? 7 : 8), "%s: %s failed but nothing was thrown", what, g.fk == F_ALLOC ? "an allocation" : "an element construction");
        if (g.fk == F_ALLOC) REQUIRE(c.kind == 1 && c.exact, P_(9) | P_(20) | P_(7), "%s: allocation failure thrown as category %d", what, c.kind);
        else REQUIRE(c.kind == 3 && c.exact && c.id == g.fault_id, P_(9) | P_(20) | P_(8), "%s: element failure %d thrown as category %d id %d%s", what, g.fault_id, c.kind, c.id, c.exact ? "" : " (type or value changed)");
        COV("faithful throws");
    }
    else
    {
        REQUIRE(c.kind == 0, P_(9) | P_(7) | P_(8) | P_(20), "%s: category %d thrown although nothing failed", what, c.kind);
        COV("throwing operations that succeeded");
    }
}

template <class T> struct CoresOf { static const size_t n = ET<T>::tracked ? 1 : 0; };
template <> struct CoresOf<LateThrower> { static const size_t n = 2; };
typedef std::vector<Val> Seq;

// access to the error-object interface of either container
template <class C> struct Kind;
template <class T, class A> struct Kind<nestl::has_exceptions::vector<T, A>>
{
    typedef nestl::no_exceptions::vector<T, A> Plain;
    static const bool vec = true;
    template <class E> static void push(nestl::has_exceptions::vector<T, A>& c, E& e, const T& x) { c.push_back_nothrow(e, x); }
};
template <class T, class A> struct Kind<nestl::has_exceptions::list<T, A>>
{
    typedef nestl::no_exceptions::list<T, A> Plain;
    static const bool vec = false;
    template <class E> static void push(nestl::has_exceptions::list<T, A>& c, E& e, const T& x) { c.push_back_nothrow(e, x); }
};

template <class C, class T>
struct Run
{
    typedef typename C::allocator_type A;
    typedef typename Kind<C>::Plain P;
    Rng r; int tagc; bool fired;
    C a, b;            // two throwing containers
    P pa;              // twin of a, driven through error objects
    Seq ma, mb, mpa;
    int ra, rb, rp;    // the allocators they must be using
    static const size_t CORES = CoresOf<T>::n;
    // what a wrong content means besides the throwing interface being unfaithful
    static u64 blame() { return P_(9) | (G().fired ? P_(G().fk == F_ALLOC ? 7 : 8) : P_(Kind<C>::vec ? 1 : 2)); }

    explicit Run(u64 seed) : r(seed), tagc(0), fired(false), a(AllocOps<A>::make(1)), b(AllocOps<A>::make(2)), pa(AllocOps<A>::make(3)), ra(AllocOps<A>::arena(AllocOps<A>::make(1))), rb(AllocOps<A>::arena(AllocOps<A>::make(2))), rp(AllocOps<A>::arena(AllocOps<A>::make(3)))
    {
        G().ev.zero(); G().next_oid = 0; G().next_fault_id = 0; G().fault_seen = false;
        set_fault(F_NONE, 0);
        size_t na = r.below(9), nb = r.below(9);
        for (size_t i = 0; i < na; ++i)
        {
            Val x = nv(); Holder<T> h(x); Caught c;
            c = guarded(false, [&] { Call k; a.push_back(h.cref()); });
            DefErr e; { Call k; pa.push_back_nothrow(e, h.cref()); }
            if (c.kind || e) violation(P_(9), "building the state failed");
            ma.push_back(x); mpa.push_back(x);
        }
        for (size_t i = 0; i < nb; ++i)
        {
            Val x = nv(); Holder<T> h(x);
            Caught c = guarded(false, [&] { Call k; b.push_back(h.cref()); });
            if (c.kind) violation(P_(9), "building the state failed");
            mb.push_back(x);
        }
    }
    ~Run() { G().armed = false; set_fault(F_NONE, 0); }
    Val nv() { return ET<T>::norm(Val((int)r.below(9), ++tagc)); }
    template <class X> static Seq read(const X& c)
    {
        Seq s; for (auto it = c.begin(); it != c.end(); ++it) s.push_back(ET<T>::val(*it));
        REQUIRE(s.size() == c.size() && c.empty() == s.empty(), P_(9) | P_(1) | P_(2), "size() disagrees with iteration");
        return s;
    }
    template <class X> static void expect(const char* what, const char* which, const X& c, const Seq& m)
    {
        Seq s = read(c);
        bool ok = s.size() == m.size();
        for (size_t i = 0; ok && i < s.size(); ++i) ok = s[i] == m[i];
        REQUIRE(ok, blame(), "%s: %s has %zu elements, expected the %zu elements of the error-object counterpart", what, which, s.size(), m.size());
    }
    template <class X> static void uses(const char* what, const char* which, const X& c, int arena)
    {
        int is = AllocOps<A>::arena(c.get_allocator());
        REQUIRE(is == arena, P_(9) | P_(6), "%s: %s uses allocator %d, expected %d", what, which, is, arena);
        if (AllocOps<A>::monitored) COV("allocators of throwing containers compared");
    }
    void live_is(const char* what, size_t elems)
    {
        if (CORES) REQUIRE(live().n == CORES * elems, P_(9) | P_(5), "%s: %zu elements alive, expected %zu", what, (size_t)live().n, CORES * elems);
    }
    void after(const char* what, const Caught& c, size_t extra)
    {
        fired = fired || G().fired;
        faithful(what, c);
        expect(what, "a", a, ma); expect(what, "b", b, mb);
        uses(what, "a", a, ra); uses(what, "b", b, rb); uses(what, "the error-object twin", pa, rp);
        live_is(what, ma.size() + mb.size() + pa.size() + extra);
    }
    size_t base_blocks() { return all_outstanding(); }

    void op(unsigned kind, int fk, long long k, bool nested)
    {
        const size_t blocks0 = all_outstanding();
        switch (kind)
        {
        case 0: case 1:      // push_back
        {
            Val x = nv(); Holder<T> h(x), h2(x);
            Caught c;
            set_fault(fk, k);
            if (kind == 0) c = guarded(nested, [&] { Call q; a.push_back(h.cref()); });
            else c = guarded(nested, [&] { Call q; a.push_back(std::move(h.ref())); });
            G().armed = false;
            const bool f1 = G().fired;
            if (!c.kind) ma.push_back(x);
            if (kind && !c.kind && Moves<T>::yes) { COV("rvalues seen handed over"); REQUIRE(ET<T>::val(h.cref()).key == MOVED, P_(12) | P_(9), "push_back(&&): the rvalue argument was not passed on as an rvalue"); }
            after(kind ? "push_back(&&)" : "push_back(const&)", c, 2);
            if (!f1)
            {
                // same effect as the error-object form
                set_fault(F_NONE, 0);
                DefErr e; { Call q; if (kind == 0) pa.push_back_nothrow(e, h2.cref()); else pa.push_back_nothrow(e, std::move(h2.ref())); }
                REQUIRE(!e, P_(9), "error-object push_back failed");
                mpa.push_back(x);
                expect("push_back", "the error-object twin", pa, mpa);
                REQUIRE(ET<T>::val(h.cref()) == ET<T>::val(h2.cref()), P_(9) | P_(12), "push_back: the argument was treated differently than by push_back_nothrow");
            }
            else
            {
                if (fk == F_ALLOC) REQUIRE(ET<T>::val(h.cref()) == x, P_(9) | P_(7), "push_back: allocation failed but the argument changed");
                REQUIRE(all_outstanding() == blocks0, P_(6) | blame(), "failed push_back keeps storage");
            }
            break;
        }
        case 2:              // own element
        {
            if (ma.empty()) break;
            size_t i = r.below(ma.size()); Val x = ma[i]; Caught c;
            auto it = a.cbegin(); std::advance(it, (std::ptrdiff_t)i);
            const T& own = *it;
            set_fault(fk, k);
            c = guarded(nested, [&] { Call q; a.push_back(own); });
            if (!c.kind) ma.push_back(x);
            after("push_back(own element)", c, 0);
            break;
        }
        case 3:              // copy construction
        {
            typename std::aligned_storage<sizeof(C), alignof(C)>::type buf;
            set_fault(fk, k);
            const C& src = a;
            Caught c = guarded(nested, [&] { Call q; ::new ((void*)&buf) C(src); });
            copy_result("copy construction", c, buf, blocks0, ma, ra);
            break;
        }
        case 4:              // copy assignment
        {
            set_fault(fk, k);
            const C& src = b;
            const void* before = ma.empty() ? nullptr : (const void*)addr(a.front());
            Caught c = guarded(nested, [&] { Call q; C& res = (a = src); if (&res != &a) violation(P_(9), "copy assignment returns another object"); });
            if (!c.kind) ma = mb;
            else
            {
                REQUIRE(ma.empty() || (const void*)addr(a.front()) == before, blame(), "failed copy assignment replaced the elements of its target");
                REQUIRE(all_outstanding() == blocks0, P_(6) | blame(), "failed copy assignment keeps storage");
            }
            after("copy assignment", c, 0);
            break;
        }
        case 5:              // self copy assignment
        {
            set_fault(fk, k);
            const C& src = a;
            Caught c = guarded(nested, [&] { Call q; a = src; });
            after("copy self-assignment", c, 0);
            break;
        }
        case 6:              // move construction and assignment: never fail, nothing is touched
        {
            set_fault(fk, k);
            Call q;
            C t(std::move(a));
            Delta d(q); q.done();
            REQUIRE(d.touches() == 0 && d.alloc == 0, P_(9) | P_(18), "move construction touched elements or storage");
            expect("move construction", "the new container", t, ma); expect("move construction", "the source", a, Seq());
            uses("move construction", "the new container", t, ra);
            { Call q2; a = std::move(t); }
            expect("move assignment", "a", a, ma); expect("move assignment", "the source", t, Seq());
            { Call q2; C& res = (b = std::move(a)); if (&res != &b) violation(P_(9), "move assignment returns another object"); }
            mb = ma; ma.clear(); rb = ra;
            after("move", Caught(), 0);
            break;
        }
        default: more(kind, fk, k, nested, std::integral_constant<bool, Kind<C>::vec>()); break;
        }
        G().armed = false; set_fault(F_NONE, 0);
    }
    template <class B> void copy_result(const char* what, const Caught& c, B& buf, size_t blocks0, const Seq& m, int arena)
    {
        if (!c.kind)
        {
            C& n = *reinterpret_cast<C*>(&buf);
            expect(what, "the copy", n, m);
            uses(what, "the copy", n, arena);
            after(what, c, m.size());
            // independent of its source, and behaves like any other container
            Val x = nv(); Holder<T> h(x);
            bool f = G().fired; set_fault(F_NONE, 0);
            Caught c2 = guarded(false, [&] { Call q; n.push_back(h.cref()); });
            REQUIRE(c2.kind == 0, P_(9), "%s: the copy cannot be used", what);
            expect(what, "the source after changing the copy", a, ma);
            { Call q; n.~C(); }
            (void)f;
        }
        else
        {
            after(what, c, 0);
            REQUIRE(all_outstanding() == blocks0, P_(6) | blame(), "failed %s keeps storage", what);
        }
    }

    // vector only
    void more(unsigned kind, int fk, long long k, bool nested, std::true_type)
    {
        const size_t blocks0 = all_outstanding();
        switch (kind)
        {
        case 7:              // from the exception-free form
        {
            typename std::aligned_storage<sizeof(C), alignof(C)>::type buf;
            set_fault(fk, k);
            const P& src = pa;
            Seq m = read(pa);
            Caught c = guarded(nested, [&] { Call q; ::new ((void*)&buf) C(src); });
            copy_result("construction from the exception-free form", c, buf, blocks0, m, rp);
            expect("construction from the exception-free form", "the source", pa, m);
            break;
        }
        case 8:              // assignment from the exception-free form
        {
            set_fault(fk, k);
            const P& src = pa; Seq m = read(pa);
            Caught c = guarded(nested, [&] { Call q; C& res = (b = src); if (&res != &b) violation(P_(9), "assignment returns another object"); });
            if (!c.kind) mb = m; else REQUIRE(all_outstanding() == blocks0, P_(6) | blame(), "failed assignment keeps storage");
            after("assignment from the exception-free form", c, 0);
            expect("assignment from the exception-free form", "the source", pa, m);
            break;
        }
        case 9:              // taking over the exception-free form
        {
            set_fault(fk, k);
            Seq m = read(pa);
            Call q; C t(std::move(pa)); Delta d(q); q.done();
            REQUIRE(d.touches() == 0 && d.alloc == 0, P_(9) | P_(18), "construction from a moved exception-free form touched elements or storage");
            expect("construction from a moved exception-free form", "the new container", t, m);
            uses("construction from a moved exception-free form", "the new container", t, rp);
            REQUIRE(pa.empty(), P_(9) | P_(18), "moved-from exception-free form is not empty");
            { Call q2; b = std::move(t.as_noexcept()); }
            mb = m; mpa.clear(); rb = rp;
            after("assignment from a moved exception-free form", Caught(), 0);
            break;
        }
        case 10:             // the exception-free view is the same container
        {
            set_fault(fk, k);
            const C& ca = a;
            expect("as_noexcept", "the view", a.as_noexcept(), ma); expect("as_noexcept const", "the view", ca.as_noexcept(), ma);
            Val x = nv(); Holder<T> h(x);
            DefErr e; { Call q; a.as_noexcept().push_back_nothrow(e, h.cref()); }
            fired = fired || G().fired;
            ErrInfo i = check_err(e, P_(9) | P_(7) | P_(8) | P_(20), "as_noexcept().push_back_nothrow");
            if (!i.cat) ma.push_back(x);
            expect("as_noexcept", "a", a, ma);
            REQUIRE((ca.as_noexcept() == a.as_noexcept()), P_(9), "a container is not equal to its own view");
            uses("as_noexcept", "a", a, ra);
            break;
        }
        case 11:             // swap through the views
        {
            set_fault(fk, k);
            Call q; a.swap(b.as_noexcept()); Delta d(q); q.done();
            REQUIRE(d.touches() == 0 && d.alloc == 0, P_(9) | P_(18), "swap touched elements or storage");
            std::swap(ma, mb); std::swap(ra, rb);
            after("swap", Caught(), 0);
            break;
        }
        default: break;
        }
    }
    // list only
    typedef typename C::const_iterator CI;
    static bool less_key(const T& x, const T& y) { return ET<T>::val(x).key < ET<T>::val(y).key; }
    static bool greater_key(const T& x, const T& y) { return ET<T>::val(y).key < ET<T>::val(x).key; }
    void more(unsigned kind, int fk, long long k, bool nested, std::false_type)
    {
        (void)nested;
        set_fault(fk, k);
        const size_t na = ma.size(), nb = mb.size();
        switch (kind)
        {
        case 7:
        {
            bool desc = r.chance(1, 2), rv = r.chance(1, 2);
            auto cmp = [&](const Val& x, const Val& y) { return desc ? y.key < x.key : x.key < y.key; };
            Call q;
            if (desc) { a.sort(greater_key); b.sort(greater_key); if (rv) a.merge(std::move(b), greater_key); else a.merge(b, greater_key); }
            else { a.sort(less_key); b.sort(less_key); if (rv) a.merge(std::move(b), less_key); else a.merge(b, less_key); }
            Delta d(q); q.done();
            REQUIRE(d.touches() == 0 && d.alloc == 0, P_(9) | P_(18), "sort and merge touched elements");
            std::stable_sort(ma.begin(), ma.end(), cmp); std::stable_sort(mb.begin(), mb.end(), cmp);
            Seq m; std::merge(ma.begin(), ma.end(), mb.begin(), mb.end(), std::back_inserter(m), cmp);
            ma = m; mb.clear();
            after("sort and merge", Caught(), 0);
            break;
        }
        case 8:
        {
            size_t p = r.below(na + 1), i = nb ? r.below(nb) : 0, j = nb ? i + r.below(nb - i + 1) : 0; unsigned form = (unsigned)r.below(6);
            CI pos = a.cbegin(); std::advance(pos, (std::ptrdiff_t)p);
            CI fi = b.cbegin(); std::advance(fi, (std::ptrdiff_t)i);
            CI fj = b.cbegin(); std::advance(fj, (std::ptrdiff_t)j);
            if (form / 2 == 1 && !nb) break;
            Call q;
            switch (form)
            {
            case 0: a.splice(pos, b); i = 0; j = nb; break;
            case 1: a.splice(pos, std::move(b)); i = 0; j = nb; break;
            case 2: a.splice(pos, b, fi); j = i + 1; break;
            case 3: a.splice(pos, std::move(b), fi); j = i + 1; break;
            case 4: a.splice(pos, b, fi, fj); break;
            default: a.splice(pos, std::move(b), fi, fj); break;
            }
            Delta d(q); q.done();
            REQUIRE(d.touches() == 0 && d.alloc == 0, P_(9) | P_(18), "splice touched elements");
            ma.insert(ma.begin() + (std::ptrdiff_t)p, mb.begin() + (std::ptrdiff_t)i, mb.begin() + (std::ptrdiff_t)j);
            mb.erase(mb.begin() + (std::ptrdiff_t)i, mb.begin() + (std::ptrdiff_t)j);
            after("splice", Caught(), 0);
            break;
        }
        default: break;
        }
    }
};

template <class C, class T>
void throw_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x31);
    // lists merged or spliced across must share an allocator
    unsigned kind = (unsigned)r.below(Kind<C>::vec ? 12 : AllocOps<typename C::allocator_type>::monitored ? 7 : 9);
    const bool canfail = CoresOf<T>::n && !std::is_same<T, Elem>::value;
    for (int fk = 0; fk <= 2; ++fk)
    {
        if (fk == F_ELEM && !canfail) continue;
        for (long long k = fk ? 1 : 0; k <= 60; ++k)
        {
            bool nested = r.chance(1, 3), f;
            logf("op %u fault kind %d point %lld%s", kind, fk, k, nested ? " while handling another exception" : "");
            {
                Run<C, T> x(seed);
                x.op(kind, fk, k, nested);
                f = x.fired;
                // and the containers stay usable
                x.op((unsigned)r.below(2), F_NONE, 0, false);
                sig(mix2(kind * 100 + x.ma.size() * 10 + x.mb.size(), (u64)fk * 1000 + (u64)k));
                G().armed = true;
            }
            G().armed = false;
            end_case_new();
            REQUIRE(live().n == 0 && all_outstanding() == 0, P_(9) | P_(5) | P_(6), "leak after a throwing operation");
            if (!fk || !f) break;
            COV("fault points enumerated"); ++G().evaluations; commit_case();
        }
    }
    end_case();
}
struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };

// lists in one case must be able to exchange nodes: one arena
template <class T> struct One : Alloc<T>
{
    template <class U> struct rebind { typedef One<U> other; };
    One() noexcept : Alloc<T>(1) {}
    One(const One& o) noexcept : Alloc<T>(o) {}
    One& operator=(const One& o) noexcept { Alloc<T>::operator=(o); return *this; }
    template <class U> One(const One<U>& o) noexcept : Alloc<T>(o) {}
};
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "throw");
    G().mode_tags = P_(9);
    std::vector<Entry> es;
#define HV(T, A, name) { typedef nestl::has_exceptions::vector<T, A<T>> C; es.push_back({ name, &throw_case<C, T> }); }
#define HL(T, A, name) { typedef nestl::has_exceptions::list<T, A<T>> C; es.push_back({ name, &throw_case<C, T> }); }
#if IN_PART(0)
    HV(Thrower, Alloc, "vector<Thrower,Alloc>")
    HV(Two, Alloc, "vector<Two,Alloc>")
    HV(Elem, nestl::allocator, "vector<Elem>")
#endif
#if IN_PART(1)
    HV(CopyThrower, Alloc, "vector<CopyThrower,Alloc>")
    HV(LateThrower, nestl::allocator, "vector<LateThrower>")
#endif
#if IN_PART(2)
    HL(Thrower, One, "list<Thrower,Alloc>")
    HL(LateThrower, nestl::allocator, "list<LateThrower>")
    HL(Two, One, "list<Two,Alloc>")
    HL(Thrower, Alloc, "list<Thrower,distinct allocators>")
#endif
#if IN_PART(3)
    HL(CopyThrower, One, "list<CopyThrower,Alloc>")
    HL(Elem, nestl::allocator, "list<Elem>")
    HL(Two, Alloc, "list<Two,distinct allocators>")
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
#endif
