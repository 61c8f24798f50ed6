// Object construction and assignment through the library: argument forwarding, all-or-nothing, two-phase types,
// and the containers and pointers built on them.
#include "vf.hpp"
#include "newhook.hpp"
#include <initializer_list>
using namespace vf;

namespace
{
// value categories as seen by the constructed object
enum { LV = 1, CLV = 2, RV = 3, CRV = 4 };
struct Arg
{
    int v;
    explicit Arg(int x) : v(x) {}
};
const int TAKEN = -5;
const int MAXARG = 5;

template <class A> struct CatOf;
template <> struct CatOf<Arg&> { static const int c = LV; };
template <> struct CatOf<const Arg&> { static const int c = CLV; };
template <> struct CatOf<Arg> { static const int c = RV; };
template <> struct CatOf<const Arg> { static const int c = CRV; };

template <class...> struct AllArgs : std::true_type {};
template <class A, class... R> struct AllArgs<A, R...> : std::integral_constant<bool, std::is_same<typename std::decay<A>::type, Arg>::value && AllArgs<R...>::value> {};

// what a constructor (or initialiser) received
struct Record
{
    int n, cat[MAXARG], val[MAXARG], calls;
    Record() : n(0), calls(0) {}
    void take() {}
    template <class A, class... R> void take(A&& a, R&&... r)
    {
        cat[n] = CatOf<A>::c; val[n] = a.v; ++n;
        grab(std::forward<A>(a));
        take(std::forward<R>(r)...);
    }
    static void grab(Arg& a) { (void)a; }
    static void grab(const Arg&) {}
    static void grab(Arg&& a) { a.v = TAKEN; }
    static void grab(const Arg&&) {}
    template <class... A> void all(A&&... a) { ++calls; take(std::forward<A>(a)...); }
};

// reached only if the object is built with braces instead of from the given arguments
void braces() { violation(P_(12), "the object was built from a list of its arguments instead of from its arguments"); }
struct SinkN : Core
{
    Record rec;
    SinkN(std::initializer_list<Arg>) noexcept { braces(); }
    template <class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    explicit SinkN(A&&... a) noexcept : Core((int)sizeof...(A), 0) { rec.all(std::forward<A>(a)...); }
    SinkN(const SinkN& o) noexcept : Core(o), rec(o.rec) {}
    SinkN(SinkN&& o) noexcept : Core(std::move(o)), rec(o.rec) {}
    SinkN& operator=(const SinkN&) = default;
};
#if VF_EX
struct SinkT : Core
{
    Record rec;
    SinkT(std::initializer_list<Arg>) noexcept(false) { braces(); }
    template <class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    explicit SinkT(A&&... a) noexcept(false) : Core((boom(nullptr), (int)sizeof...(A)), 0) { rec.all(std::forward<A>(a)...); }
    SinkT(const SinkT& o) noexcept(false) : Core((boom(&o), static_cast<const Core&>(o))), rec(o.rec) {}
    SinkT(SinkT&& o) noexcept(false) : Core((boom(&o), static_cast<Core&&>(o))), rec(o.rec) {}
    SinkT& operator=(const SinkT&) = default;
};
// fails after its members were built
struct SinkL : Core
{
    Core part; Record rec;
    SinkL(std::initializer_list<Arg>) noexcept(false) { braces(); }
    template <class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    explicit SinkL(A&&... a) noexcept(false) : Core((int)sizeof...(A), 0) { rec.all(std::forward<A>(a)...); boom(nullptr); }
    SinkL(const SinkL& o) noexcept(false) : Core(o), part(o.part), rec(o.rec) { boom(&o); }
    SinkL(SinkL&& o) noexcept(false) : Core(o), part(o.part), rec(o.rec) { boom(&o); }
    SinkL& operator=(const SinkL&) = default;
};
#endif
struct InitN : Core { Record rec; InitN() noexcept {} private: InitN(const InitN&); InitN& operator=(const InitN&); };
// can also be copied like any other type
struct InitC : Core { Record rec; InitC() noexcept {} InitC(const InitC& o) noexcept : Core(o), rec(o.rec) {} InitC& operator=(const InitC&) = default; };
#if VF_EX
struct InitT : Core { Record rec; InitT() noexcept(false) : Core((boom(nullptr), FRESH), 0) {} private: InitT(const InitT&); InitT& operator=(const InitT&); };
#endif

template <class T, class E, class... A>
void init_any(E& err, T& d, A&&... a)
{
    d.check("two-phase init");
    if (d.rec.calls) violation(P_(12), "two-phase initialisation ran twice on one object");
    COV("two-phase initialisations");
    d.rec.all(std::forward<A>(a)...);
    if (tick(F_ELEM, nullptr)) { set_elem_error(err, G().fault_id); COV("two-phase initialisation failures"); }
}
} // namespace

namespace nestl
{
template <> struct two_phase_initializator<InitN>
{
    template <class E, class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    static void init(E& err, InitN& d, A&&... a) noexcept { init_any(err, d, std::forward<A>(a)...); }
    template <class E> static void init(E& err, InitN& d, const InitN& o) noexcept { d.rec = o.rec; if (tick(F_ELEM, &o)) set_elem_error(err, G().fault_id); }
};
template <> struct two_phase_initializator<InitC>
{
    template <class E, class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    static void init(E& err, InitC& d, A&&... a) noexcept { init_any(err, d, std::forward<A>(a)...); }
};
#if VF_EX
template <> struct two_phase_initializator<InitT>
{
    template <class E, class... A, class = typename std::enable_if<AllArgs<A...>::value>::type>
    static void init(E& err, InitT& d, A&&... a) noexcept { init_any(err, d, std::forward<A>(a)...); }
    template <class E> static void init(E& err, InitT& d, const InitT& o) noexcept { d.rec = o.rec; if (tick(F_ELEM, &o)) set_elem_error(err, G().fault_id); }
};
#endif
} // namespace nestl

namespace
{
template <class T> struct Cores { static const size_t n = 1; };
template <class T> struct IsTwo : std::false_type {};
template <> struct IsTwo<InitN> : std::true_type {};
template <> struct IsTwo<InitC> : std::true_type {};
#if VF_EX
template <> struct Cores<SinkL> { static const size_t n = 2; };
template <> struct IsTwo<InitT> : std::true_type {};
#endif

// the arguments of one construction
struct Pack
{
    Arg a[MAXARG]; int n; int cat[MAXARG]; int orig[MAXARG];
    Pack(Rng& r) : a{Arg(0), Arg(0), Arg(0), Arg(0), Arg(0)}, n(0) { for (int i = 0; i < MAXARG; ++i) { orig[i] = a[i].v = 1 + (int)r.below(1000000); } }
    void lvalues_untouched(const char* what)
    {
        for (int i = 0; i < n; ++i)
            REQUIRE(a[i].v == orig[i] || (cat[i] == RV && a[i].v == TAKEN), P_(12), "%s: argument %d passed as %s was modified", what, i, cat[i] == RV ? "an rvalue" : "an lvalue or const");
    }
    void none_taken(const char* what)
    {
        for (int i = 0; i < n; ++i) REQUIRE(a[i].v == orig[i], P_(12), "%s: argument %d was consumed although nothing was constructed from it", what, i);
    }
    void seen(const char* what, const Record& r)
    {
        REQUIRE(r.calls == 1, P_(12), "%s: the object was built %d times", what, r.calls);
        REQUIRE(r.n == n, P_(12), "%s: %d arguments given, %d received", what, n, r.n);
        for (int i = 0; i < n; ++i)
        {
            REQUIRE(r.val[i] == orig[i], P_(12), "%s: argument %d has value %d, was given %d", what, i, r.val[i], orig[i]);
            REQUIRE(r.cat[i] == cat[i], P_(12), "%s: argument %d given as category %d, received as %d (1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue)", what, i, cat[i], r.cat[i]);
        }
        COV("forwarded argument lists compared");
    }
};

template <int C> struct As;
template <> struct As<LV> { static Arg& f(Arg& a) { return a; } };
template <> struct As<CLV> { static const Arg& f(Arg& a) { return a; } };
template <> struct As<RV> { static Arg&& f(Arg& a) { return std::move(a); } };
template <> struct As<CRV> { static const Arg&& f(Arg& a) { return static_cast<const Arg&&>(a); } };

enum Route { DIRECT, VEC_BACK, LST_AT, LST_BACK, LST_FRONT, MK_SHARED, MK_SHARED_A };
const char* const ROUTE[] = { "construct", "vector::emplace_back", "list::emplace", "list::emplace_back", "list::emplace_front", "make_shared", "make_shared_a" };

u64 NUSE = 1;      // number of types sharing the case numbers
struct Ctx { Rng& r; Pack& p; long long k; bool fired; };

template <class E> void fault_on(Ctx& c, long long k) { set_fault(k ? F_ELEM : F_NONE, k); }

template <class E>
bool outcome(const char* what, const E& err)
{
    ErrInfo i = check_err(err, P_(12), what);
    if (G().fired && i.cat == 0) violation(P_(12), "%s: construction failed without an error", what);
    check_sets(err, i.cat != 0);
    return i.cat == 0;
}
void need(bool ok, const char* what, const char* why) { REQUIRE(ok, P_(12) | P_(5), "%s: %s", what, why); }

template <class T, class E, int... C>
struct Direct
{
    template <size_t... I> struct Seq {};
    static void run(Ctx& c)
    {
        Pack& p = c.p;
        const int cs[] = { C..., 0 };
        p.n = (int)sizeof...(C);
        for (int i = 0; i < p.n; ++i) p.cat[i] = cs[i];
        struct Box { unsigned char pre[32]; typename std::aligned_storage<sizeof(T), alignof(T)>::type mid; unsigned char post[32]; } box;
        std::memset(&box, 0x6B, sizeof box);
        T* ptr = reinterpret_cast<T*>(&box.mid);
        fault_on<E>(c, c.k);
        E err;
        Call call;
        doit(err, ptr, p, std::integral_constant<int, sizeof...(C)>());
        call.done();
        Delta d(call);
        c.fired = G().fired;
        const bool ok = outcome("construct", err);
        for (size_t i = 0; i < 32; ++i) need(box.pre[i] == 0x6B && box.post[i] == 0x6B, "construct", "bytes outside the object were written");
        p.lvalues_untouched("construct");
        if (ok)
        {
            REQUIRE(live().n - call.live_before == Cores<T>::n && live().get((std::uintptr_t)static_cast<Core*>(ptr)), P_(12) | P_(5), "construct: success but not exactly one live object at the given place");
            REQUIRE(d.destroy == 0 && d.copy == 0 && d.move == 0, P_(12) | P_(5), "construct: temporaries were made");
            if (!IsTwo<T>::value || p.n) p.seen("construct", ptr->rec);
            ptr->~T();
            COV("constructions");
        }
        else
        {
            need(live().n == call.live_before, "construct", "failed but an object was left alive");
            REQUIRE(d.destroy == d.births(), P_(12) | P_(5), "construct: failed; %llu built, %llu destroyed", d.births(), d.destroy);
            COV("failed constructions");
        }
        sig(mix2((u64)p.n, mix2(p.n ? (u64)p.cat[0] * 100 + (u64)(p.n > 1 ? p.cat[1] : 0) * 10 + (u64)(p.n > 2 ? p.cat[2] : 0) : 0, (u64)c.k * 2 + ok)));
    }
    static void doit(E& e, T* t, Pack&, std::integral_constant<int, 0>) { nestl::class_operations::construct(e, t); }
    static void doit(E& e, T* t, Pack& p, std::integral_constant<int, 1>) { one_(e, t, p, Ints<C...>()); }
    static void doit(E& e, T* t, Pack& p, std::integral_constant<int, 2>) { two_(e, t, p, Ints<C...>()); }
    static void doit(E& e, T* t, Pack& p, std::integral_constant<int, 3>) { three_(e, t, p, Ints<C...>()); }
    static void doit(E& e, T* t, Pack& p, std::integral_constant<int, 5>) { five_(e, t, p, Ints<C...>()); }
    template <int...> struct Ints {};
    template <int A> static void one_(E& e, T* t, Pack& p, Ints<A>) { nestl::class_operations::construct(e, t, As<A>::f(p.a[0])); }
    template <int A, int B> static void two_(E& e, T* t, Pack& p, Ints<A, B>) { nestl::class_operations::construct(e, t, As<A>::f(p.a[0]), As<B>::f(p.a[1])); }
    template <int A, int B, int D> static void three_(E& e, T* t, Pack& p, Ints<A, B, D>) { nestl::class_operations::construct(e, t, As<A>::f(p.a[0]), As<B>::f(p.a[1]), As<D>::f(p.a[2])); }
    template <int A, int B, int D, int F, int H> static void five_(E& e, T* t, Pack& p, Ints<A, B, D, F, H>) { nestl::class_operations::construct(e, t, As<A>::f(p.a[0]), As<B>::f(p.a[1]), As<D>::f(p.a[2]), As<F>::f(p.a[3]), As<H>::f(p.a[4])); }
};

typedef void (*Fn)(Ctx&);
template <class T, class E, int A> void add2(std::vector<Fn>& v)
{
    v.push_back(&Direct<T, E, A, LV>::run); v.push_back(&Direct<T, E, A, CLV>::run);
    v.push_back(&Direct<T, E, A, RV>::run); v.push_back(&Direct<T, E, A, CRV>::run);
}
template <class T, class E, int A, int B> void add3(std::vector<Fn>& v)
{
    v.push_back(&Direct<T, E, A, B, LV>::run); v.push_back(&Direct<T, E, A, B, CLV>::run); v.push_back(&Direct<T, E, A, B, RV>::run);
}
template <class T, class E> std::vector<Fn> direct_fns(bool many)
{
    std::vector<Fn> v;
    v.push_back(&Direct<T, E>::run);
    v.push_back(&Direct<T, E, LV>::run); v.push_back(&Direct<T, E, CLV>::run); v.push_back(&Direct<T, E, RV>::run); v.push_back(&Direct<T, E, CRV>::run);
    add2<T, E, LV>(v); add2<T, E, CLV>(v); add2<T, E, RV>(v); add2<T, E, CRV>(v);
    add3<T, E, LV, RV>(v); add3<T, E, RV, LV>(v); add3<T, E, CLV, RV>(v); add3<T, E, RV, RV>(v); add3<T, E, LV, LV>(v);
    v.push_back(&Direct<T, E, RV, LV, CLV, RV, LV>::run); v.push_back(&Direct<T, E, LV, RV, RV, CLV, CRV>::run);
    return v;
}

template <class T, class E>
void direct_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    static const std::vector<Fn> fns = direct_fns<T, E>(true);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed);
    const size_t f = n / NUSE % fns.size();
    for (long long k = 0; k <= 8; ++k)       // k = 0: no fault
    {
        Pack p(r);
        Ctx c = { r, p, k, false };
        fns[f](c);
        logf("construct with %d arguments (list %zu) fault point %lld fired %d", p.n, f, k, (int)c.fired);
        end_case_new();
        if (k && !c.fired) break;
        if (k) { COV("fault points enumerated"); ++G().evaluations; }
    }
    end_case();
}

// ---------------------------------------------------------------- forwarding through containers and pointers
template <class T, class E>
struct Routes
{
    typedef nestl::no_exceptions::vector<T, Alloc<T>> Vec;
    typedef nestl::no_exceptions::list<T, Alloc<T>> Lst;
    static const Core* find(Route, Vec& v, size_t) { return addr(v.back()); }

    template <class... X>
    static void go(Ctx& c, Route route, size_t have, X&&... x)
    {
        Pack& p = c.p;
        const char* what = ROUTE[route];
        Alloc<T> alloc(7);
        const size_t base = live().n;
        {
            Vec v((Alloc<T>(7))); Lst l((Alloc<T>(7)));
            {
                // existing content, so that growth and relinking happen around the new object
                E e;
                for (size_t i = 0; i < have; ++i)
                {
                    fill(v, l, route, e);
                    if (e) violation(P_(12), "setup failed");
                }
            }
            const size_t before = live().n;
            E err;
            fault_on<E>(c, c.k);
            Call call;
            bool ok; const T* got = nullptr; size_t pos = 0;
            nestl::shared_ptr<T> sp;
            switch (route)
            {
            case VEC_BACK: v.emplace_back_nothrow(err, std::forward<X>(x)...); break;
            case LST_BACK: l.emplace_back_nothrow(err, std::forward<X>(x)...); break;
            case LST_FRONT: l.emplace_front_nothrow(err, std::forward<X>(x)...); break;
            case LST_AT: { auto it = l.cbegin(); pos = have / 2; for (size_t i = 0; i < pos; ++i) ++it; l.emplace_nothrow(err, it, std::forward<X>(x)...); break; }
            case MK_SHARED: sp = nestl::make_shared_nothrow<T>(err, std::forward<X>(x)...); break;
            case MK_SHARED_A: sp = nestl::make_shared_a_nothrow<T>(err, alloc, std::forward<X>(x)...); break;
            default: break;
            }
            call.done();
            c.fired = G().fired;
            ok = outcome(what, err);
            p.lvalues_untouched(what);
            if (ok)
            {
                switch (route)
                {
                case VEC_BACK: need(v.size() == have + 1, what, "size"); got = addr(v.back()); break;
                case LST_BACK: need(l.size() == have + 1, what, "size"); got = addr(l.back()); break;
                case LST_FRONT: need(l.size() == have + 1, what, "size"); got = addr(l.front()); break;
                case LST_AT: { need(l.size() == have + 1, what, "size"); auto it = l.cbegin(); for (size_t i = 0; i < pos; ++i) ++it; got = addr(*it); break; }
                default: need((bool)sp, what, "success but an empty pointer"); got = sp.get(); break;
                }
                p.seen(what, got->rec);
                need(live().n == before + Cores<T>::n, what, "not exactly one new live object");
                COV("forwarded through containers or pointers");
            }
            else
            {
                need(live().n == before, what, "failed but the number of live objects changed");
                need(!sp, what, "failed but returned a non-empty pointer");
                need(v.size() == (route == VEC_BACK ? have : 0), what, "failed but the vector changed");
                need(l.size() == (route >= LST_AT && route <= LST_FRONT ? have : 0), what, "failed but the list changed");
                COV("failed constructions in containers or pointers");
            }
            { Call k; Vec v2(std::move(v)); Lst l2(std::move(l)); sp.reset(); }
            need(live().n == base, what, "objects outlive their owner");
        }
        sig(mix2((u64)route * 64 + have, mix2((u64)(p.n * 100 + (p.n ? p.cat[0] : 0) * 10 + (p.n > 1 ? p.cat[1] : 0)), (u64)c.k)));
    }
    static void fill(Vec& v, Lst& l, Route route, E& e)
    {
        Arg a(3);
        set_fault(F_NONE, 0);
        Call k;
        if (route == VEC_BACK) v.emplace_back_nothrow(e, a);
        else if (route <= LST_FRONT) l.emplace_back_nothrow(e, a);
    }
    static void mix_(Ctx& c, Route route, size_t have, unsigned m)
    {
        Pack& p = c.p;
        static const int M[8][3] = { { LV, 0, 0 }, { CLV, 0, 0 }, { RV, 0, 0 }, { LV, RV, 0 }, { RV, CLV, 0 }, { RV, RV, 0 }, { CLV, LV, RV }, { RV, LV, RV } };
        p.n = m < 3 ? 1 : m < 6 ? 2 : 3;
        for (int i = 0; i < 3; ++i) p.cat[i] = M[m][i];
        const Arg& k0 = p.a[0]; const Arg& k1 = p.a[1];
        switch (m)
        {
        case 0: go(c, route, have, p.a[0]); break;
        case 1: go(c, route, have, k0); break;
        case 2: go(c, route, have, std::move(p.a[0])); break;
        case 3: go(c, route, have, p.a[0], std::move(p.a[1])); break;
        case 4: go(c, route, have, std::move(p.a[0]), k1); break;
        case 5: go(c, route, have, std::move(p.a[0]), std::move(p.a[1])); break;
        case 6: go(c, route, have, k0, p.a[1], std::move(p.a[2])); break;
        case 7: go(c, route, have, std::move(p.a[0]), p.a[1], std::move(p.a[2])); break;
        }
    }
};

template <class T, class E>
void route_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed);
    // vectors need to relocate elements, which two-phase types support by copying
    const unsigned routes = 6;
    const u64 q = n / NUSE;
    const Route route = (Route)(1 + q % routes);
    const unsigned m = (unsigned)(q / routes % 8);
    const size_t have = r.below(6);
    for (long long k = 0; k <= 20; ++k)
    {
        Pack p(r);
        Ctx c = { r, p, k, false };
        Routes<T, E>::mix_(c, route, have, m);
        logf("%s into %zu existing, argument mix %u, fault point %lld fired %d", ROUTE[route], have, m, k, (int)c.fired);
        end_case_new();
        REQUIRE(live().n == 0 && all_outstanding() == 0, P_(12) | P_(5) | P_(6), "%s: leak", ROUTE[route]);
        if (k && !c.fired) break;
        if (k) { COV("fault points enumerated"); ++G().evaluations; }
    }
    end_case();
}

// ---------------------------------------------------------------- assignment
struct Src { int v; };
struct DstN
{
    int got, cat, calls;
    DstN() : got(0), cat(0), calls(0) {}
    void operator=(Src& s) noexcept { got = s.v; cat = LV; ++calls; }
    void operator=(const Src& s) noexcept { got = s.v; cat = CLV; ++calls; }
    void operator=(Src&& s) noexcept { got = s.v; cat = RV; ++calls; s.v = TAKEN; }
    void operator=(const Src&& s) noexcept { got = s.v; cat = CRV; ++calls; }
    static const bool fails = false;
};
// an assignment operator whose result has nothing to do with the target
struct Weird { explicit operator bool() const { return false; } };
struct DstW
{
    int got, cat, calls;
    DstW() : got(0), cat(0), calls(0) {}
    Weird operator=(Src& s) noexcept { got = s.v; cat = LV; ++calls; return Weird(); }
    Weird operator=(const Src& s) noexcept { got = s.v; cat = CLV; ++calls; return Weird(); }
    Weird operator=(Src&& s) noexcept { got = s.v; cat = RV; ++calls; s.v = TAKEN; return Weird(); }
    Weird operator=(const Src&& s) noexcept { got = s.v; cat = CRV; ++calls; return Weird(); }
    static const bool fails = false;
};
#if VF_EX
struct DstT
{
    int got, cat, calls;
    DstT() : got(0), cat(0), calls(0) {}
    DstT& operator=(Src& s) { ++calls; boom(&s); got = s.v; cat = LV; return *this; }
    DstT& operator=(const Src& s) { ++calls; boom(&s); got = s.v; cat = CLV; return *this; }
    DstT& operator=(Src&& s) { ++calls; boom(&s); got = s.v; cat = RV; s.v = TAKEN; return *this; }
    DstT& operator=(const Src&& s) { ++calls; boom(&s); got = s.v; cat = CRV; return *this; }
    static const bool fails = true;
};
#endif

template <class D, class E>
void assign_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed);
    for (int fault = 0; fault <= (D::fails ? 1 : 0); ++fault)
    {
        D d; Src s; const int v = s.v = 1 + (int)r.below(1000000);
        const int cat = 1 + (int)((n / NUSE + (u64)fault) % 4);
        set_fault(fault ? F_ELEM : F_NONE, fault);
        E err;
        Call call;
        switch (cat)
        {
        case LV: nestl::class_operations::assign(err, d, s); break;
        case CLV: nestl::class_operations::assign(err, d, static_cast<const Src&>(s)); break;
        case RV: nestl::class_operations::assign(err, d, std::move(s)); break;
        default: nestl::class_operations::assign(err, d, static_cast<const Src&&>(s)); break;
        }
        call.done();
        logf("assign category %d value %d fault %d", cat, v, fault);
        const bool ok = outcome("assign", err);
        REQUIRE(d.calls == 1, P_(12), "assign: the assignment ran %d times", d.calls);
        REQUIRE(s.v == v || (cat == RV && ok && s.v == TAKEN), P_(12), "assign: the source was modified");
        if (ok)
        {
            REQUIRE(d.got == v && d.cat == cat, P_(12), "assign: source given as category %d value %d, received as %d value %d", cat, v, d.cat, d.got);
            COV("assignments");
        }
        else COV("failed assignments");
        sig((u64)cat * 2 + (u64)fault + 1000);
        // scalars
        int i = (int)r.below(1000), j = i; long l = 0; const char* ps = "x"; const char* pd = nullptr; E e2;
        set_fault(F_NONE, 0);
        { Call k; nestl::class_operations::assign(e2, l, i); nestl::class_operations::assign(e2, pd, ps); }
        REQUIRE(!e2 && l == j && i == j && pd == ps, P_(12) | P_(20), "assign: scalar assignment wrong");
        int ci = 0; { Call k; nestl::class_operations::construct(e2, &ci, i); } REQUIRE(!e2 && ci == j, P_(12), "construct: scalar wrong");
        int zi = 5; { Call k; nestl::class_operations::construct(e2, &zi); } REQUIRE(!e2 && zi == 0, P_(12), "construct: scalar not value-initialised");
    }
    end_case();
}

// ---------------------------------------------------------------- containers of containers
template <class Inner> struct InnerOps;
template <class T, class A> struct InnerOps<nestl::no_exceptions::vector<T, A>> { static const char* n() { return "vector"; } };
template <class T, class A> struct InnerOps<nestl::no_exceptions::list<T, A>> { static const char* n() { return "list"; } };

typedef std::vector<Val> Seq;

template <class O, class I, class T, class E>
struct Nest
{
    Rng r; int fk; long long k; int target; bool storm; int step; bool fired; int tagc;
    std::vector<Seq> m[2];
    O c[2];
    Nest(u64 seed, int fk_, long long k_, int target_, bool st) : r(seed), fk(fk_), k(k_), target(target_), storm(st), step(0), fired(false), tagc(0)
    {
        G().ev.zero(); G().next_oid = 0; G().next_fault_id = 0; G().fault_seen = false;
    }
    Val nv() { return Val((int)r.below(7), ++tagc); }
    Seq nseq() { Seq s; size_t n = r.below(5); for (size_t i = 0; i < n; ++i) s.push_back(nv()); return s; }
    void arm()
    {
        set_fault(F_NONE, 0);
        if (storm) { if (r.chance(1, 3)) set_fault(r.chance(1, 2) ? F_ALLOC : F_ELEM, 1 + (long long)r.below(8), r.chance(1, 6)); }
        else if (step == target) set_fault(fk, k);
    }
    // harness side construction of an inner container with given contents
    void fill(I& in, const Seq& s)
    {
        set_fault(F_NONE, 0);
        E e; Call call;
        for (size_t i = 0; i < s.size(); ++i) in.emplace_back_nothrow(e, s[i].key, s[i].tag);
        if (e) violation(P_(12) | P_(1) | P_(2), "inner container cannot be filled");
    }
    static Seq read_in(const I& in) { Seq s; for (auto it = in.cbegin(); it != in.cend(); ++it) s.push_back(ET<T>::val(*it)); REQUIRE(s.size() == in.size(), P_(12), "inner size"); return s; }
    static std::vector<Seq> read(const O& o) { std::vector<Seq> v; for (auto it = o.cbegin(); it != o.cend(); ++it) v.push_back(read_in(*it)); REQUIRE(v.size() == o.size(), P_(12), "outer size"); return v; }
    static size_t total(const std::vector<Seq>& v) { size_t n = 0; for (size_t i = 0; i < v.size(); ++i) n += v[i].size(); return n; }

    // kind: 0 unchanged on failure, 1 insertion in the middle (valid but possibly shortened on element failure), 2 replaced, 3 grown
    void judge(const char* what, int i, const std::vector<Seq>& want, int kind, size_t harness, const std::function<void(E&)>& f)
    {
        std::vector<Seq> old = m[i];
        arm();
        E err;
        Call call; f(err); call.done();
        if (G().fired) fired = true;
        ErrInfo info = check_err(err, P_(12), what);
        check_sets(err, info.cat != 0);
        std::vector<Seq> now = read(c[i]);
        if (info.cat == 0)
        {
            REQUIRE(now == want, P_(12) | P_(1) | P_(2), "%s: nested contents differ from the ideal sequence of sequences", what);
            COV("nested operations");
        }
        else
        {
            COV("failed nested operations");
            bool ok = now == old;
            if (kind == 2) ok = ok || (now.size() <= want.size() && std::equal(now.begin(), now.end(), want.begin()));
            if (kind == 3) ok = ok || (now.size() <= want.size() && now.size() >= old.size() && std::equal(now.begin(), now.end(), want.begin()));
            if (kind == 1 && !ok)
            {
                // part of the tail may be lost when relocating it fails, in order and never garbage
                ok = true; size_t j = 0;
                for (size_t q = 0; q < now.size() && ok; ++q) { while (j < want.size() && want[j] != now[q]) ++j; ok = j < want.size(); ++j; }
            }
            REQUIRE(ok, P_(12) | (G().fk == F_ALLOC ? P_(7) : P_(8)), "%s: failed and left contents it may not leave (outer size %zu -> %zu)", what, old.size(), now.size());
        }
        m[i] = now;
        REQUIRE(live().n == harness + total(m[0]) + total(m[1]), P_(12) | P_(5), "%s: %zu inner elements alive, %zu expected", what, (size_t)live().n, harness + total(m[0]) + total(m[1]));
        sig(mix2(hash(what), mix2(old.size() * 64 + std::min<size_t>(total(old), 60), (u64)G().fired * 77 + (u64)(G().fired ? k : 0))));
    }

    template <class OO> static void reserve(OO& o, E& e, size_t n, decltype(std::declval<OO&>().capacity())) { o.reserve_nothrow(e, n); }
    template <class OO> static void reserve(OO&, E&, size_t, ...) {}
    template <class OO> static void shrink(OO& o, E& e, decltype(std::declval<OO&>().capacity())) { o.shrink_to_fit_nothrow(e); }
    template <class OO> static void shrink(OO&, E&, ...) {}
    template <class OO> static void resize(OO& o, E& e, size_t n, const I& x, decltype(std::declval<OO&>().capacity())) { o.resize_nothrow(e, n, x); }
    template <class OO> static void resize(OO& o, E& e, size_t n, const I& x, ...) { if (n > o.size()) o.insert_nothrow(e, o.cend(), n - o.size(), x); else while (o.size() > n) o.pop_back(); }
    static typename O::const_iterator at(O& o, size_t p) { auto it = o.cbegin(); std::advance(it, (std::ptrdiff_t)p); return it; }
    static const bool vec = std::is_same<typename std::iterator_traits<typename O::const_iterator>::iterator_category, std::random_access_iterator_tag>::value;

    void one()
    {
        const int i = (int)r.below(2), o = 1 - i;
        const size_t n = m[i].size();
        ++step;
        unsigned op = (unsigned)r.below(12);
        if (n > 8 && op < 6) op = 8;
        switch (op)
        {
        case 0: case 1: case 2:
        {
            Seq s = nseq(); I in; fill(in, s);
            std::vector<Seq> w = m[i]; w.push_back(s);
            logf("o%d.push_back(inner of %zu)", i, s.size());
            judge("nested push_back", i, w, 0, s.size(), [&](E& e) { c[i].push_back_nothrow(e, static_cast<const I&>(in)); });
            REQUIRE(read_in(in) == s, P_(12), "nested push_back altered its argument");
            break;
        }
        case 3:
        {
            Seq s = nseq(); I in; fill(in, s);
            std::vector<Seq> w = m[i]; w.push_back(s);
            logf("o%d.push_back(&& inner of %zu)", i, s.size());
            std::vector<Seq> before = m[i];
            arm(); E err; Call call; c[i].push_back_nothrow(err, std::move(in)); call.done();
            if (G().fired) fired = true;
            ErrInfo info = check_err(err, P_(12), "nested push_back(&&)");
            std::vector<Seq> now = read(c[i]);
            REQUIRE(now == (info.cat ? before : w), P_(12) | P_(1) | P_(2), "nested push_back(&&): contents wrong");
            m[i] = now;
            Seq left = read_in(in);
            REQUIRE(live().n == left.size() + total(m[0]) + total(m[1]), P_(12) | P_(5), "nested push_back(&&): element count");
            if (info.cat && G().fk == F_ALLOC) REQUIRE(left == s || left.empty(), P_(12), "nested push_back(&&) left a torn argument");
            // an inner copy that runs out of memory is an element failure: the argument may already have been moved from
            break;
        }
        case 4: case 5:
        {
            Seq s = nseq(); I in; fill(in, s); size_t p = r.below(n + 1);
            std::vector<Seq> w = m[i]; w.insert(w.begin() + (std::ptrdiff_t)p, s);
            logf("o%d.insert(%zu, inner of %zu)", i, p, s.size());
            judge("nested insert", i, w, vec ? 1 : 0, s.size(), [&](E& e) { c[i].insert_nothrow(e, at(c[i], p), static_cast<const I&>(in)); });
            break;
        }
        case 6:
        {
            std::vector<Seq> w = m[o];
            logf("o%d.copy(o%d)", i, o);
            judge("nested copy", i, w, 2, 0, [&](E& e) { c[i].copy_nothrow(e, c[o]); });
            REQUIRE(read(c[o]) == m[o], P_(12), "nested copy altered its source");
            break;
        }
        case 7:
        {
            size_t q = r.below(n + 4); Seq s = nseq(); I in; fill(in, s);
            std::vector<Seq> w = m[i]; w.resize(q, s);
            logf("o%d.resize(%zu, inner of %zu)", i, q, s.size());
            judge("nested resize", i, w, 3, s.size(), [&](E& e) { resize(c[i], e, q, static_cast<const I&>(in), 0); });
            break;
        }
        case 8:
        {
            logf("o%d.clear()", i);
            judge("nested clear", i, std::vector<Seq>(), 0, 0, [&](E&) { c[i].clear(); });
            break;
        }
        case 9:
        {
            logf("o%d.reserve/shrink", i);
            bool s = r.chance(1, 2); size_t q = r.below(n + 6);
            judge("nested reserve", i, m[i], 0, 0, [&](E& e) { if (s) shrink(c[i], e, 0); else reserve(c[i], e, q, 0); });
            break;
        }
        case 10:
        {
            // change an inner container in place
            if (!n) break;
            size_t p = r.below(n); Val x = nv();
            std::vector<Seq> w = m[i]; w[p].push_back(x);
            logf("o%d[%zu].push_back", i, p);
            judge("push_back into an inner container", i, w, 0, 0, [&](E& e) { auto it = c[i].begin(); std::advance(it, (std::ptrdiff_t)p); it->emplace_back_nothrow(e, x.key, x.tag); });
            break;
        }
        case 11:
        {
            set_fault(F_NONE, 0);
            logf("o%d = move(o%d)", i, o);
            Call call; c[i] = std::move(c[o]); call.done();
            m[i] = m[o]; m[o].clear();
            REQUIRE(read(c[i]) == m[i] && read(c[o]).empty(), P_(12) | P_(18), "nested move assignment");
            REQUIRE(live().n == total(m[i]), P_(12) | P_(5), "nested move assignment: element count");
            break;
        }
        }
    }
};

template <class O, class I, class T, class E>
bool nest_run(u64 seed, int nops, int fk, long long k, int target, bool storm)
{
    bool fired;
    {
        Nest<O, I, T, E> x(seed, fk, k, target, storm);
        for (int s = 0; s < nops; ++s) x.one();
        fired = x.fired;
        G().armed = false;
    }
    set_fault(F_NONE, 0);
    end_case_new();
    REQUIRE(live().n == 0, P_(12) | P_(5), "inner elements outlive the outer container");
    return fired;
}

template <class O, class I, class T, class E>
void nest_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x77);
    const u64 q = n / NUSE;
    switch (q % 4)
    {
    case 0: nest_run<O, I, T, E>(seed, 10 + (int)r.below(30), F_NONE, 0, -1, false); break;
    case 1: nest_run<O, I, T, E>(seed, 10 + (int)r.below(30), F_NONE, 0, -1, true); break;
    default:
    {
        int fk = q % 4 == 2 ? F_ALLOC : F_ELEM;
        int pre = 1 + (int)r.below(9), tot = pre + 1 + (int)r.below(3);
        for (long long k = 1; k <= 60; ++k)
        {
            logf("--- history with %s %lld of operation %d failing", fk == F_ALLOC ? "allocation" : "element construction", k, pre);
            if (!nest_run<O, I, T, E>(seed, tot, fk, k, pre, false)) break;
            COV("fault points enumerated"); ++G().evaluations; commit_case();
        }
    }
    }
    end_case();
}

struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "build");
    G().mode_tags = P_(12);
    std::vector<Entry> es;
#if IN_PART(0)
    es.push_back({ "construct<SinkN>", &direct_case<SinkN, DefErr> });
    es.push_back({ "construct<InitN>", &direct_case<InitN, DefErr> });
    es.push_back({ "construct<InitC>", &direct_case<InitC, DefErr> });
    es.push_back({ "construct<InitN>/user-error", &direct_case<InitN, usr::Err> });
    es.push_back({ "assign<DstN>", &assign_case<DstN, DefErr> });
    es.push_back({ "assign<DstW>/user-error", &assign_case<DstW, usr::Err> });
#if VF_EX
    es.push_back({ "construct<SinkT>", &direct_case<SinkT, DefErr> });
    es.push_back({ "construct<SinkL>/user-error", &direct_case<SinkL, usr::Err> });
    es.push_back({ "construct<InitT>", &direct_case<InitT, DefErr> });
    es.push_back({ "assign<DstT>", &assign_case<DstT, DefErr> });
    es.push_back({ "assign<DstT>/user-error", &assign_case<DstT, usr::Err> });
#endif
#endif
#if IN_PART(1)
    es.push_back({ "routes<SinkN>", &route_case<SinkN, DefErr> });
    es.push_back({ "routes<InitC>", &route_case<InitC, DefErr> });
    es.push_back({ "routes<InitN>/user-error", &route_case<InitN, usr::Err> });
#if VF_EX
    es.push_back({ "routes<SinkT>", &route_case<SinkT, DefErr> });
    es.push_back({ "routes<SinkL>", &route_case<SinkL, DefErr> });
#endif
#endif
#if IN_PART(2)
#define NEST(O, I, T, E, name) { typedef nestl::no_exceptions::I<T> In; es.push_back({ name, &nest_case<nestl::no_exceptions::O<In>, In, T, E> }); }
    NEST(vector, vector, Elem, DefErr, "vector<vector<Elem>>")
    NEST(list, vector, Elem, usr::Err, "list<vector<Elem>>/user-error")
    NEST(vector, list, Two, DefErr, "vector<list<Two>>")
    NEST(list, list, Two, DefErr, "list<list<Two>>")
#endif
#if VF_EX && IN_PART(3)
#define NEST(O, I, T, E, name) { typedef nestl::no_exceptions::I<T> In; es.push_back({ name, &nest_case<nestl::no_exceptions::O<In>, In, T, E> }); }
    NEST(vector, vector, Thrower, DefErr, "vector<vector<Thrower>>")
    NEST(list, vector, CopyThrower, DefErr, "list<vector<CopyThrower>>")
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    NUSE = use.size();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
