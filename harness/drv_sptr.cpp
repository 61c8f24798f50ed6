// nestl::shared_ptr / weak_ptr: ownership graphs with objects that own and observe one another and that run further
// pointer operations from inside their own constructors and destructors. The model knows, for every pointer anywhere,
// which object it should designate; it is brought up to date just before each call, so every check - also one made
// inside a destructor - compares all pointers, counts, lifetimes and outstanding blocks with what they must be then.
#include "vf.hpp"
#include "newhook.hpp"
using namespace vf;

namespace
{
struct Base; struct Derived; struct Phased;
typedef nestl::shared_ptr<Base> SB;
typedef nestl::shared_ptr<Derived> SD;
typedef nestl::shared_ptr<const Base> SC;
typedef nestl::weak_ptr<Base> WB;
typedef nestl::weak_ptr<Derived> WD;

#if VF_EX
#define MAY_THROW noexcept(false)
#else
#define MAY_THROW noexcept
#endif

enum Kind { KSB, KSD, KSC, KWB, KWD, NKIND };
enum Life_ { CONSTRUCTING, LIVES, DYING, GONE };

struct SlotBase
{
    Kind kind; int target; SlotBase *prev, *next;
    explicit SlotBase(Kind k);
    void unlink();
private:
    SlotBase(const SlotBase&); SlotBase& operator=(const SlotBase&);
};
struct Obj { Base* base; Derived* derived; int state; };

// move-only construction argument
struct Tok
{
    int v;
    explicit Tok(int x) : v(x) {}
    Tok(Tok&& o) : v(o.v) { o.v = -1; }
private:
    Tok(const Tok&); Tok& operator=(const Tok&);
};

struct World
{
    Rng r; SlotBase* head; size_t nslots; std::vector<Obj> objs; int depth; int budget; bool scripts; int fmode;
    explicit World(u64 s) : r(s), head(nullptr), nslots(0), depth(0), budget(0), scripts(true), fmode(0) {}
    int count(int id) const { int n = 0; for (SlotBase* s = head; s; s = s->next) if (s->target == id && s->kind <= KSC) ++n; return n; }
    int weaks(int id) const { int n = 0; for (SlotBase* s = head; s; s = s->next) if (s->target == id && s->kind > KSC) ++n; return n; }
    SlotBase* pick(Kind k)
    {
        SlotBase* c[256]; size_t n = 0;
        for (SlotBase* s = head; s && n < 256; s = s->next) if (s->kind == k) c[n++] = s;
        return n ? c[r.below(n)] : nullptr;
    }
    // a pointer to take from: mostly one that designates something
    SlotBase* src(Kind k)
    {
        SlotBase* c[256]; size_t n = 0;
        if (r.chance(1, 5)) return pick(k);
        for (SlotBase* s = head; s && n < 256; s = s->next) if (s->kind == k && s->target >= 0) c[n++] = s;
        return n ? c[r.below(n)] : pick(k);
    }
    // a pointer to write to: often an empty one, so graphs grow
    SlotBase* dst(Kind k)
    {
        SlotBase* c[256]; size_t n = 0;
        if (r.chance(1, 2)) return pick(k);
        for (SlotBase* s = head; s && n < 256; s = s->next) if (s->kind == k && s->target < 0) c[n++] = s;
        return n ? c[r.below(n)] : pick(k);
    }
    void dying(int id);
    void born(Base* b, Derived* d, int id);
    void nested(const char* where, int id);
    void check(const char* what, u64 more = 0);
    void op();
    void about(int id);
};
World* W;

SlotBase::SlotBase(Kind k) : kind(k), target(-1), prev(nullptr), next(W->head) { if (next) next->prev = this; W->head = this; ++W->nslots; }
void SlotBase::unlink() { if (prev) prev->next = next; else W->head = next; if (next) next->prev = prev; target = -1; --W->nslots; }

template <class P> struct KindOf;
template <> struct KindOf<SB> { static const Kind k = KSB; };
template <> struct KindOf<SD> { static const Kind k = KSD; };
template <> struct KindOf<SC> { static const Kind k = KSC; };
template <> struct KindOf<WB> { static const Kind k = KWB; };
template <> struct KindOf<WD> { static const Kind k = KWD; };

// a pointer the model knows about; leaves the model just before the pointer itself is destroyed
template <class P>
struct Slot : SlotBase
{
    P p;
    Slot() : SlotBase(KindOf<P>::k) {}
    template <class A> Slot(int t, A&& a) : SlotBase((KindOf<P>::k)), p((target = t, std::forward<A>(a))) {}
    ~Slot() { unlink(); }
};

struct NCall { bool prev; NCall() : prev(G().armed) { G().armed = true; ++G().ops; } ~NCall() { G().armed = prev; } };

struct Life : Core
{
    explicit Life(int id) : Core(id, 0) {}
    Life() : Core(-1, 0) {}
    ~Life() { check("shared object destruction"); if (key >= 0) W->objs[(size_t)key].state = GONE; }
};

// destructor deliberately not virtual: the pointer group must remember the real type
struct Base : Life
{
    Slot<SB> kid[2]; Slot<WB> back[2]; int a, b;
    Base() noexcept : a(0), b(0) {}
    Base(int id, int& lv, Tok&& t) MAY_THROW : Life(id), a(lv), b(t.v) { ++lv; Tok taken(std::move(t)); W->born(this, nullptr, id); boom(nullptr); }
    Base(int id, int x, bool) : Life(id), a(x), b(x) {}
    ~Base() { if (key >= 0) W->dying(key); }
};
struct Pad { long x[3]; Pad() { x[0] = x[1] = x[2] = 0x5151; } virtual ~Pad() {} virtual long sum() const { return x[0]; } };
struct Derived : Pad, Base
{
    Slot<SD> dk; Slot<WD> dw; Slot<SC> ck;
    Derived(int id, int& lv, Tok&& t) MAY_THROW : Base(id, lv, false) { b = t.v; ++lv; Tok taken(std::move(t)); W->born(this, this, id); boom(nullptr); }
    ~Derived()
    {
        if (x[0] != 0x5151 || x[2] != 0x5151) violation(P_(10) | P_(5), "bytes inside a shared object were overwritten");
        W->dying(key);
    }
};
// needs a block the default allocator does not promise; only made with one that does
struct alignas(64) Vast : Base
{
    char pad[70];
    Vast(int id, int& lv, Tok&& t) MAY_THROW : Base(id, lv, std::move(t)) { aligned(); std::memset(pad, 9, sizeof pad); }
    ~Vast() { aligned(); for (size_t i = 0; i < sizeof pad; ++i) if (pad[i] != 9) violation(P_(10) | P_(5) | P_(6), "bytes inside a shared object were overwritten"); W->dying(key); }
    void aligned() const { if ((std::uintptr_t)this % 64) violation(P_(5) | P_(6), "object of a 64-byte aligned type placed at %p", (const void*)this); COV("over-aligned shared objects"); }
};
// default construction plus an initialisation step that may fail
struct alignas(16) Phased : Base
{
    char pad[40];
    Phased() noexcept { std::memset(pad, 7, sizeof pad); if ((std::uintptr_t)this % 16) violation(P_(5) | P_(6), "shared object misaligned"); }
    ~Phased() { if (key >= 0) W->dying(key); }
};
} // namespace

namespace nestl
{
template <>
struct two_phase_initializator<Phased>
{
    template <typename OperationError>
    static void init(OperationError& err, Phased& d, int id, int& lv, Tok&& t) NESTL_NOEXCEPT_SPEC
    {
        d.check("two-phase init");
        d.a = lv; d.b = t.v; d.key = id; ++lv; Tok taken(std::move(t));
        W->born(&d, nullptr, id);
        if (tick(F_ELEM, nullptr)) { set_elem_error(err, G().fault_id); return; }
    }
};
}

namespace
{
void World::born(Base* b, Derived* d, int id)
{
    Obj& o = objs[(size_t)id];
    o.base = b; o.derived = d;
    nested("constructor", id);
}
void World::dying(int id)
{
    Obj& o = objs[(size_t)id];
    if (o.state == DYING) { nested("base destructor", id); return; }
    u64 t = P_(10) | P_(5);
    if (o.state == GONE) violation(t, "shared object %d destroyed twice", id);
    if (o.state == LIVES)
    {
        COV("shared objects destroyed");
        int n = count(id);
        REQUIRE(n == 0, t, "shared object %d destroyed while it has %d owners", id, n);
    }
    else COV("half-built objects destroyed");
    o.state = DYING;
    nested("destructor", id);
}
void World::nested(const char* where, int id)
{
    bool prev = G().armed; G().armed = false;
    if (scripts && depth < 5 && budget > 0)
    {
        ++depth;
        check(where);
        int n = (int)r.below(4);
        for (int i = 0; i < n; ++i) { --budget; logf("%*s[in the %s of object %d]", depth * 2, "", where, id); COV("operations inside constructors or destructors"); if (r.chance(1, 2)) about(id); else op(); }
        --depth;
    }
    G().armed = prev;
}
template <class T> void strong(const World& w, const char* what, const T* got, const T* want, long uses, bool truth, bool uniq, int target, u64 more)
{
    REQUIRE(got == want, P_(10) | more, "%s: a pointer designates %p, it should designate %p (object %d)", what, (const void*)got, (const void*)want, target);
    long n = target < 0 ? 0 : w.count(target);
    REQUIRE(uses == n, P_(10) | more, "%s: use_count is %ld, object %d has %ld owners", what, uses, target, n);
    REQUIRE(truth == (target >= 0) && uniq == (n == 1), P_(10) | more, "%s: truth value %d / unique %d with %ld owners", what, (int)truth, (int)uniq, n);
    obs((u64)uses * 64 + (u64)(target + 1));
}
void World::check(const char* what, u64 more)
{
    COV("whole-graph checks"); if (depth) COV("whole-graph checks inside a constructor or destructor");
    u64 h = 0; int cyc = 0;
    for (SlotBase* s = head; s; s = s->next)
    {
        int t = s->target;
        if (t >= 0 && s->kind <= KSC) REQUIRE(objs[(size_t)t].state == LIVES, P_(10) | more, "%s: a pointer owns object %d which is not alive", what, t);
        Base* b = t < 0 ? nullptr : objs[(size_t)t].base; Derived* d = t < 0 ? nullptr : objs[(size_t)t].derived;
        switch (s->kind)
        {
        case KSB: { SB& p = static_cast<Slot<SB>*>(s)->p; strong<Base>(*this, what, p.get(), b, p.use_count(), bool(p), p.unique(), t, more); break; }
        case KSD: { SD& p = static_cast<Slot<SD>*>(s)->p; strong<Derived>(*this, what, p.get(), d, p.use_count(), bool(p), p.unique(), t, more); break; }
        case KSC: { const SC& p = static_cast<Slot<SC>*>(s)->p; strong<Base>(*this, what, p.get(), b, p.use_count(), bool(p), p.unique(), t, more); if (b) { (*p).check("shared object read"); REQUIRE(p.operator->() == b, P_(10), "operator->"); } break; }
        case KWB: case KWD:
        {
            long uses; bool ex;
            if (s->kind == KWB) { const WB& p = static_cast<Slot<WB>*>(s)->p; uses = p.use_count(); ex = p.expired(); }
            else { const WD& p = static_cast<Slot<WD>*>(s)->p; uses = p.use_count(); ex = p.expired(); }
            long n = t < 0 ? 0 : count(t);
            REQUIRE(uses == n && ex == (n == 0), P_(11) | more, "%s: weak pointer to object %d says use_count %ld expired %d, it has %ld owners", what, t, uses, (int)ex, n);
            if (t >= 0 && n == 0) ++cyc;
            break;
        }
        default: break;
        }
        if (t >= 0) h = h * 131 + (u64)s->kind * 7 + (u64)count(t) + 1;
    }
    size_t held = 0, alive = 0;
    for (size_t i = 0; i < objs.size(); ++i)
    {
        int st = objs[i].state; int n = st == GONE ? 0 : count((int)i);
        if (st == LIVES) REQUIRE(n > 0, P_(10) | P_(5) | more, "%s: object %zu is still alive although nobody owns it", what, i);
        if (st != GONE) ++alive;
        if (st != GONE || weaks((int)i) > 0) ++held;
    }
    REQUIRE(live().n == alive, P_(5) | P_(10) | more, "%s: %zu objects alive, the model has %zu", what, (size_t)live().n, alive);
    REQUIRE(all_outstanding() == held, P_(11) | P_(6) | more, "%s: %zu blocks outstanding, %zu pointer groups have owners or observers", what, (size_t)all_outstanding(), held);
    obs(alive * 1000 + held);
    sig(mix2(h, mix2((u64)depth * 100 + (u64)cyc, hash(what))));
}

typedef nestl::default_operation_error Err0;
typedef usr::Err Err1;

// create an object; the result is handed over through `t`, an empty temporary slot
template <class T, class E, class P>
void make(Slot<P>& t, int how)
{
    State& g = G(); World& w = *W;
    int id = (int)w.objs.size();
    Obj o = { nullptr, nullptr, CONSTRUCTING };
    int arena = 1 + (int)w.r.below(3);
    bool fault = g.fk == F_NONE && w.depth == 0 && w.fmode && w.r.chance(1, 3);
    int fk = w.fmode == 3 ? (w.r.chance(1, 2) ? F_ALLOC : F_ELEM) : w.fmode;
#if !VF_EX
    if (fk == F_ELEM && !std::is_same<T, Phased>::value) fault = false;
#endif
    if (g.fk != F_NONE) return; // nested in a construction that is to fail
    w.objs.push_back(o);
    Tok tok(id + 500); int lv = id + 9000; E err;
    if (fault) set_fault(fk, 1);
    nestl::shared_ptr<T> got;
    {
        NCall c;
        if (how == 0) { Alloc<T> a(arena); nestl::shared_ptr<T> s(nestl::make_shared_a_nothrow<T>(err, a, (int)id, lv, std::move(tok))); got.swap(s); }
        else { nestl::shared_ptr<T> s(nestl::make_shared_nothrow<T>(err, (int)id, lv, std::move(tok))); got.swap(s); }
    }
    if (fault) g.countdown = 0;
    if (!fault) { g.fired = false; }
    ErrInfo info = check_err(err, P_(10), "make_shared");
    check_sets(err, info.cat != 0);
    bool fired = fault && g.fired;
    set_fault(F_NONE, 0);
    if (info.cat)
    {
        COV("failed creations judged");
        u64 tg = fk == F_ALLOC ? P_(7) : P_(8);
        REQUIRE(!got && got.get() == nullptr && got.use_count() == 0, tg | P_(10), "failed creation returned a non-empty pointer");
        if (fk == F_ALLOC) REQUIRE(tok.v == id + 500 && lv == id + 9000, tg, "allocation failed but the construction arguments were used");
        w.objs[(size_t)id].state = GONE;
        // the failed object must be gone and its block returned; no pointer may have picked it up
        w.check("failed creation", tg);
        return;
    }
    (void)fired;
    REQUIRE(got && got.use_count() == 1 && got.unique(), P_(10), "new object does not have exactly one owner");
    Obj& rec = w.objs[(size_t)id];
    REQUIRE(static_cast<Base*>(got.get()) == rec.base, P_(10) | P_(12), "new pointer does not designate the new object");
    REQUIRE(got->a == id + 9000 && got->b == id + 500 && lv == id + 9001 && tok.v == -1, P_(12), "construction arguments were not forwarded");
    got->check("new shared object");
    rec.state = LIVES;
    t.target = id;
    // the pool pointer type may differ from the created type: convert, then drop the original
    { NCall c; t.p = std::move(got); }
    REQUIRE(!got && got.get() == nullptr, P_(18) | P_(10), "moved-from pointer is not empty");
}

template <class P, class Q> void copy_assign(SlotBase* d, SlotBase* s, const char* what)
{
    Slot<P>& a = *static_cast<Slot<P>*>(d); Slot<Q>& b = *static_cast<Slot<Q>*>(s);
    logf("%s  o%d := o%d", what, d->target, s->target);
    a.target = b.target;
    NCall c; a.p = b.p;
}
template <class P, class Q> void move_assign(SlotBase* d, SlotBase* s, const char* what)
{
    Slot<P>& a = *static_cast<Slot<P>*>(d); Slot<Q>& b = *static_cast<Slot<Q>*>(s);
    if (d == s) return;
    logf("%s  o%d := move o%d", what, d->target, s->target);
    a.target = b.target; b.target = -1;
    NCall c; a.p = std::move(b.p);
}
// self move: either keeps or drops its object; a witness keeps the object alive meanwhile
template <class P> void self_move(SlotBase* s, const char* what)
{
    Slot<P>& a = *static_cast<Slot<P>*>(s); int t = a.target;
    logf("%s self-move o%d", what, t); COV("self move");
    Slot<P> wit(t, a.p);
    { NCall c; P& self = a.p; a.p = std::move(self); }
    if (t >= 0 && wit.p.use_count() != W->count(t)) a.target = -1;
}
void self_move_weak(SlotBase* s)
{
    Slot<WB>& a = *static_cast<Slot<WB>*>(s); int t = a.target;
    logf("weak self-move o%d", t); COV("self move");
    Slot<WB> wit(t, a.p);
    { NCall c; WB& self = a.p; a.p = std::move(self); }
    if (t >= 0 && W->count(t) > 0) { if (a.p.expired()) a.target = -1; }
    else if (t >= 0)
    {
        // kept or dropped cannot be told apart by the interface: settle it
        NCall c; a.target = -1; a.p.reset();
    }
}
template <class P> void swap_slots(SlotBase* x, SlotBase* y, bool viastd)
{
    Slot<P>& a = *static_cast<Slot<P>*>(x); Slot<P>& b = *static_cast<Slot<P>*>(y);
    logf("swap o%d o%d", a.target, b.target);
    Counters before = G().ev;
    { NCall c; if (viastd) std::swap(a.p, b.p); else a.p.swap(b.p); }
    std::swap(a.target, b.target);
    Counters e = G().ev;
    REQUIRE(e.make == before.make && e.copy == before.copy && e.move == before.move && e.destroy == before.destroy && e.alloc == before.alloc && e.dealloc == before.dealloc, P_(18), "swapping pointers touched objects or storage");
}
// pointers constructed as temporaries, living through further operations
template <class P, class Q> void temp_copy(SlotBase* s, const char* what)
{
    Slot<Q>& b = *static_cast<Slot<Q>*>(s);
    logf("%s copy of o%d", what, b.target);
    bool prev = G().armed; G().armed = true;
    Slot<P> t(b.target, b.p);
    G().armed = prev; ++G().ops;
    W->check(what);
    if (W->depth < 4 && W->budget > 0) { --W->budget; ++W->depth; W->op(); --W->depth; }
    logf("%s temporary goes away (o%d)", what, t.target);
}
template <class P> void temp_move(SlotBase* s, const char* what, bool back)
{
    Slot<P>& b = *static_cast<Slot<P>*>(s); int id = b.target;
    logf("%s move out of o%d%s", what, id, back ? " and back" : "");
    Counters before = G().ev;
    b.target = -1;
    Slot<P> t(id, std::move(b.p));
    ++G().ops;
    REQUIRE(G().ev.destroy == before.destroy && G().ev.dealloc == before.dealloc, P_(18), "moving a pointer touched its object");
    W->check(what, P_(18));
    if (back) { int x = t.target; t.target = -1; b.target = x; NCall c; b.p = std::move(t.p); }
    W->check(what, P_(18));
}

template <class S, class V> void lock_into(SlotBase* d, SlotBase* s, bool temp)
{
    Slot<V>& w = *static_cast<Slot<V>*>(s); int id = w.target; bool any = id >= 0 && W->count(id) > 0;
    COVD(any ? "lock of a live object" : id >= 0 ? "lock of an expired pointer" : "lock of an empty pointer");
    if (id >= 0 && W->objs[(size_t)id].state == DYING) COV("lock during the object's destructor");
    logf("lock o%d (%s)", id, any ? "owned" : "expired");
    if (temp)
    {
        Slot<S> t(any ? id : -1, w.p.lock());
        REQUIRE(any == bool(t.p), P_(11), "lock of a %s pointer returned %s pointer", any ? "live" : "expired", t.p ? "an owning" : "an empty");
        W->check("lock", P_(11));
    }
    else
    {
        Slot<S>& a = *static_cast<Slot<S>*>(d);
        a.target = any ? id : -1;
        NCall c; a.p = w.p.lock();
    }
}

void World::op()
{
    SlotBase *a, *b;
    unsigned k = (unsigned)r.below(56);
    switch (k)
    {
    case 0: case 1: case 2: case 3: { logf("make plain"); COV("make"); Slot<SB> t; int how = (int)r.below(2); if (r.chance(1, 4)) { if (r.chance(1, 2)) make<Vast, Err0>(t, 0); else make<Vast, Err1>(t, 0); } else if (r.chance(1, 2)) make<Base, Err0>(t, how); else make<Base, Err1>(t, how); check("make"); move_assign<SB, SB>(dst(KSB), &t, "assign new"); break; }
    case 4: case 5: { logf("make derived"); COV("make"); Slot<SD> t; make<Derived, Err0>(t, (int)r.below(2)); check("make"); move_assign<SD, SD>(dst(KSD), &t, "assign new"); break; }
    case 6: { logf("make derived as base"); COV("make"); Slot<SB> t; make<Derived, Err1>(t, (int)r.below(2)); check("make"); copy_assign<SB, SB>(dst(KSB), &t, "copy new"); break; }
    case 7: case 8: { logf("make phased"); COV("make"); Slot<SB> t; if (r.chance(1, 2)) make<Phased, Err0>(t, (int)r.below(2)); else make<Phased, Err1>(t, 0); check("make"); move_assign<SB, SB>(dst(KSB), &t, "assign new"); break; }
    case 9: { COV("make"); Slot<SC> t; make<Derived, Err0>(t, 0); move_assign<SC, SC>(dst(KSC), &t, "assign new const"); break; }
    case 10: case 11: case 12: case 13: COV("copy assign"); { SlotBase* x_ = dst(KSB); SlotBase* y_ = src(KSB); copy_assign<SB, SB>(x_, y_, "copy"); } break;
    case 14: COV("copy assign"); { SlotBase* x_ = dst(KSD); SlotBase* y_ = src(KSD); copy_assign<SD, SD>(x_, y_, "copy"); } break;
    case 15: COV("copy assign"); { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSC); copy_assign<SC, SC>(x_, y_, "copy"); } break;
    case 16: case 17: COV("converting copy assign"); { SlotBase* x_ = dst(KSB); SlotBase* y_ = src(KSD); copy_assign<SB, SD>(x_, y_, "converting copy"); } break;
    case 18: COV("converting copy assign"); if (r.chance(1, 2)) { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSB); copy_assign<SC, SB>(x_, y_, "converting copy"); } else { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSD); copy_assign<SC, SD>(x_, y_, "converting copy"); } break;
    case 19: case 20: case 21: COV("move assign"); { SlotBase* x_ = dst(KSB); SlotBase* y_ = src(KSB); move_assign<SB, SB>(x_, y_, "move"); } break;
    case 22: COV("move assign"); if (r.chance(1, 2)) { SlotBase* x_ = dst(KSD); SlotBase* y_ = src(KSD); move_assign<SD, SD>(x_, y_, "move"); } else { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSC); move_assign<SC, SC>(x_, y_, "move"); } break;
    case 23: COV("converting move assign"); switch (r.below(3)) { case 0: { SlotBase* x_ = dst(KSB); SlotBase* y_ = src(KSD); move_assign<SB, SD>(x_, y_, "converting move"); } break; case 1: { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSB); move_assign<SC, SB>(x_, y_, "converting move"); } break; default: { SlotBase* x_ = dst(KSC); SlotBase* y_ = src(KSD); move_assign<SC, SD>(x_, y_, "converting move"); } } break;
    case 24: self_move<SB>(src(KSB), "strong"); break;
    case 25: if (r.chance(1, 2)) self_move<SD>(src(KSD), "strong"); else self_move_weak(src(KWB)); break;
    case 26: { COV("self copy"); SlotBase* s = src(KSB); copy_assign<SB, SB>(s, s, "self copy"); s = src(KWB); copy_assign<WB, WB>(s, s, "weak self copy"); break; }
    case 27: case 28: case 29: { a = pick(KSB); logf("reset o%d", a->target); COV("reset"); a->target = -1; NCall c; if (r.chance(1, 3)) static_cast<Slot<SB>*>(a)->p = nullptr; else static_cast<Slot<SB>*>(a)->p.reset(); break; }
    case 30: { a = pick(KSD); logf("reset derived o%d", a->target); COV("reset"); a->target = -1; NCall c; static_cast<Slot<SD>*>(a)->p.reset(); break; }
    case 31: { a = pick(KSC); logf("reset const o%d", a->target); COV("reset"); a->target = -1; NCall c; static_cast<Slot<SC>*>(a)->p = SC(nullptr); break; }
    case 32: case 33: COV("swap"); { SlotBase* x_ = pick(KSB); SlotBase* y_ = pick(KSB); swap_slots<SB>(x_, y_, r.chance(1, 3)); } break;
    case 34: COV("swap"); if (r.chance(1, 2)) { SlotBase* x_ = pick(KSD); SlotBase* y_ = pick(KSD); swap_slots<SD>(x_, y_, false); } else { SlotBase* x_ = pick(KSC); SlotBase* y_ = pick(KSC); swap_slots<SC>(x_, y_, true); } break;
    case 35: COV("copy construct"); temp_copy<SB, SB>(src(KSB), "temporary"); break;
    case 36: COV("converting construct"); if (r.chance(1, 2)) temp_copy<SB, SD>(src(KSD), "temporary"); else temp_copy<SC, SD>(src(KSD), "temporary"); break;
    case 37: COV("copy construct"); if (r.chance(1, 2)) temp_copy<SD, SD>(src(KSD), "temporary"); else temp_copy<SC, SB>(src(KSB), "temporary"); break;
    case 38: COV("move construct"); switch (r.below(3)) { case 0: { SlotBase* x_ = src(KSB); temp_move<SB>(x_, "strong", r.chance(1, 2)); } break; case 1: { SlotBase* x_ = src(KSD); temp_move<SD>(x_, "strong", r.chance(1, 2)); } break; default: { SlotBase* x_ = src(KWB); temp_move<WB>(x_, "weak", r.chance(1, 2)); } } break;
    case 39: case 40: case 41: COV("observe"); { SlotBase* x_ = dst(KWB); SlotBase* y_ = src(KSB); copy_assign<WB, SB>(x_, y_, "observe"); } break;
    case 42: COV("observe"); if (r.chance(1, 2)) { SlotBase* x_ = dst(KWD); SlotBase* y_ = src(KSD); copy_assign<WD, SD>(x_, y_, "observe"); } else { SlotBase* x_ = dst(KWB); SlotBase* y_ = src(KSD); copy_assign<WB, SD>(x_, y_, "observe base"); } break;
    case 43: COV("weak copy assign"); { SlotBase* x_ = dst(KWB); SlotBase* y_ = src(KWB); copy_assign<WB, WB>(x_, y_, "weak copy"); } { SlotBase* x_ = dst(KWD); SlotBase* y_ = src(KWD); copy_assign<WD, WD>(x_, y_, "weak copy"); } break;
    case 44: case 45: COV("weak move assign"); if (r.chance(2, 3)) { SlotBase* x_ = dst(KWB); SlotBase* y_ = src(KWB); move_assign<WB, WB>(x_, y_, "weak move"); } else { SlotBase* x_ = dst(KWD); SlotBase* y_ = src(KWD); move_assign<WD, WD>(x_, y_, "weak move"); } break;
    case 46: COV("weak construct"); switch (r.below(4)) { case 0: temp_copy<WB, SB>(src(KSB), "weak temporary"); break; case 1: temp_copy<WB, WB>(src(KWB), "weak temporary"); break; case 2: temp_copy<WD, SD>(src(KSD), "weak temporary"); break; default: temp_copy<WD, WD>(src(KWD), "weak temporary"); } break;
    case 47: case 48: { a = pick(KWB); logf("weak reset o%d", a->target); COV("weak reset"); a->target = -1; NCall c; static_cast<Slot<WB>*>(a)->p.reset(); break; }
    case 49: { a = pick(KWD); logf("weak reset o%d", a->target); COV("weak reset"); a->target = -1; NCall c; static_cast<Slot<WD>*>(a)->p.reset(); break; }
    case 50: case 51: { SlotBase* x_ = dst(KSB); SlotBase* y_ = src(KWB); lock_into<SB, WB>(x_, y_, false); } break;
    case 52: lock_into<SB, WB>(nullptr, src(KWB), true); break;
    case 53: if (r.chance(1, 2)) { SlotBase* x_ = dst(KSD); SlotBase* y_ = src(KWD); lock_into<SD, WD>(x_, y_, false); } else lock_into<SD, WD>(nullptr, src(KWD), true); break;
    case 54:
    {
        // an object that comes to own or observe itself or its owner's pointer
        a = src(KSB); if (a->target < 0) break;
        Base* o = objs[(size_t)a->target].base;
        if (r.chance(1, 2)) { COV("object observes itself"); copy_assign<WB, SB>(&o->back[r.below(2)], a, "self observe"); }
        else { COV("pointer assigned from inside its own object"); SlotBase* in = &o->kid[r.below(2)]; if (r.chance(1, 2)) copy_assign<SB, SB>(a, in, "advance"); else move_assign<SB, SB>(a, in, "advance"); }
        break;
    }
    case 55:
    {
        a = src(KSB); b = src(KSB); if (a->target < 0 || a->target == b->target) break;
        Base* o = objs[(size_t)a->target].base; COV("link");
        copy_assign<SB, SB>(&o->kid[r.below(2)], b, "link");
        break;
    }
    }
    // (moves and swaps)
    const bool moved = (k >= 19 && k <= 25) || (k >= 32 && k <= 34) || k == 38 || k == 44 || k == 45;
    check(moved ? "transfer" : "operation", moved ? P_(18) : 0);
}

// an operation on a pointer that observes, or is stored in, this very object (which is being built or destroyed)
void World::about(int id)
{
    SlotBase *c[64]; size_t n = 0;
    for (SlotBase* s = head; s && n < 64; s = s->next) if (s->target == id && s->kind == KWB) c[n++] = s;
    Base* self = objs[(size_t)id].base;
    if (n && r.chance(2, 3))
    {
        SlotBase* w = c[r.below(n)];
        COV("operations on observers of the object under destruction");
        switch (r.below(6))
        {
        case 0: lock_into<SB, WB>(pick(KSB), w, false); break;
        case 1: lock_into<SB, WB>(nullptr, w, true); break;
        case 2: copy_assign<WB, WB>(pick(KWB), w, "copy observer"); break;
        case 3: move_assign<WB, WB>(pick(KWB), w, "move observer"); break;
        case 4: { w->target = -1; logf("drop observer"); NCall k; static_cast<Slot<WB>*>(w)->p.reset(); break; }
        default: temp_copy<WB, WB>(w, "observer temporary"); break;
        }
    }
    else if (self)
    {
        COV("operations on members of the object under construction or destruction");
        SlotBase* k = &self->kid[r.below(2)];
        switch (r.below(5))
        {
        case 0: copy_assign<SB, SB>(k, src(KSB), "own"); break;
        case 1: move_assign<SB, SB>(pick(KSB), k, "give away"); break;
        case 2: { logf("drop member o%d", k->target); k->target = -1; NCall n2; static_cast<Slot<SB>*>(k)->p.reset(); break; }
        case 3: { SlotBase* x_ = &self->back[r.below(2)]; SlotBase* y_ = src(KSB); copy_assign<WB, SB>(x_, y_, "observe"); } break;
        default: swap_slots<SB>(k, pick(KSB), false); break;
        }
    }
    check("operation about the object itself");
}

// an object with two base parts of one type: pointers of one group that designate different addresses
struct Node { int mark; };
struct Left : Node { int l; };
struct Right : Node { long pad; int r; };
struct Twin : Core, Left, Right
{
    Twin(int id) MAY_THROW : Core(id, 0) { Left::mark = id * 2; Right::mark = id * 2 + 1; boom(nullptr); }
    ~Twin() { check("twin destruction"); }
};
template <class P> struct TP { P p; int id, side; TP() : p(), id(-1), side(0) {} };
struct Twins
{
    typedef nestl::shared_ptr<Node> SN; typedef nestl::weak_ptr<Node> WN; typedef nestl::weak_ptr<Left> WL; typedef nestl::weak_ptr<Right> WR;
    TP<nestl::shared_ptr<Twin>> tw[3]; TP<SN> n[4]; TP<nestl::shared_ptr<Left>> l[2]; TP<nestl::shared_ptr<Right>> rr[2];
    TP<WN> wn[4]; TP<WL> wl[2]; TP<WR> wr[2];
    std::vector<Twin*> objs; Rng r;
    explicit Twins(u64 s) : r(s) {}
    template <class A, size_t N> static int cnt(const A (&a)[N], int id) { int c = 0; for (size_t i = 0; i < N; ++i) c += a[i].id == id; return c; }
    int owners(int id) const { return cnt(tw, id) + cnt(n, id) + cnt(l, id) + cnt(rr, id); }
    int watchers(int id) const { return cnt(wn, id) + cnt(wl, id) + cnt(wr, id); }
    Node* part(int id, int side) const { return id < 0 ? nullptr : side ? static_cast<Node*>(static_cast<Right*>(objs[(size_t)id])) : static_cast<Node*>(static_cast<Left*>(objs[(size_t)id])); }
    template <class A> void one(const A& s, const void* want, const char* what) const
    {
        REQUIRE((const void*)s.p.get() == want, P_(10), "%s: a pointer designates %p, it should designate %p (part %d of object %d)", what, (const void*)s.p.get(), want, s.side, s.id);
        long o = s.id < 0 ? 0 : owners(s.id);
        REQUIRE(s.p.use_count() == o && bool(s.p) == (s.id >= 0), P_(10), "%s: use_count %ld, %ld owners", what, s.p.use_count(), o);
    }
    template <class A> void seen(A& s, const char* what)
    {
        int o = s.id < 0 ? 0 : owners(s.id);
        REQUIRE(s.p.use_count() == o && s.p.expired() == (o == 0), P_(11), "%s: weak pointer says use_count %ld, there are %d owners", what, s.p.use_count(), o);
        auto k = s.p.lock();
        const void* want = o ? (const void*)part(s.id, s.side) : nullptr;
        COV("twin locks");
        REQUIRE((const void*)static_cast<Node*>(k.get()) == want, P_(11) | P_(10), "%s: lock designates %p, the pointer assigned last designated %p (part %d of object %d)", what, (const void*)k.get(), want, s.side, s.id);
        REQUIRE(k.use_count() == (o ? o + 1 : 0), P_(11) | P_(10), "%s: after lock use_count is %ld with %d other owners", what, k.use_count(), o);
        if (o) { Node* q = k.get(); REQUIRE(q->mark == s.id * 2 + s.side, P_(11) | P_(5), "%s: lock reached another part of the object", what); }
    }
    void check(const char* what)
    {
        for (auto& s : tw) one(s, s.id < 0 ? nullptr : (const void*)objs[(size_t)s.id], what);
        for (auto& s : n) { one(s, part(s.id, s.side), what); if (s.p) REQUIRE(s.p->mark == s.id * 2 + s.side, P_(10) | P_(5), "%s: wrong part", what); }
        for (auto& s : l) one(s, s.id < 0 ? nullptr : (const void*)static_cast<Left*>(objs[(size_t)s.id]), what);
        for (auto& s : rr) one(s, s.id < 0 ? nullptr : (const void*)static_cast<Right*>(objs[(size_t)s.id]), what);
        for (auto& s : wn) seen(s, what);
        for (auto& s : wl) seen(s, what);
        for (auto& s : wr) seen(s, what);
        size_t alive = 0, held = 0;
        for (size_t i = 0; i < objs.size(); ++i) { bool o = owners((int)i) > 0; alive += o; held += o || watchers((int)i) > 0; }
        REQUIRE(live().n == alive, P_(5) | P_(10), "%s: %zu objects alive, the model has %zu", what, (size_t)live().n, alive);
        REQUIRE(all_outstanding() == held, P_(11) | P_(6), "%s: %zu blocks outstanding, %zu groups", what, (size_t)all_outstanding(), held);
        obs(alive * 100 + held);
    }
    template <class A, class B> void put(A& a, B& b, int side, const char* what)
    {
        logf("twins: %s  o%d/%d := o%d/%d", what, a.id, a.side, b.id, side);
        if (a.id >= 0 && a.id == b.id && a.side != side) COV("group pointers reassigned to another part of the same object");
        a.id = b.id; a.side = side;
        NCall c; a.p = b.p;
    }
    template <class A, class B> void give(A& a, B& b, int side, const char* what)
    {
        if ((const void*)&a == (const void*)&b) return;
        logf("twins: %s  o%d/%d := move o%d/%d", what, a.id, a.side, b.id, side);
        a.id = b.id; a.side = side; b.id = -1;
        NCall c; a.p = std::move(b.p);
    }
    template <class A> void trade(A& a, A& b) { logf("twins: swap o%d/%d o%d/%d", a.id, a.side, b.id, b.side); { NCall c; a.p.swap(b.p); } std::swap(a.id, b.id); std::swap(a.side, b.side); }
    template <class A> void drop(A& a) { logf("twins: drop o%d/%d", a.id, a.side); a.id = -1; NCall c; a.p.reset(); }
    void op()
    {
        unsigned k = (unsigned)r.below(22);
        auto &t = tw[r.below(3)]; auto &x = n[r.below(4)], &y = n[r.below(4)]; auto &a = l[r.below(2)], &a2 = l[r.below(2)]; auto &b = rr[r.below(2)], &b2 = rr[r.below(2)];
        auto &u = wn[r.below(4)], &v = wn[r.below(4)]; auto &ul = wl[r.below(2)]; auto &ur = wr[r.below(2)];
        switch (k)
        {
        case 0: case 1:
        {
            int id = (int)objs.size(); Err0 e;
            nestl::shared_ptr<Twin> s; { NCall c; nestl::shared_ptr<Twin> m(nestl::make_shared_nothrow<Twin>(e, id)); s.swap(m); }
            if (e || !s) violation(P_(10), "creation failed without a reason");
            objs.push_back(s.get());
            logf("twins: new o%d", id);
            t.id = id; { NCall c; t.p = s; s.reset(); }
            break;
        }
        case 2: put(a, t, 0, "left of"); break;
        case 3: put(b, t, 1, "right of"); break;
        case 4: case 5: put(x, a, 0, "node of left"); break;
        case 6: case 7: put(x, b, 1, "node of right"); break;
        case 8: put(x, y, y.side, "node copy"); break;
        case 9: give(x, y, y.side, "node move"); break;
        case 10: give(x, a, 0, "node from moved left"); break;
        case 11: give(x, b, 1, "node from moved right"); break;
        case 12: trade(x, y); break;
        case 13: case 14: put(u, x, x.side, "observe node"); break;
        case 15: case 16: put(u, v, v.side, "observer copy"); break;
        case 17: give(u, v, v.side, "observer move"); break;
        case 18: if (r.chance(1, 2)) put(ul, a, 0, "observe left"); else put(ur, b, 1, "observe right"); break;
        case 19: switch (r.below(6)) { case 0: drop(t); break; case 1: drop(x); break; case 2: drop(a); break; case 3: drop(b); break; case 4: drop(u); break; default: drop(ul); } break;
        case 20:
        {
            TP<SN> q; q.id = y.id; q.side = y.side; { NCall c; SN s(y.p); q.p.swap(s); }
            if (r.chance(1, 2)) { put(x, q, q.side, "node from a copy"); } else { put(u, q, q.side, "observer from a copy"); }
            break;
        }
        default: if (r.chance(1, 2)) put(a, a2, 0, "left copy"); else put(b, b2, 1, "right copy"); break;
        }
        check("twin operation");
    }
};
void do_twins(const Options& o, u64 num)
{
    begin_case(num, "two-part objects");
    {
        Twins w(mix2(o.seed * 1000003 + 79, num));
        int steps = 20 + (int)w.r.below(120);
        for (int i = 0; i < steps; ++i) w.op();
    }
    REQUIRE(live().n == 0 && all_outstanding() == 0, P_(10) | P_(5) | P_(6), "objects or blocks are left when every pointer is gone");
    end_case_new();
    end_case();
}

// one object with very many owners and observers
struct Crowded : Core { explicit Crowded(int id) MAY_THROW : Core(id, 0) { boom(nullptr); } ~Crowded() { check("crowd destruction"); } };
void do_crowd(const Options& o, u64 num)
{
    begin_case(num, "many owners and observers", 120);
    {
        Rng r(mix2(o.seed * 1000003 + 83, num));
        typedef nestl::shared_ptr<Crowded> S; typedef nestl::weak_ptr<Crowded> V;
        auto amount = [&]() -> size_t { switch (r.below(5)) { case 0: return r.below(4); case 1: return 100 + r.below(400); case 2: return 32500 + r.below(600); case 3: return 65300 + r.below(600); default: return r.chance(1, 2) ? 1 + r.below(60000) : 66000 + r.below(6000); } };
        size_t no = amount(), nw = amount(); if (!no) no = 1;
        logf("one object, %zu owners, %zu observers", no, nw); COV("crowds of owners"); if (no > 65536 || nw > 65536) COV("crowds larger than 65536");
        std::vector<S> own; std::vector<V> see; own.reserve(no + 1); see.reserve(nw + 1);
        Err0 e;
        { NCall c; S m(nestl::make_shared_nothrow<Crowded>(e, 7)); own.push_back(std::move(m)); }
        if (e || !own[0]) violation(P_(10), "creation failed without a reason");
        Crowded* raw = own[0].get();
        // owners and observers come from one another in all the ways there are
        size_t io = 1, iw = 0, step = 0;
        auto judge = [&](const char* what)
        {
            long n = (long)own.size();
            if (n)
            {
                const S& p = own[r.below((u64)n)];
                REQUIRE(p.get() == raw && p.use_count() == n && p.unique() == (n == 1), P_(10), "%s: use_count %ld, unique %d with %ld owners", what, p.use_count(), (int)p.unique(), n);
            }
            if (!see.empty())
            {
                V& w = see[r.below(see.size())];
                REQUIRE(w.use_count() == n && w.expired() == (n == 0), P_(11), "%s: weak pointer says use_count %ld, expired %d with %ld owners", what, w.use_count(), (int)w.expired(), n);
                NCall c; S k(w.lock());
                REQUIRE(k.get() == (n ? raw : nullptr) && k.use_count() == (n ? n + 1 : 0), P_(11) | P_(10), "%s: lock with %ld other owners and %zu observers gives a pointer with use_count %ld", what, n, see.size(), k.use_count());
            }
            REQUIRE(live().n == (n ? 1u : 0u), P_(10) | P_(5), "%s: %zu objects alive with %ld owners", what, (size_t)live().n, n);
            REQUIRE(all_outstanding() == (n || !see.empty() ? 1u : 0u), P_(11) | P_(6), "%s: %zu blocks outstanding with %ld owners and %zu observers", what, (size_t)all_outstanding(), n, see.size());
            obs((u64)n);
        };
        while (io < no || iw < nw)
        {
            bool strong = iw >= nw || (io < no && r.chance(1, 2));
            NCall c;
            if (strong) { ++io; if (!see.empty() && r.chance(1, 3)) own.push_back(see[r.below(see.size())].lock()); else own.push_back(own[r.below(own.size())]); }
            else { ++iw; if (!see.empty() && r.chance(1, 3)) see.push_back(see[r.below(see.size())]); else { see.push_back(V()); see.back() = own[r.below(own.size())]; } }
            if (++step % 1009 == 0) judge("crowd grows");
        }
        judge("full crowd");
        const bool weak_first = r.chance(1, 3), strong_first = !weak_first && r.chance(1, 2);
        while (!own.empty() || !see.empty())
        {
            bool strong = see.empty() || (!own.empty() && (strong_first || (!weak_first && r.chance((u64)own.size(), (u64)(own.size() + see.size())))));
            if (strong) { bool last = own.size() == 1; if (last) judge("last owner"); { NCall c; own.pop_back(); } if (last) judge("no owner left"); }
            else { { NCall c; see.pop_back(); } if (see.size() <= 1) judge("observers gone"); }
            if (++step % 1009 == 0) judge("crowd shrinks");
        }
        sig(mix2((u64)(no * 3 > nw) + 2 * weak_first + 4 * strong_first, mix2(no, nw)));
    }
    REQUIRE(live().n == 0 && all_outstanding() == 0, P_(10) | P_(5) | P_(6), "objects or blocks are left when every pointer is gone");
    end_case_new();
    end_case();
}

void do_case(const Options& o, u64 n)
{
    if (n % 128 == 70) { do_crowd(o, n); return; }
    if (n % 8 == 5) { do_twins(o, n); return; }
    begin_case(n, "pointer graph");
    u64 seed = mix2(o.seed * 1000003 + 77, n);
    World w(seed); W = &w;
    std::string mode = o.mode;
    w.fmode = mode == "allocfault" ? F_ALLOC : mode == "elemfault" ? F_ELEM : mode == "storm" ? 3 : 0;
    w.scripts = w.r.chance(2, 3);
    {
        Slot<SB> sb[5]; Slot<SD> sd[3]; Slot<SC> sc[2]; Slot<WB> wb[4]; Slot<WD> wd[2];
        int steps = 20 + (int)w.r.below(150);
        for (int i = 0; i < steps; ++i) { w.budget = 12; w.op(); }
        // dissolve: drop every pointer, first in the pools, then inside whatever cycles remain; weak ones last in half the cases
        w.budget = 0; w.scripts = false;
        bool weak_last = w.r.chance(1, 2);
        for (int pass = 0; pass < 2; ++pass)
        {
            for (int i = 0; i < 4 && (pass == (weak_last ? 1 : 0)); ++i) { wb[i].target = -1; { NCall c; wb[i].p.reset(); } w.check("dissolve"); }
            for (int i = 0; i < 5 && pass == 0; ++i) { sb[i].target = -1; { NCall c; sb[i].p.reset(); } w.check("dissolve"); }
            for (int i = 0; i < 3 && pass == 0; ++i) { sd[i].target = -1; { NCall c; sd[i].p.reset(); } w.check("dissolve"); }
            for (int i = 0; i < 2 && pass == 0; ++i) { sc[i].target = -1; { NCall c; sc[i].p.reset(); } w.check("dissolve"); }
            for (;;)
            {
                Base* x = nullptr; int which = -1;
                for (size_t i = 0; i < w.objs.size() && !x; ++i)
                    if (w.objs[i].state == LIVES)
                    {
                        Obj& ob = w.objs[i];
                        for (int k = 0; k < 2; ++k) if (ob.base->kid[k].target >= 0) { x = ob.base; which = k; }
                        if (!x && ob.derived && ob.derived->dk.target >= 0) { x = ob.base; which = 2; }
                        if (!x && ob.derived && ob.derived->ck.target >= 0) { x = ob.base; which = 3; }
                    }
                if (!x) break;
                COV("cycles broken");
                Derived* d = w.objs[(size_t)x->key].derived;
                if (which < 2) { x->kid[which].target = -1; NCall c; SB t; t.swap(x->kid[which].p); }
                else if (which == 2) { d->dk.target = -1; NCall c; SD t; t.swap(d->dk.p); }
                else { d->ck.target = -1; NCall c; SC t; t.swap(d->ck.p); }
                w.check("dissolve");
            }
        }
        for (size_t i = 0; i < w.objs.size(); ++i) REQUIRE(w.objs[i].state == GONE, P_(10) | P_(5), "object %zu survives all its owners", i);
        wd[0].target = wd[1].target = -1; { NCall c; wd[0].p.reset(); wd[1].p = WD(); }
        w.check("dissolve");
    }
    W = nullptr;
    end_case_new();
    end_case();
}
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "sptr");
    std::string mode = o.mode;
    if (mode == "allocfault") G().mode_tags = P_(7);
    if (mode == "elemfault") G().mode_tags = P_(8);
    if (mode == "storm") G().mode_tags = P_(7) | P_(8);
    for (u64 n = o.from; n < o.to; ++n) do_case(o, n);
    return finish();
}
