// Concurrent readers of shared containers and pointers, and threads on unrelated objects, under ThreadSanitizer.
// Nothing the threads run touches the monitors' global state: results come back as per-thread digests and are
// compared with the same work done by one thread.
#include "vf.hpp"
#include <pthread.h>
#include <sched.h>
#include <atomic>
using namespace vf;

namespace
{
// tickets order the operations of all threads without synchronising them (relaxed: no happens-before)
std::atomic<unsigned> ticket(0);
std::atomic<int> waiting(0), go(0);

struct Dig { u64 h; Dig() : h(77) {} void add(u64 v) { h = mix2(h, v); } };

// failure plan and event counts of one thread
struct Ctl { long long alloc_left, copy_left; u64 allocs, frees, births, deaths; int ids; int last; Ctl() : alloc_left(-1), copy_left(-1), allocs(0), frees(0), births(0), deaths(0), ids(0), last(0) {} };

template <class T>
struct CA
{
    typedef T value_type; typedef T* pointer; typedef const T* const_pointer; typedef T& reference; typedef const T& const_reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type; typedef std::true_type propagate_on_container_move_assignment;
    template <class U> struct rebind { typedef CA<U> other; };
    Ctl* c;
    CA() noexcept : c(nullptr) {}
    explicit CA(Ctl* q) noexcept : c(q) {}
    CA(const CA& o) noexcept : c(o.c) {}
    template <class U> CA(const CA<U>& o) noexcept : c(o.c) {}
    CA& operator=(const CA& o) noexcept { c = o.c; return *this; }
    template <class E> T* allocate(E& err, size_type n, const void* = 0) noexcept
    {
        // an element that is a container is copied into a default constructed one
        if (c) { ++c->allocs; if (c->alloc_left > 0 && --c->alloc_left == 0) { build_bad_alloc(err); return nullptr; } }
        return static_cast<T*>(std::malloc(n * sizeof(T) + 1));
    }
    void deallocate(T* p, size_type) noexcept { if (!p) return; if (c) ++c->frees; std::free((void*)p); }
};
template <class T, class U> inline bool operator==(const CA<T>& a, const CA<U>& b) { return a.c == b.c; }
template <class T, class U> inline bool operator!=(const CA<T>& a, const CA<U>& b) { return a.c != b.c; }

struct Obj
{
    int key; char* pay; Ctl* c;
    static char* pack(int k) { char* p = (char*)std::malloc(24); std::snprintf(p, 24, "payload %d", k); return p; }
    Obj() noexcept : key(0), pay(pack(0)), c(nullptr) {}
    Obj(int k, Ctl* q) noexcept : key(k), pay(pack(k)), c(q) { if (c) ++c->births; }
#if VF_EX
    Obj(const Obj& o) : key(o.key), pay(nullptr), c(o.c) { if (c) { if (c->copy_left > 0 && --c->copy_left == 0) { int id = ++c->ids; c->last = id; boom_now(id); } ++c->births; } pay = pack(key); }
#else
    Obj(const Obj& o) noexcept : key(o.key), pay(pack(o.key)), c(o.c) { if (c) ++c->births; }
#endif
    Obj(Obj&& o) noexcept : key(o.key), pay(o.pay), c(o.c) { o.pay = pack(-1); o.key = -1; if (c) ++c->births; }
    Obj& operator=(const Obj& o) { if (this != &o) { char* p = pack(o.key); std::free(pay); pay = p; key = o.key; } return *this; }
    Obj& operator=(Obj&& o) noexcept { std::swap(pay, o.pay); std::swap(key, o.key); return *this; }
    ~Obj() { if (c) ++c->deaths; std::free(pay); }
    u64 read() const { return mix2((u64)key, hash(pay)); }
};
inline bool operator==(const Obj& a, const Obj& b) { return a.key == b.key && !std::strcmp(a.pay, b.pay); }
inline bool operator!=(const Obj& a, const Obj& b) { return !(a == b); }
inline bool operator<(const Obj& a, const Obj& b) { return a.key < b.key; }
inline bool by_key(const Obj& a, const Obj& b) { return a.key < b.key; }

typedef nestl::vector<Obj> Vec;
typedef nestl::list<Obj> List;
typedef nestl::set<Obj> Set;
typedef nestl::no_exceptions::vector<Obj, CA<Obj>> NVec;
typedef nestl::no_exceptions::list<Obj, CA<Obj>> NList;
typedef nestl::no_exceptions::set<Obj, std::less<Obj>, CA<Obj>> NSet;
typedef nestl::no_exceptions::vector<int> IVec;
typedef nestl::no_exceptions::set<int> ISet;
typedef nestl::no_exceptions::list<int> IList;
typedef nestl::no_exceptions::vector<NList, CA<NList>> Nested;

// a tree of owners, observed by weak pointers
struct Node { int id; nestl::shared_ptr<Node> left, right; nestl::weak_ptr<Node> up; explicit Node(int i) noexcept : id(i) {} ~Node() {} };

void pause(Rng& r) { switch (r.below(24)) { case 0: sched_yield(); break; case 1: for (volatile int i = 0; i < 200; ++i) {} break; case 2: usleep(0); break; default: break; } }

// ---------------------------------------------------------------- shared things, only read
struct Shared
{
    Ctl ctl;
    Vec v; List l; Set s; IVec iv; ISet is; IList il; NVec nv, nv2; NList nl; NSet ns; Nested nest; Vec ve; List le; Set se;
    nestl::shared_ptr<Node> sp, sp2, spe; nestl::weak_ptr<Node> wp, wpe, wpd;
    DefErr good, bad; usr::Err ubad;
    explicit Shared(u64 seed) : nv(CA<Obj>(&ctl)), nv2(CA<Obj>(&ctl)), nl(CA<Obj>(&ctl)), ns(std::less<Obj>(), CA<Obj>(&ctl)), nest(CA<NList>(&ctl))
    {
        Rng r(seed); DefErr e;
        size_t n = r.below(40);
        for (size_t i = 0; i < n; ++i)
        {
            int k = (int)r.below(60); Obj x(k, nullptr);
            v.push_back_nothrow(e, x); l.push_back_nothrow(e, x); s.insert_nothrow(e, x); iv.push_back_nothrow(e, k); is.insert_nothrow(e, k); il.push_front_nothrow(e, k);
            nv.push_back_nothrow(e, x); nv2.push_back_nothrow(e, x); nl.push_front_nothrow(e, x); ns.insert_nothrow(e, x);
            if (i % 8 == 0) { NList t((CA<Obj>(&ctl))); t.push_back_nothrow(e, x); t.push_back_nothrow(e, x); nest.push_back_nothrow(e, std::move(t)); }
        }
        sp = nestl::make_shared_nothrow<Node>(e, 7); sp->left = nestl::make_shared_nothrow<Node>(e, 8); sp->right = sp->left; sp->left->up = sp; sp2 = sp; wp = sp;
        { nestl::shared_ptr<Node> t = nestl::make_shared_nothrow<Node>(e, 9); wpd = t; }
        if (e) violation(P_(16), "building the shared state failed");
        build_bad_alloc(bad); build_length_error(ubad);
    }
};

template <class C> void walk(const C& c, Dig& d) { for (auto it = c.begin(); it != c.end(); ++it) d.add(it->read()); }
template <class C> void walk_c(const C& c, Dig& d) { for (typename C::const_iterator it = c.cbegin(); it != c.cend(); it++) d.add((*it).read()); }
template <class C> void walk_r(const C& c, Dig& d) { for (auto it = c.crbegin(); it != c.crend(); ++it) d.add(it->read()); for (auto it = c.rbegin(); it != c.rend(); ++it) d.add(it->read()); }
template <class C> void walk_i(const C& c, Dig& d) { for (auto it = c.cbegin(); it != c.cend(); ++it) d.add((u64)*it); for (auto it = c.crbegin(); it != c.crend(); ++it) d.add((u64)*it); }
template <class C> void dims(const C& c, Dig& d) { d.add(c.size()); d.add(c.empty()); d.add(c.max_size() > 0); c.get_allocator(); }

const int READS = 30;
void read_one(const Shared& s, int what, Rng& r, Dig& d)
{
    d.add((u64)what);
    switch (what)
    {
    case 0: walk(s.v, d); break;
    case 1: walk(s.l, d); break;
    case 2: walk(s.s, d); break;
    case 3: walk_c(s.nv, d); break;
    case 4: walk_c(s.nl, d); break;
    case 5: walk_c(s.ns, d); break;
    case 6: walk_r(s.v, d); walk_r(s.nv, d); break;
    case 7: walk_r(s.l, d); walk_r(s.nl, d); break;
    case 8: walk_r(s.s, d); walk_r(s.ns, d); break;
    case 9: walk_i(s.iv, d); walk_i(s.is, d); walk_i(s.il, d); break;
    case 10: dims(s.v, d); dims(s.nv, d); d.add(s.v.capacity() >= s.v.size()); d.add(s.nv.capacity() >= s.nv.size()); break;
    case 11: dims(s.l, d); dims(s.nl, d); dims(s.il, d); break;
    case 12: dims(s.s, d); dims(s.ns, d); dims(s.is, d); break;
    case 13: dims(s.ve, d); dims(s.le, d); dims(s.se, d); walk(s.ve, d); walk(s.le, d); walk(s.se, d); break;
    case 14: { int k = (int)r.below(60); Obj x(k, nullptr); auto it = s.s.find(x); d.add(it == s.s.end()); if (it != s.s.end()) d.add(it->read()); auto jt = s.ns.find(x); d.add(jt != s.ns.end()); break; }
    case 15: { int k = (int)r.below(60); auto it = s.is.find(k); d.add(it == s.is.end() ? 1000u : (u64)*it); break; }
    case 16: if (!s.v.empty()) { size_t i = r.below(s.v.size()); d.add(s.v[i].read()); d.add(s.v.front().read()); d.add(s.v.back().read()); } break;
    case 17: if (!s.nv.empty()) { size_t i = r.below(s.nv.size()); d.add(s.nv[i].read()); d.add(s.nv.front().read()); d.add(s.nv.back().read()); d.add(s.nv.data()[i].read()); } break;
    case 18: if (!s.l.empty()) { d.add(s.l.front().read()); d.add(s.l.back().read()); d.add(s.nl.front().read()); d.add(s.nl.back().read()); } break;
    case 19: d.add(s.nv == s.nv2); d.add(s.nv == s.nv); break;
    case 20: d.add(nestl::equal(s.l.begin(), s.l.end(), s.l.begin())); d.add(nestl::lexicographical_compare(s.v.begin(), s.v.end(), s.l.begin(), s.l.end())); break;
    case 21: d.add((u64)s.sp.use_count()); d.add(s.sp.unique()); d.add((bool)s.sp); d.add((u64)s.sp->id); d.add((u64)(*s.sp2).id); d.add(s.sp.get() == s.sp2.get()); break;
    case 22: d.add((u64)s.sp->left.use_count()); d.add((u64)s.sp->right->id); d.add(s.sp->left->up.expired()); break;
    case 23: d.add(s.wp.expired()); d.add((u64)s.wp.use_count()); d.add(s.wpe.expired()); d.add(s.wpd.expired()); d.add((u64)s.wpd.use_count()); d.add((u64)s.spe.use_count()); d.add(!s.spe); break;
    case 24: for (auto it = s.nest.begin(); it != s.nest.end(); ++it) { walk(*it, d); d.add(it->size()); } break;
    case 25: { Ctl my; { NVec m((CA<Obj>(&my))); DefErr e; m.copy_nothrow(e, s.nv); d.add(!e); walk(m, d); d.add(m == s.nv); } d.add(my.allocs - my.frees); break; }
    case 26: { Ctl my; { NList m((CA<Obj>(&my))); DefErr e; m.assign_nothrow(e, s.v.begin(), s.v.end()); d.add(!e); walk(m, d); } d.add(my.allocs - my.frees); break; }
    case 27: { Ctl my; { const std::less<Obj> lt = std::less<Obj>(); NSet m(lt, CA<Obj>(&my)); DefErr e; m.copy_nothrow(e, s.ns); d.add(!e); walk(m, d); } d.add(my.allocs - my.frees); break; }
    case 28: { DefErr a(s.bad), b(s.good); usr::Err c(s.ubad); d.add((u64)err_info(a).cat); d.add((u64)err_info(b).cat); d.add((u64)err_info(c).cat); d.add((bool)s.bad); d.add((bool)s.good); break; }
    default: { ISet m; DefErr e; m.copy_nothrow(e, s.is); d.add(!e); walk_i(m, d); IVec w; w.assign_nothrow(e, s.is.begin(), s.is.end()); walk_i(w, d); break; }
    }
}

// ---------------------------------------------------------------- private histories
struct Private
{
    Ctl ctl; Rng r; Dig d;
    explicit Private(u64 seed) : r(seed) {}
    template <class E> void err(const E& e) { ErrInfo i = err_info(e); d.add((u64)i.cat); if (i.cat == 3) { d.add((u64)i.id); d.add(i.id == ctl.last); } }
    template <class C> void look(const C& c) { d.add(c.size()); walk(c, d); }
    void arm() { ctl.alloc_left = ctl.copy_left = -1; if (r.chance(1, 3)) { if (r.chance(1, 2)) ctl.alloc_left = 1 + (long long)r.below(4); else ctl.copy_left = 1 + (long long)r.below(6); } }
    template <class E, class F> void tryit(F f) { arm(); E e; f(e); ctl.alloc_left = ctl.copy_left = -1; err(e); }

    template <class E>
    void run(unsigned steps, std::vector<unsigned>* order)
    {
        {
            NVec v((CA<Obj>(&ctl))), v2((CA<Obj>(&ctl))); NList l((CA<Obj>(&ctl))), l2((CA<Obj>(&ctl))); const std::less<Obj> lt = std::less<Obj>(); NSet s(lt, CA<Obj>(&ctl)), s2(lt, CA<Obj>(&ctl));
            Nested nest((CA<NList>(&ctl)));
            nestl::shared_ptr<Node> root; nestl::weak_ptr<Node> w;
            for (unsigned i = 0; i < steps; ++i)
            {
                if (order) order->push_back(ticket.fetch_add(1, std::memory_order_relaxed));
                if (order) pause(r); else r.below(24);
                Obj x((int)r.below(30), &ctl);
                unsigned op = (unsigned)r.below(26);
                d.add(op);
                switch (op)
                {
                case 0: tryit<E>([&](E& e) { v.push_back_nothrow(e, x); }); look(v); break;
                case 1: tryit<E>([&](E& e) { v.insert_nothrow(e, v.cbegin() + (std::ptrdiff_t)r.below(v.size() + 1), x); }); d.add(v.size()); break;
                case 2: tryit<E>([&](E& e) { v.insert_nothrow(e, v.cbegin(), l.begin(), l.end()); }); d.add(v.size()); break;
                case 3: tryit<E>([&](E& e) { v2.copy_nothrow(e, v); }); d.add(v2.size()); break;
                case 4: v.swap(v2); look(v2); break;
                case 5: tryit<E>([&](E& e) { v.resize_nothrow(e, r.below(12), x); }); break;
                case 6: tryit<E>([&](E& e) { v.reserve_nothrow(e, r.below(40)); }); d.add(v.capacity()); tryit<E>([&](E& e) { v.shrink_to_fit_nothrow(e); }); d.add(v.capacity()); break;
                case 7: tryit<E>([&](E& e) { l.push_back_nothrow(e, x); }); look(l); break;
                case 8: tryit<E>([&](E& e) { l.push_front_nothrow(e, std::move(x)); }); break;
                case 9: if (!l.empty()) { if (r.chance(1, 2)) l.pop_back(); else l.erase(l.cbegin()); } d.add(l.size()); break;
                case 10: l.sort(); l2.sort(); l.merge(l2); look(l); d.add(l2.size()); break;
                case 11: l.sort(by_key); look(l); break;
                case 12: l2.splice(l2.cbegin(), l); d.add(l2.size()); l.swap(l2); break;
                case 13: tryit<E>([&](E& e) { l2.assign_nothrow(e, v.begin(), v.end()); }); look(l2); break;
                case 14: tryit<E>([&](E& e) { auto p = s.insert_nothrow(e, x); d.add(!e && p.second); }); d.add(s.size()); break;
                case 15: d.add(s.erase(x)); break;
                case 16: if (!s.empty()) { auto it = s.erase(s.cbegin()); d.add(it == s.end()); } look(s); break;
                case 17: tryit<E>([&](E& e) { s2.copy_nothrow(e, s); }); look(s); break;
                case 18: s = std::move(s2); look(s); break;
                case 19: { NList t((CA<Obj>(&ctl))); tryit<E>([&](E& e) { t.push_back_nothrow(e, x); }); tryit<E>([&](E& e) { nest.push_back_nothrow(e, std::move(t)); }); for (auto it = nest.begin(); it != nest.end(); ++it) look(*it); break; }
                case 20: tryit<E>([&](E& e) { nestl::shared_ptr<Node> n = nestl::make_shared_nothrow<Node>(e, (int)i); if (!e) { n->left = root; if (root) root->up = n; root = n; w = n; } }); d.add((u64)root.use_count()); break;
                case 21: if (root) { nestl::shared_ptr<Node> k = root->left; nestl::shared_ptr<Node> up = w.lock(); d.add((u64)up.use_count()); root = k; d.add(w.expired()); up.reset(); d.add(w.expired()); } break;
                case 22: { nestl::weak_ptr<Node> a(w), b; b = a; a.reset(); b = w; w = std::move(b); d.add((u64)w.use_count()); d.add((u64)root.use_count()); break; }
                case 23: { CA<int> ca(&ctl); ctl.alloc_left = (long long)r.below(3); E e; nestl::shared_ptr<int> p = nestl::make_shared_a_nothrow<int>(e, ca, 5); ctl.alloc_left = -1; err(e); d.add((bool)p); break; }
                case 24: throwing(x); break;
                default: { E e; v.reserve_nothrow(e, ~(size_t)0 / 2); d.add((u64)err_info(e).cat); E c(e); d.add((u64)err_info(c).cat); break; }
                }
            }
            root.reset();
        }
        d.add(ctl.allocs); d.add(ctl.allocs - ctl.frees); d.add(ctl.births); d.add(ctl.births - ctl.deaths);
    }
    void throwing(const Obj& x)
    {
#if VF_EX
        nestl::has_exceptions::vector<Obj, CA<Obj>> a((CA<Obj>(&ctl))); nestl::has_exceptions::list<Obj, CA<Obj>> b((CA<Obj>(&ctl)));
        size_t n = r.below(5);
        arm();
        try { for (size_t i = 0; i < n; ++i) { a.push_back(x); b.push_back(x); } nestl::has_exceptions::vector<Obj, CA<Obj>> c(a); c = a; d.add(c.size()); }
        catch (...) { const Caught z = caught_now(); d.add((u64)z.kind); d.add((u64)z.id); d.add(z.exact); d.add(z.id == ctl.last); }
        ctl.alloc_left = ctl.copy_left = -1;
        d.add(a.size()); d.add(b.size());
#else
        (void)x;
#endif
    }
};

// ---------------------------------------------------------------- threads
struct Task
{
    int kind; u64 seed; unsigned steps; const Shared* sh; bool user_errors;
    u64 digest; std::vector<unsigned> order;
    void work(bool concurrent)
    {
        if (concurrent) order.reserve(steps);
        if (kind == 0)
        {
            Rng r(seed); Dig d;
            for (unsigned i = 0; i < steps; ++i)
            {
                if (concurrent) { order.push_back(ticket.fetch_add(1, std::memory_order_relaxed)); pause(r); } else r.below(24);
                read_one(*sh, (int)r.below(READS), r, d);
            }
            digest = d.h;
        }
        else
        {
            Private p(seed);
            if (user_errors) p.run<usr::Err>(steps, concurrent ? &order : nullptr); else p.run<DefErr>(steps, concurrent ? &order : nullptr);
            digest = p.d.h;
        }
    }
};
void* entry(void* q)
{
    Task* t = static_cast<Task*>(q);
    waiting.fetch_add(1, std::memory_order_relaxed);
    while (!go.load(std::memory_order_relaxed)) sched_yield();
    t->work(true);
    return nullptr;
}

void threads_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name, 240);
    Rng r(mix2(o.seed * 1000003 + hash(name), n));
    const u64 shseed = r.next();
    const unsigned nt = 2 + (unsigned)r.below(5);
    const unsigned flavour = (unsigned)r.below(4);      // readers, private, mixed, private with equal seeds
    std::vector<Task> ts(nt), solo;
    const u64 same = r.next();
    const bool ue = r.chance(1, 2);
    for (unsigned i = 0; i < nt; ++i)
    {
        Task& t = ts[i];
        t.kind = flavour == 0 ? 0 : flavour == 2 ? (int)(i % 2) : 1;
        t.seed = flavour == 3 ? same : r.next();
        t.steps = t.kind ? 10 + (unsigned)r.below(40) : 10 + (unsigned)r.below(30);
        t.user_errors = flavour == 3 ? ue : r.chance(1, 2); t.digest = 0; t.sh = nullptr;
    }
    static const char* const F[] = { "readers of shared containers and pointers", "threads on unrelated objects", "readers mixed with unrelated work", "identical work on unrelated objects" };
    logf("%u threads: %s", nt, F[flavour]);
    solo = ts;
    // concurrent first: nothing the library might cache on first use has happened for these objects yet
    {
        Shared sh(shseed);
        std::vector<pthread_t> th(nt);
        ticket.store(0); waiting.store(0); go.store(0);
        for (unsigned i = 0; i < nt; ++i) { ts[i].sh = &sh; if (pthread_create(&th[i], nullptr, entry, &ts[i])) { std::printf("cannot create threads\n"); std::_Exit(20); } }
        while (waiting.load(std::memory_order_relaxed) < (int)nt) sched_yield();
        go.store(1, std::memory_order_relaxed);
        for (unsigned i = 0; i < nt; ++i) pthread_join(th[i], nullptr);
    }
    {
        Shared sh(shseed);
        for (unsigned i = 0; i < nt; ++i) { solo[i].sh = &sh; solo[i].work(false); }
    }
    u64 steps = 0;
    std::vector<std::pair<unsigned, unsigned>> seq;
    for (unsigned i = 0; i < nt; ++i)
    {
        REQUIRE(ts[i].digest == solo[i].digest, P_(16), "thread %u of %u (%s) observed other results than the same work done alone", i, nt, ts[i].kind ? "unrelated objects" : "shared readers");
        for (size_t j = 0; j < ts[i].order.size(); ++j) seq.push_back(std::make_pair(ts[i].order[j], i));
        steps += ts[i].steps;
    }
    std::sort(seq.begin(), seq.end());
    u64 inter = 1, switches = 0;
    for (size_t j = 0; j < seq.size(); ++j) { inter = mix2(inter, seq[j].second); if (j && seq[j].second != seq[j - 1].second) ++switches; }
    G().ops += steps;
    sig(mix2(inter, n)); sig(inter);
    *cov_slot("switches between threads") += switches;
    if (switches > nt) COV("interleaved runs");
    *cov_slot(F[flavour]) += 1;
    end_case();
}
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "threads");
    G().mode_tags = P_(16);
    for (u64 n = o.from; n < o.to; ++n) threads_case(o, n, "threads");
    return finish();
}
