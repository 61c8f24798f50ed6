// nestl::set under random, duplicate-heavy, monotone and fault-injected histories, against an ideal ordered set. The
// model keeps, for every key, its value, address, identity and an iterator taken when it was first seen.
#include "vf.hpp"
#include "newhook.hpp"
#include <cmath>
using namespace vf;

namespace
{
template <class T> struct CoresOf { static const int n = ET<T>::tracked ? 1 : 0; };
#if VF_EX
template <> struct CoresOf<LateThrower> { static const int n = 2; };
#endif

struct Plan { int step; int fk; long long k; bool storm; bool sticky; Plan() : step(-1), fk(F_NONE), k(0), storm(false), sticky(false) {} };

inline int proj(int kind, int key) { return kind == 0 ? key : kind == 1 ? -key : kind == 2 ? key / 3 : key % 7; }

// stateful comparator
template <class T>
struct Cmp
{
    int kind; const int* alive;
    explicit Cmp(int k = -1, const int* a = nullptr) : kind(k), alive(a) {}
    Cmp(const Cmp& o) noexcept : kind(o.kind), alive(o.alive) {}
    Cmp& operator=(const Cmp& o) noexcept { kind = o.kind; alive = o.alive; return *this; }
    // like a std::function: nothing is left in one that was moved from
    Cmp(Cmp&& o) noexcept : kind(o.kind), alive(o.alive) { o.kind = -1; o.alive = nullptr; }
    Cmp& operator=(Cmp&& o) noexcept { if (this != &o) { kind = o.kind; alive = o.alive; o.kind = -1; o.alive = nullptr; } return *this; }
    bool operator()(const T& a, const T& b) const
    {
        if (kind < 0 || !alive || *alive != 4711) violation(P_(3) | P_(18), "comparison object was not the one supplied");
        ++G().ev.cmp; visited().mark(addr(a)); visited().mark(addr(b));
        return proj(kind, ET<T>::val(a).key) < proj(kind, ET<T>::val(b).key);
    }
};
template <class K> struct CmpOps { static K make(int, const int*) { return K(); } static const int kinds = 1; };
template <class T> struct CmpOps<Cmp<T>> { static Cmp<T> make(int k, const int* a) { return Cmp<T>(k, a); } static const int kinds = 4; };

// its assignment is the user's code too, and may fail while a set is being copied
inline bool& copying() { static bool b = false; return b; }
template <class T>
struct FCmp : Cmp<T>
{
    explicit FCmp(int k = -1, const int* a = nullptr) : Cmp<T>(k, a) {}
    FCmp(const FCmp& o) noexcept : Cmp<T>(o) {}
    FCmp& operator=(const FCmp& o) noexcept(false) { if (copying()) { boom(nullptr); } this->kind = o.kind; this->alive = o.alive; return *this; }
};
template <class T> struct CmpOps<FCmp<T>> { static FCmp<T> make(int k, const int* a) { return FCmp<T>(k, a); } static const int kinds = 4; };
template <class K> struct Fallible { static const bool yes = false; };
template <class T> struct Fallible<FCmp<T>> { static const bool yes = true; };
template <class A> struct Handed { static const bool on_copy = false; };
template <class T> struct Handed<PAlloc<T>> { static const bool on_copy = true; };

template <class C, class T, class K, class E>
struct SRun
{
    typedef typename C::allocator_type A;
    typedef typename C::iterator I;
    typedef typename C::const_iterator CI;
    typedef typename C::iterator_with_flag IF;
    static const size_t CORES = CoresOf<T>::n;
    static const bool counted = CmpOps<K>::kinds > 1 || CORES > 0;
    enum { NS = 3 };
    struct Node { Val v; const void* addr; u64 oid; I it; Node() : addr(nullptr), oid(0) {} explicit Node(Val x) : v(x), addr(nullptr), oid(0) {} };
    typedef std::vector<Node> Seq;

    Rng r; Plan plan; int step; bool plan_fired; int range; int style; int cursor; bool calm; int phase;
    typename std::aligned_storage<sizeof(C), alignof(C)>::type buf[NS];
    Seq m[NS]; int arena[NS]; int kind[NS];
    int tagc; int token;

    C& c(int i) { return *reinterpret_cast<C*>(&buf[i]); }
    SRun(u64 seed, const Plan& p) : r(seed), plan(p), step(0), plan_fired(false), cursor(0), tagc(0), token(4711)
    {
        State& g = G();
        g.ev.zero(); g.next_oid = 0; g.next_fault_id = 0; g.fault_seen = false;
        for (int i = 0; i < NS; ++i)
        {
            arena[i] = i == 2 ? 2 : 1; kind[i] = (int)r.below(CmpOps<K>::kinds);
            if (CmpOps<K>::kinds == 1 && r.chance(1, 2)) ::new ((void*)&buf[i]) C(AllocOps<A>::make(arena[i]));
            else ::new ((void*)&buf[i]) C(CmpOps<K>::make(kind[i], &token), AllocOps<A>::make(arena[i]));
        }
        range = r.chance(1, 2) ? 12 : r.chance(2, 3) ? 60 : 120;
        style = (int)r.below(4);
        calm = r.chance(1, 2); phase = r.chance(1, 2) ? 60 : 200;
        if (calm) range = r.chance(1, 2) ? 60 : 250;
    }
    ~SRun() { for (int i = 0; i < NS; ++i) { Call k; c(i).~C(); } }

    Val nv()
    {
        int k = (int)r.below((u64)range);
        if (style == 1) k = cursor++ % range; else if (style == 2) k = range - 1 - (cursor++ % range);
        return ET<T>::norm(Val(k, ++tagc));
    }
    void arm()
    {
        set_fault(F_NONE, 0);
        if (plan.storm) { if (r.chance(1, 3)) { FaultKind fk = r.chance(1, 2) ? F_ALLOC : F_ELEM; size_t far = r.chance(1, 3) ? 12 : 3; long long at = 1 + (long long)r.below(far); set_fault(fk, at, r.chance(1, 6)); } }
        else if (step == plan.step) set_fault(plan.fk, plan.k, plan.sticky);
    }
    size_t total() { size_t t = 0; for (int i = 0; i < NS; ++i) t += m[i].size(); return t; }
    bool less(int i, const Val& a, const Val& b) const { return proj(kind[i], a.key) < proj(kind[i], b.key); }
    // index of the first model key not less than v, and whether it is equivalent
    size_t lower(int i, const Val& v, bool& hit) const
    {
        size_t p = 0;
        while (p < m[i].size() && less(i, m[i][p].v, v)) ++p;
        hit = p < m[i].size() && !less(i, v, m[i][p].v);
        return p;
    }
    // a red-black tree of n keys is at most 2*log2(n+1) keys deep; the way down meets each of them, and each at most twice
    static u64 depth(size_t n) { return (u64)(2.0 * std::log2((double)n + 1.0) + 1e-9); }
    void cost(const char* what, size_t n, u64 cmps, int times, size_t met)
    {
        if (!counted) return;
        COV("comparison counts judged");
        const u64 keys = (u64)times * (depth(n) + 1) + 1;        // one of them is the key looked for
        REQUIRE(met <= keys && cmps <= 2 * keys, P_(4), "%s on %zu keys made %llu comparisons that involved %zu different keys, bound %llu", what, n, cmps, met, keys);
    }

    void check(int i, const char* what, u64 idtags = 0)
    {
        C& s = c(i); const C& k = s; Seq& e = m[i];
        const size_t n = e.size(); const u64 t = P_(3);
        REQUIRE(k.empty() == (n == 0), t, "%s: set %d: empty() wrong, ideal size %zu", what, i, n);
        REQUIRE(k.size() == n, t, "%s: set %d: size() is %zu, ideal %zu", what, i, (size_t)k.size(), n);
        size_t j = 0;
        for (I it = s.begin(); it != s.end(); ++it, ++j)
        {
            REQUIRE(j < n, t, "%s: set %d iterates more than the ideal %zu keys", what, i, n);
            const T& x = *it; Val v = ET<T>::val(x);
            REQUIRE(v == e[j].v, t, "%s: set %d: key %zu is (%d,%d), ideal set has (%d,%d)", what, i, j, v.key, v.tag, e[j].v.key, e[j].v.tag);
            REQUIRE(it.operator->() == addr(x), t, "%s: operator-> differs from operator*", what);
            if (!e[j].addr) { e[j].addr = addr(x); e[j].oid = ET<T>::oid(x); e[j].it = it; }
            else REQUIRE(e[j].addr == addr(x) && e[j].oid == ET<T>::oid(x) && e[j].it == it, P_(15) | idtags, "%s: set %d: key %zu (%d,%d) is no longer the same object", what, i, j, v.key, v.tag);
            obs((u64)v.key * 31 + (u64)v.tag);
        }
        REQUIRE(j == n, t, "%s: set %d iterates %zu keys, ideal %zu", what, i, j, n);
        REQUIRE(k.max_size() >= n, t, "%s: max_size below size", what);
        if (r.chance(1, 2))
        {
            I it = s.end();
            for (j = n; j-- > 0;) { --it; REQUIRE(addr(*it) == e[j].addr, t, "%s: set %d: backward traversal wrong at %zu", what, i, j); }
            REQUIRE(it == s.begin(), t, "%s: backward traversal does not reach begin()", what);
            CI ci = k.cbegin();
            for (j = 0; j < n; ++j) { CI old = ci++; REQUIRE(addr(*old) == e[j].addr && old != ci, t, "%s: const traversal wrong at %zu", what, j); }
            REQUIRE(ci == k.cend() && k.begin() == k.cbegin() && k.end() == k.cend() && CI(s.begin()) == k.cbegin() && k.cend() == s.end() && !(n && k.cend() == s.begin()), t, "%s: const traversal end", what);
            for (j = n; j-- > 0;) { CI old = ci--; REQUIRE(addr(*ci) == e[j].addr && old != ci, t, "%s: const backward traversal wrong at %zu", what, j); }
            j = n;
            for (typename C::const_reverse_iterator ri = k.crbegin(); ri != k.crend(); ++ri) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: crbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: crbegin iteration stops early", what);
            j = n;
            for (typename C::reverse_iterator ri = s.rbegin(); ri != s.rend(); ri++) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: rbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: rbegin iteration stops early", what);
            j = n;
            for (typename C::const_reverse_iterator ri = k.rbegin(); ri != k.rend(); ++ri) { REQUIRE(j > 0 && addr(*ri) == e[j - 1].addr, t, "%s: const rbegin iteration wrong", what); --j; }
            REQUIRE(j == 0, t, "%s: const rbegin iteration stops early", what);
            if (n)
            {
                I a = s.begin(); I b = a++; REQUIRE(addr(*b) == e[0].addr && a != b, t, "%s: post-increment", what);
                I z = s.end(); I y = z--; REQUIRE(addr(*z) == e[n - 1].addr && y == s.end(), t, "%s: post-decrement", what);
            }
        }
        if (AllocOps<A>::monitored)
            REQUIRE(AllocOps<A>::arena(k.get_allocator()) == arena[i], P_(6), "%s: set %d reports allocator %d, was given %d", what, i, AllocOps<A>::arena(k.get_allocator()), arena[i]);
        obs(n);
    }
    void check_all(const char* what, u64 idtags = 0) { for (int i = 0; i < NS; ++i) check(i, what, idtags); }
    void check_live(const char* what, size_t harness)
    {
        if (!CORES) return;
        size_t want = harness + CORES * total();
        REQUIRE(live().n == want, P_(5), "%s: %zu keys alive, %zu expected", what, (size_t)live().n, want);
        if (AllocOps<A>::monitored) REQUIRE(blocks().n >= total(), P_(6), "%s: %zu blocks outstanding for %zu keys", what, (size_t)blocks().n, total());
    }
    Seq read(int i)
    {
        Seq s; C& l = c(i);
        for (I it = l.begin(); it != l.end(); ++it) { Node n(ET<T>::val(*it)); n.addr = addr(*it); n.oid = ET<T>::oid(*it); n.it = it; s.push_back(n); if (s.size() > 100000) violation(P_(3), "set traversal does not end"); }
        return s;
    }
    static bool same_node(const Node& want, const Node& got) { return want.v == got.v && (!want.addr || (want.addr == got.addr && want.oid == got.oid)); }
    static bool same_seq(const Seq& want, const Seq& got)
    {
        if (want.size() != got.size()) return false;
        for (size_t j = 0; j < want.size(); ++j) if (!same_node(want[j], got[j])) return false;
        return true;
    }
    void note(const char* what, size_t n, size_t p, bool hit)
    {
        State& g = G();
        sig(mix2(hash(what), mix2(std::min<size_t>(n, 40) * 64 + p, mix2((u64)hit, (u64)g.fk * 4096 + (u64)(g.fired ? std::max(plan.k, 1ll) : 0)))));
    }

    void insert(int i, Val x, int how)
    {
        State& g = G();
        const Seq old = m[i]; const size_t n = old.size();
        bool hit; size_t p = lower(i, x, hit);
        Holder<T> h(x);
        arm();
        E err; IF res;
        const char* what = how == 0 ? "insert(const&)" : "insert(&&)";
        logf("s%d.%s %d,%d%s", i, what, x.key, x.tag, hit ? " (present)" : "");
        Call call;
        if (how == 0) res = c(i).insert_nothrow(err, h.cref()); else res = c(i).insert_nothrow(err, std::move(h.ref()));
        call.done(); const size_t met = visited().n;
        Delta d(call);
        if (g.fired) plan_fired = true;
        ErrInfo info = check_err(err, P_(3), what);
        check_sets(err, info.cat != 0);
        obs(d.births()); obs(d.destroy); obs(d.alloc); obs(d.dealloc); obs(d.cmp);
        note(what, n, p, hit);
        cost(what, n, d.cmp, 1, met);
        if (info.cat)
        {
            COV("failed operations judged");
            u64 t = g.fk == F_ALLOC ? P_(7) : P_(8);
            REQUIRE(same_seq(old, read(i)), t | P_(15), "%s: failed and changed the set", what);
            if (g.fk == F_ALLOC) { COV("argument intact checks"); REQUIRE(ET<T>::val(h.cref()) == x, P_(7), "%s: allocation failed but the inserted argument changed", what); }
            if (how == 0) REQUIRE(ET<T>::val(h.cref()) == x, t | P_(12), "%s altered its argument", what);
        }
        else
        {
            REQUIRE(res.second == !hit, P_(3), "%s says %s, ideal set says %s", what, res.second ? "inserted" : "present", hit ? "present" : "inserted");
            if (!hit) m[i].insert(m[i].begin() + (std::ptrdiff_t)p, Node(x));
            if (how == 0) REQUIRE(ET<T>::val(h.cref()) == x, P_(3) | P_(12), "%s altered its argument", what);
            else if (!hit && Moves<T>::yes) { COV("rvalues seen handed over"); REQUIRE(ET<T>::val(h.cref()).key == MOVED, P_(12), "%s: the rvalue argument was not passed on as an rvalue", what); }
            obs(res.second);
        }
        check_live(what, CORES);
        check_all(what);
        if (!info.cat) REQUIRE(res.first != c(i).end() && addr(*res.first) == m[i][p].addr, P_(3), "%s: returned iterator does not designate the equivalent key", what);
    }

    void find(int i, Val x)
    {
        bool hit; size_t p = lower(i, x, hit); const size_t n = m[i].size();
        Holder<T> h(x); const C& k = c(i); COVD(hit ? "find hit" : "find miss");
        set_fault(F_NONE, 0);
        Call call; I it = c(i).find(h.cref()); call.done(); Delta d(call); const size_t met = visited().n;
        Call call2; CI ci = k.find(h.cref()); call2.done(); Delta d2(call2); const size_t met2 = visited().n;
        REQUIRE(hit ? (it != c(i).end() && addr(*it) == m[i][p].addr) : it == c(i).end(), P_(3), "find(%d) of %zu keys %s", x.key, n, hit ? "missed or found another key" : "found something absent");
        REQUIRE(hit ? (ci != k.end() && addr(*ci) == m[i][p].addr) : ci == k.end(), P_(3), "const find(%d) of %zu keys %s", x.key, n, hit ? "missed or found another key" : "found something absent");
        REQUIRE(d.touches() + d2.touches() + d.alloc + d2.alloc == 0, P_(3) | P_(5), "find created or destroyed keys or allocated");
        cost("find", n, d.cmp, 1, met); cost("const find", n, d2.cmp, 1, met2);
        note("find", n, p, hit); obs(hit);
    }

    void erase_key(int i, Val x, bool own)
    {
        bool hit; size_t p = lower(i, x, hit); const size_t n = m[i].size();
        Holder<T> h(x); const T& key = own && hit ? *m[i][p].it : h.cref();
        logf("s%d.erase(key %d%s)%s", i, x.key, own ? " own" : "", hit ? "" : " absent");
        set_fault(F_NONE, 0);
        Call call; size_t q = (size_t)c(i).erase(key); call.done(); Delta d(call); const size_t met = visited().n;
        REQUIRE(q == (hit ? 1u : 0u), P_(3), "erase(key) reports %zu removed, ideal %d", q, (int)hit);
        if (hit) m[i].erase(m[i].begin() + (std::ptrdiff_t)p);
        if (CORES) REQUIRE(d.births() == 0 && d.assign == 0 && d.destroy == (hit ? CORES : 0), P_(5) | P_(15), "erase(key) created, assigned or kept keys");
        REQUIRE(d.alloc == 0, P_(3) | P_(6), "erase(key) allocated");
        if (!own) cost("erase(key)", n, d.cmp, 2, met);
        note("erase key", n, p, hit);
        check_live("erase(key)", CORES); check_all("erase(key)");
    }

    void one()
    {
        const int i = calm && r.chance(4, 5) ? 0 : (int)r.below(NS), o = (int)((i + 1 + r.below(NS - 1)) % NS);
        const size_t n = m[i].size();
        unsigned op = (unsigned)r.below(40);
        // calm histories let one set grow: a draining and a filling phase alternate, whole-set operations are rare
        if (calm && i == 0 && op >= 31 && !r.chance(1, 15)) op = (unsigned)r.below(31);
        if (calm && (step / phase) % 2 && op < 12) op = 24 + (unsigned)r.below(7);
        if (calm && (step / phase) % 2 == 0 && op >= 22 && op <= 30 && r.chance(3, 4)) op = (unsigned)r.below(12);
        if (n > 40) COV("sets of more than 40 keys");
        ++step;
        State& g = G();
        switch (op)
        {
        case 0: case 1: case 2: case 3: case 4: case 5: case 6: case 7: case 8:
            COV("insert const&"); insert(i, nv(), 0); break;
        case 9: case 10: case 11: case 12: case 13: case 14:
            COV("insert &&"); insert(i, nv(), 1); break;
        case 15: case 16:
        {
            if (!n) break;
            // the key already in the set, by reference to itself
            size_t p = r.below(n); const T& own = *m[i][p].it; E err; set_fault(F_NONE, 0);
            logf("s%d.insert(own key %zu)", i, p); COV("insert own key");
            Call call; IF res = c(i).insert_nothrow(err, own); call.done();
            REQUIRE(!err && !res.second && addr(*res.first) == m[i][p].addr, P_(3), "insert of a key of the set itself");
            check_live("insert(own)", 0); check_all("insert(own)");
            break;
        }
        case 17: case 18: case 19: find(i, nv()); break;
        case 20: case 21: if (n) { Val v = m[i][r.below(n)].v; find(i, v); } break;
        case 22: case 23: COV("erase by key"); erase_key(i, nv(), false); break;
        case 24: case 25: case 26: if (n) { COV("erase by key"); Val v = m[i][r.below(n)].v; bool own = r.chance(1, 2); erase_key(i, v, own); } break;
        case 27: case 28: case 29: case 30:
        {
            if (!n) break;
            size_t p = r.chance(1, 3) ? (r.chance(1, 2) ? 0 : n - 1) : r.below(n);
            logf("s%d.erase(iterator %zu)", i, p); COV("erase by iterator");
            set_fault(F_NONE, 0);
            Call call; I it = c(i).erase(CI(m[i][p].it)); call.done(); Delta d(call);
            m[i].erase(m[i].begin() + (std::ptrdiff_t)p);
            if (CORES) REQUIRE(d.births() == 0 && d.assign == 0 && d.destroy == CORES, P_(5) | P_(15), "erase(iterator) created, assigned or kept keys");
            if (counted) REQUIRE(d.cmp == 0, P_(4), "erase(iterator) made %llu comparisons", d.cmp);
            note("erase iterator", n, p, true);
            check_live("erase(iterator)", 0); check_all("erase(iterator)");
            REQUIRE(p < m[i].size() ? (it != c(i).end() && addr(*it) == m[i][p].addr) : it == c(i).end(), P_(3), "erase(iterator) did not return the successor");
            break;
        }
        case 31:
        {
            if (!r.chance(1, 3)) break;
            logf("s%d.clear()", i); COV("clear");
            set_fault(F_NONE, 0);
            Call call; c(i).clear(); call.done();
            m[i].clear(); check_live("clear", 0); check_all("clear");
            break;
        }
        case 32: case 33: case 34:
        {
            bool self = r.chance(1, 6); int q = self ? i : o;
            logf("s%d.copy(s%d)", i, q); COV("copy_nothrow");
            const Seq old = m[i], src = m[q];
            arm();
            copying() = true; if (Fallible<K>::yes) COV("sets with fallible comparison objects copied");
            E err; Call call; c(i).copy_nothrow(err, c(q)); call.done(); Delta d(call);
            copying() = false;
            if (g.fired) plan_fired = true;
            if (Handed<A>::on_copy)
            {
                // after a failure the target may have either of the two, and must use it consistently
                int now = AllocOps<A>::arena(c(i).get_allocator());
                REQUIRE(now == arena[q] || (err && now == arena[i]), P_(6), "after copy_nothrow the set reports allocator %d, it had %d and the source %d", now, arena[i], arena[q]);
                if (arena[q] != arena[i]) COV("copies between sets whose allocators may be handed over");
                arena[i] = now;
            }
            ErrInfo info = check_err(err, P_(3), "copy_nothrow"); check_sets(err, info.cat != 0);
            note("copy", old.size(), src.size(), self); obs(d.births()); obs(d.destroy); obs(d.alloc);
            if (!info.cat)
            {
                m[i] = src; kind[i] = kind[q];
                if (!self) for (size_t j = 0; j < m[i].size(); ++j) { m[i][j].addr = nullptr; m[i][j].oid = 0; }
                else for (size_t j = 0; j < m[i].size(); ++j) m[i][j].addr = nullptr;
                check_live("copy_nothrow", 0); check_all("copy_nothrow");
            }
            else
            {
                COV("failed operations judged");
                Seq now = read(i);
                bool ok = same_seq(old, now);
                if (!ok)
                {
                    // otherwise only keys of the source, in its order
                    size_t j = 0; ok = true;
                    for (size_t k = 0; k < now.size() && ok; ++k) { while (j < src.size() && src[j].v != now[k].v) ++j; ok = j < src.size(); ++j; }
                    if (!now.empty()) kind[i] = kind[q];
                }
                REQUIRE(ok, g.fk == F_ALLOC ? P_(7) : P_(8), "copy_nothrow: failed and left keys it may not leave");
                m[i] = now;
                check_live("copy_nothrow", 0);
                if (now.empty() && kind[i] != kind[q])
                {
                    // which of the two orders an emptied target has is not specified: start it afresh
                    Call k2; C t(CmpOps<K>::make(kind[i], &token), AllocOps<A>::make(arena[i])); c(i) = std::move(t);
                }
                check_all("copy_nothrow");
            }
            break;
        }
        case 35: case 36:
        {
            logf("s%d: move construct and back", i); COV("move construct");
            set_fault(F_NONE, 0);
            Call call; C t(std::move(c(i))); call.done(); Delta d(call);
            REQUIRE(d.touches() == 0 && d.alloc == 0 && d.dealloc == 0, P_(18), "move construction touched keys or storage");
            REQUIRE(c(i).empty() && c(i).size() == 0, P_(18), "moved-from set is not empty");
            Seq saved = m[i]; m[i].clear();
            REQUIRE(t.size() == saved.size(), P_(18) | P_(3), "move construction lost keys");
            { size_t j = 0; for (I it = t.begin(); it != t.end(); ++it, ++j) REQUIRE(j < saved.size() && addr(*it) == saved[j].addr && it == saved[j].it, P_(18) | P_(15), "move construction moved key %zu", j); REQUIRE(j == saved.size(), P_(18) | P_(3), "move construction lost keys"); }
            if (AllocOps<A>::monitored) REQUIRE(AllocOps<A>::arena(t.get_allocator()) == arena[i], P_(6), "move construction changed the allocator");
            for (int k = 0; k < 2 && !saved.empty(); ++k)
            {
                Val x = saved[r.below(saved.size())].v; Holder<T> h(x);
                Call k2; I it = t.find(h.cref()); k2.done();
                REQUIRE(it != t.end(), P_(3) | P_(18), "key lost by move construction");
            }
            check(i, "moved-from");
            if (r.chance(1, 2)) { G().fk = F_NONE; int ks = plan.step; bool st = plan.storm; plan.step = -1; plan.storm = false; Val x = nv(); logf("  use the moved-from set"); size_t extra = saved.size(); (void)extra;
                Holder<T> h(x); E err; Call k2; IF res = c(i).insert_nothrow(err, h.cref()); k2.done();
                REQUIRE(!err && res.second, P_(18) | P_(3), "moved-from set cannot be used");
                m[i].push_back(Node(x)); check(i, "use after move"); plan.step = ks; plan.storm = st; }
            size_t had = m[i].size();
            if (r.chance(2, 3))
            {
                Call k3; c(i) = std::move(t); k3.done(); Delta d3(k3);
                REQUIRE(d3.births() == 0 && d3.assign == 0 && d3.alloc == 0, P_(18), "set move assignment touched transferred keys");
                if (CORES) REQUIRE(d3.destroy == CORES * had, P_(18) | P_(5), "set move assignment did not destroy exactly the old keys");
                REQUIRE(t.empty() && t.size() == 0 && t.begin() == t.end(), P_(18), "source of move assignment is not empty");
                m[i] = saved; logf("  moved back");
            }
            { Call k4; C sink(std::move(t)); }
            check_live("move", 0); check_all("move", P_(18));
            break;
        }
        case 37: case 38:
        {
            logf("s%d = move(s%d)", i, o); COV("move assign");
            set_fault(F_NONE, 0);
            Call call; c(i) = std::move(c(o)); call.done(); Delta d(call);
            REQUIRE(d.births() == 0 && d.assign == 0 && d.alloc == 0, P_(18), "set move assignment constructed, assigned or allocated");
            if (CORES) REQUIRE(d.destroy == CORES * n, P_(18) | P_(5), "set move assignment destroyed %llu keys, target had %zu", d.destroy, n);
            m[i] = m[o]; m[o].clear(); arena[i] = arena[o]; kind[i] = kind[o];
            note("move assign", n, m[i].size(), true);
            check_live("move assign", 0); check_all("move assign", P_(18));
            break;
        }
        case 39:
        {
            if (r.chance(1, 2))
            {
                logf("s%d = move(s%d) (self)", i, i); COV("self move");
                set_fault(F_NONE, 0);
                Call call; C& self = c(i); c(i) = std::move(self); call.done();
                Seq now = read(i);
                REQUIRE(now.empty() || same_seq(m[i], now), P_(18), "self move left other contents");
                m[i] = now; check_live("self move", 0); check_all("self move");
            }
            else
            {
                logf("std::swap(s%d, s%d)", i, o); COV("std::swap");
                set_fault(F_NONE, 0);
                Call call; std::swap(c(i), c(o)); call.done(); Delta d(call);
                REQUIRE(d.touches() == 0 && d.alloc == 0 && d.dealloc == 0, P_(18), "std::swap of sets touched keys or storage");
                std::swap(m[i], m[o]); std::swap(arena[i], arena[o]); std::swap(kind[i], kind[o]);
                check_live("swap", 0); check_all("swap", P_(18));
            }
            break;
        }
        }
    }
};

template <class C, class T, class K, class E>
bool run(u64 seed, int nops, const Plan& p)
{
    bool fired;
    { SRun<C, T, K, E> v(seed, p); for (int s = 0; s < nops; ++s) v.one(); fired = v.plan_fired; }
    set_fault(F_NONE, 0);
    return fired;
}

template <class C, class T, class K, class E>
void do_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    u64 seed = mix2(o.seed * 1000003 + hash(name), n);
    Rng r(seed ^ 0x55);
    std::string mode = o.mode;
    if (mode == "random") run<C, T, K, E>(seed, r.chance(1, 5) ? 400 + (int)r.below(400) : 10 + (int)r.below(120), Plan());
    else if (mode == "storm") { Plan p; p.storm = true; run<C, T, K, E>(seed, 10 + (int)r.below(90), p); }
    else
    {
        int fk = mode == "allocfault" ? F_ALLOC : F_ELEM;
        int pre = 1 + (int)r.below(30), total = pre + 1 + (int)r.below(6);
        for (long long k = 1; k <= 80; ++k)
        {
            Plan p; p.step = pre; p.fk = fk; p.k = k; p.sticky = (fk == F_ALLOC && r.chance(1, 4));
            logf("--- history with the %lldth %s of operation %d failing", k, fk == F_ALLOC ? "allocation" : "element construction", pre);
            bool fired = run<C, T, K, E>(seed, total, p);
            end_case_new();
            REQUIRE(live().n == 0 && all_outstanding() == 0, P_(5) | P_(6), "leak after a history with a failed operation");
            if (!fired) break;
            COV("fault points enumerated");
            ++G().evaluations; commit_case();
        }
    }
    end_case_new();
    end_case();
}
struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
template <class T, class K, class A, class E> Entry ent(const char* n) { Entry e = { n, &do_case<nestl::set<T, K, A>, T, K, E> }; return e; }
}

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "set");
    std::string mode = o.mode;
    if (mode == "allocfault") G().mode_tags = P_(7);
    if (mode == "elemfault") G().mode_tags = P_(8);
    if (mode == "storm") G().mode_tags = P_(7) | P_(8);
    std::vector<Entry> es;
#if IN_PART(0)
    es.push_back(ent<Elem, Cmp<Elem>, Alloc<Elem>, DefErr>("set<Elem,Cmp,Alloc>"));
    es.push_back(ent<int, Cmp<int>, nestl::allocator<int>, CodeErr>("set<int,Cmp>/errc"));
#endif
#if IN_PART(1)
    es.push_back(ent<Two, Cmp<Two>, Alloc<Two>, DefErr>("set<Two,Cmp,Alloc>"));
    es.push_back(ent<Wide, std::less<Wide>, Alloc<Wide>, usr::Err>("set<Wide,less,Alloc>/user-error"));
    es.push_back(ent<Elem, Cmp<Elem>, PAlloc<Elem>, CodeErr>("set<Elem,Cmp,PAlloc>/errc"));
    es.push_back(ent<Pod, std::less<Pod>, Alloc<Pod>, usr::Err>("set<Pod,less,Alloc>/user-error"));
#endif
#if VF_EX
#if IN_PART(2)
    es.push_back(ent<Thrower, Cmp<Thrower>, Alloc<Thrower>, DefErr>("set<Thrower,Cmp,Alloc>"));
    es.push_back(ent<Thrower, FCmp<Thrower>, PAlloc<Thrower>, DefErr>("set<Thrower,FCmp,PAlloc>"));
    es.push_back(ent<LateThrower, std::less<LateThrower>, nestl::allocator<LateThrower>, usr::Err>("set<LateThrower>/user-error"));
#endif
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i)
    {
        bool canfail = std::strstr(es[i].name, "Two") || std::strstr(es[i].name, "Thrower");
        if (mode == "elemfault" && !canfail) continue;
        if (o.only && std::strcmp(o.only, es[i].name)) continue;
        use.push_back(es[i]);
    }
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
