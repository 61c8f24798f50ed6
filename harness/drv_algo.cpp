// copy, copy_if, equal, lexicographical_compare against their definitions, with checked iterators, recorded
// predicate calls and failing assignments.
#include "vf.hpp"
#include "newhook.hpp"
#include <deque>
#include <iterator>
#include <algorithm>
using namespace vf;

namespace
{
// destination row with guard elements on both sides
template <class T>
struct Out
{
    static const size_t PAD = 3;
    Row<T> row; size_t n; std::vector<Val> before;
    static std::vector<Val> init(size_t n) { std::vector<Val> v; for (size_t i = 0; i < n + 2 * PAD; ++i) v.push_back(ET<T>::norm(Val(100 + (int)(i % 20), 1000 + (int)i))); return v; }
    explicit Out(size_t k) : row(init(k)), n(k), before(init(k)) {}
    T* begin() { return row.p + PAD; }
    void check(const char* what, const std::vector<Val>& written)
    {
        for (size_t i = 0; i < n + 2 * PAD; ++i)
        {
            Val w = before[i];
            if (i >= PAD && i - PAD < written.size()) w = written[i - PAD];
            Val g = ET<T>::val(row.p[i]);
            REQUIRE(g == w, P_(13), "%s: destination slot %zd holds (%d,%d), expected (%d,%d); %zu elements written", what, (std::ptrdiff_t)i - (std::ptrdiff_t)PAD, g.key, g.tag, w.key, w.tag, written.size());
        }
    }
};

// output iterator that only lets each position be written once, in order
template <class T>
struct OutIt
{
    typedef std::output_iterator_tag iterator_category;
    typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    T* p; T* lo; T* hi;
    OutIt(T* q, T* l, T* h) : p(q), lo(l), hi(h) {}
    T& operator*() const { if (p < lo || p >= hi) violation(P_(13), "write outside the destination range"); return *p; }
    OutIt& operator++() { if (p >= hi) violation(P_(13), "output iterator advanced past what was selected"); ++p; return *this; }
    OutIt operator++(int) { OutIt r = *this; ++*this; return r; }
};
template <class T> T* base(T* p) { return p; }
template <class T> T* base(const OutIt<T>& o) { return o.p; }

struct Ctx { Rng r; explicit Ctx(u64 s) : r(s) {} };

std::vector<Val> vals(Rng& r, size_t n, unsigned keys, int tag0)
{
    std::vector<Val> v;
    for (size_t i = 0; i < n; ++i) v.push_back(Val((int)r.below(keys), tag0 + (int)i));
    return v;
}
template <class T> std::vector<Val> normed(std::vector<Val> v) { for (size_t i = 0; i < v.size(); ++i) v[i] = ET<T>::norm(v[i]); return v; }

size_t pick_len(Rng& r) { switch (r.below(6)) { case 0: return 0; case 1: return 1; case 2: return 2 + r.below(60); default: return r.below(9); } }

// ---------------------------------------------------------------- copy / copy_if
template <class T, class E, class In, class OutI>
void do_copy(const char* what, In a, In b, OutI d, const std::vector<Val>& src, const std::vector<bool>* sel, Out<T>& out, long long fault, bool& fired, std::function<bool(const T&)> pred, size_t* predcalls)
{
    std::vector<Val> want;
    for (size_t i = 0; i < src.size(); ++i) if (!sel || (*sel)[i]) want.push_back(src[i]);
    T* d0 = base(d);
    set_fault(fault ? F_ELEM : F_NONE, fault);
    E err;
    Call call;
    T* end = sel ? base(nestl::copy_if(err, a, b, d, pred)) : base(nestl::copy(err, a, b, d));
    call.done();
    Delta dl(call);
    fired = G().fired;
    ErrInfo info = check_err(err, P_(13), what);
    if (fired && !info.cat) violation(P_(13), "%s: failed assignment not reported", what);
    check_sets(err, info.cat != 0);
    size_t done = info.cat ? (size_t)(fault - 1) : want.size();
    REQUIRE(end == d0 + done, P_(13), "%s: returned position %zd, expected %zu (%s)", what, (std::ptrdiff_t)(end - d0), done, info.cat ? "the failed element" : "past the last element written");
    want.resize(done);
    out.check(what, want);
    if (ET<T>::tracked)
    {
        REQUIRE(dl.births() == 0 && dl.destroy == 0, P_(13) | P_(5), "%s: constructed or destroyed elements", what);
        REQUIRE(dl.assign == done, P_(13), "%s: %llu assignments for %zu elements", what, dl.assign, done);
    }
    if (sel)
    {
        size_t calls = src.size();
        if (info.cat) { calls = 0; size_t hit = 0; while (hit < (size_t)fault) { if ((*sel)[calls]) ++hit; ++calls; } }
        REQUIRE(*predcalls == calls, P_(13), "%s: predicate called %zu times, expected %zu", what, *predcalls, calls);
    }
    obs(done);
    if (info.cat) COV("copies stopped by a failed assignment"); else COV("copies compared");
}

template <class T, class E, class Tag>
void copy_tag(Ctx& c, bool filtered, const char* what)
{
    const size_t n = pick_len(c.r);
    std::vector<Val> src = normed<T>(vals(c.r, n, 6, 1));
    std::vector<bool> sel; size_t nsel = 0;
    unsigned dens = (unsigned)c.r.below(4);
    for (size_t i = 0; i < n; ++i) { bool b = dens == 0 ? false : dens == 1 ? true : c.r.chance(1, 2); sel.push_back(b); nsel += b; }
    if (!filtered) nsel = n;
    const bool checked_out = c.r.chance(1, 2);
    for (long long k = 0; k <= (long long)std::min<size_t>(nsel, 12); ++k)
    {
        Row<T> row(src);
        Out<T> out(nsel + (checked_out ? 0 : 2));
        RangeState<T> st = { row.begin(), row.end(), 0 };
        It<T, Tag> a(&st, row.begin()), b(&st, row.end());
        size_t calls = 0; T* first = row.begin();
        std::function<bool(const T&)> pred = [&](const T& x) -> bool {
            size_t i = (size_t)(addr(x) - first);
            if (i >= n) violation(P_(13), "%s: predicate applied outside the source range", what);
            if (i != calls) violation(P_(13), "%s: predicate call %zu is for element %zu", what, calls, i);
            ++calls; return sel[i];
        };
        bool fired = false;
        logf("%s n=%zu selected=%zu fault at assignment %lld", what, n, nsel, k);
        if (checked_out) do_copy<T, E>(what, a, b, OutIt<T>(out.begin(), out.begin(), out.begin() + nsel), src, filtered ? &sel : nullptr, out, k, fired, pred, &calls);
        else do_copy<T, E>(what, a, b, out.begin(), src, filtered ? &sel : nullptr, out, k, fired, pred, &calls);
        for (size_t i = 0; i < n; ++i) REQUIRE(ET<T>::val(row.p[i]) == src[i], P_(13), "%s: source element %zu altered", what, i);
        sig(mix2(hash(what), mix2(std::min<size_t>(n, 20) * 32 + std::min<size_t>(nsel, 20), (u64)k)));
        if (k && !fired) break;
        if (k) { COV("fault points enumerated"); ++G().evaluations; }
    }
}

// destinations that are written through something other than a reference to an element: inserters, recorders
template <class T>
struct Recorder
{
    struct Slot
    {
        std::vector<std::pair<size_t, Val>>* log; size_t at;
        template <class V> Slot& operator=(V&& v) noexcept(!VF_EX)
        {
            boom(nullptr);
            const T& r = v; log->push_back(std::make_pair(at, ET<T>::val(r)));
            return *this;
        }
    };
    typedef std::output_iterator_tag iterator_category; typedef void value_type; typedef std::ptrdiff_t difference_type; typedef void pointer; typedef void reference;
    Slot s;
    Slot& operator*() { return s; }
    Recorder& operator++() { ++s.at; return *this; }
    Recorder operator++(int) { Recorder r = *this; ++s.at; return r; }
};
template <class T, class E>
void to_proxies(Ctx& c, const std::vector<Val>& src)
{
    const size_t n = src.size();
    Row<T> row(src);
    std::vector<bool> sel; size_t nsel = 0; const bool filtered = c.r.chance(1, 2);
    for (size_t i = 0; i < n; ++i) { bool b = !filtered || c.r.chance(1, 2); sel.push_back(b); nsel += b; }
    size_t calls = 0; T* first = row.begin();
    auto pred = [&](const T& x) -> bool { ++calls; return sel[(size_t)(addr(x) - first)]; };
    std::vector<std::pair<size_t, Val>> log; long long left = 0;
#if VF_EX
    // (only for types the builds without exceptions do not have, so that all builds can be compared)
    if (!std::is_nothrow_copy_constructible<T>::value && c.r.chance(1, 2)) left = 1 + (long long)c.r.below(nsel + 2);
#endif
    const size_t good = left && left <= (long long)nsel ? (size_t)left - 1 : nsel;
    Recorder<T> out; out.s.log = &log; out.s.at = 0;
    logf("copy of %zu of %zu into a recorder, write %lld fails", nsel, n, left);
    set_fault(left ? F_ELEM : F_NONE, left);
    E err; Call call;
    Recorder<T> end = filtered ? nestl::copy_if(err, (const T*)row.begin(), (const T*)row.end(), out, pred) : nestl::copy(err, (const T*)row.begin(), (const T*)row.end(), out);
    call.done();
    const bool failed = good < nsel;
    REQUIRE(failed == (bool)err, P_(13), "copy (recorder): write %zu of %zu %s, error %s", good + 1, nsel, failed ? "failed" : "did not fail", err ? "set" : "not set");
    check_err(err, P_(13), "copy (recorder)"); set_fault(F_NONE, 0);
    REQUIRE(end.s.at == good, P_(13), "copy (recorder): position %zu returned, expected %zu", end.s.at, good);
    REQUIRE(log.size() == good, P_(13), "copy (recorder): %zu elements written, expected %zu", log.size(), good);
    size_t j = 0;
    for (size_t i = 0; i < n && j < good; ++i) if (sel[i]) { REQUIRE(log[j].first == j && log[j].second == src[i], P_(13), "copy (recorder): write %zu is wrong", j); ++j; }
    if (filtered && !failed) REQUIRE(calls == n, P_(13), "copy_if (recorder): predicate called %zu times for %zu elements", calls, n);
    for (size_t i = 0; i < n; ++i) REQUIRE(ET<T>::val(row.p[i]) == src[i], P_(13), "copy (recorder): source element %zu altered", i);
    COV("copies into recorders"); sig(mix2(n * 64 + good, 17 + filtered));
#if VF_EX
    {
        std::vector<Val> got; std::vector<int> keys; for (size_t i = 0; i < n; ++i) keys.push_back(src[i].key);
        std::deque<long> ins; E e2; size_t at = 0;
        if (filtered) nestl::copy_if(e2, keys.begin(), keys.end(), std::back_inserter(ins), [&](int) { return (bool)sel[at++]; });
        else nestl::copy(e2, keys.begin(), keys.end(), std::front_inserter(ins));
        std::vector<long> want; for (size_t i = 0; i < n; ++i) if (sel[i]) want.push_back(keys[i]);
        if (!filtered) std::reverse(want.begin(), want.end());
        REQUIRE(!e2 && ins.size() == want.size() && std::equal(want.begin(), want.end(), ins.begin()), P_(13), "copy (inserter): wrong elements or error");
        COV("copies into inserters");
    }
#endif
}

// plain pointers, overlapping left shift, move iterators, container iterators
template <class T, class E>
void copy_misc(Ctx& c)
{
    const size_t n = pick_len(c.r);
    std::vector<Val> src = normed<T>(vals(c.r, n, 6, 1));
    switch (c.r.below(5))
    {
    case 4: to_proxies<T, typename std::conditional<std::is_same<E, CodeErr>::value, DefErr, E>::type>(c, src); break;
    case 0:
    {
        // shift left within one row
        Row<T> row(src);
        size_t s = n ? c.r.below(n + 1) : 0;
        logf("copy left by %zu within %zu", s, n);
        set_fault(F_NONE, 0);
        E err; Call call; T* e = nestl::copy(err, row.begin() + s, row.end(), row.begin()); call.done();
        REQUIRE(!err && e == row.begin() + (n - s), P_(13), "copy (left shift): error or wrong position");
        for (size_t i = 0; i < n; ++i)
        {
            Val w = i < n - s ? src[i + s] : src[i];
            REQUIRE(ET<T>::val(row.p[i]) == w, P_(13), "copy (left shift by %zu): element %zu wrong", s, i);
        }
        COV("overlapping copies"); sig(mix2(n * 64 + s, 11));
        break;
    }
    case 1:
    {
        Row<T> row(src); Out<T> out(n);
        logf("copy of %zu through move iterators", n);
        set_fault(F_NONE, 0);
        E err; Call call; T* e = nestl::copy(err, std::make_move_iterator(row.begin()), std::make_move_iterator(row.end()), out.begin()); call.done();
        REQUIRE(!err && e == out.begin() + n, P_(13), "copy (move iterators): error or wrong position");
        out.check("copy (move iterators)", src);
        if (ET<T>::movable) for (size_t i = 0; i < n; ++i) REQUIRE(ET<T>::val(row.p[i]).key == MOVED, P_(13) | P_(12), "copy (move iterators): element %zu was copied, not moved", i);
        COV("copies through move iterators"); sig(mix2(n, 12));
        break;
    }
    case 2: case 3:
    {
        // between library containers
        Row<T> row(src);
        nestl::no_exceptions::list<T, Alloc<T>> l((Alloc<T>(3))); nestl::no_exceptions::vector<T, Alloc<T>> v((Alloc<T>(4)));
        set_fault(F_NONE, 0);
        {
            E e; Call k;
            for (size_t i = 0; i < n; ++i) { l.push_back_nothrow(e, row.p[i]); v.push_back_nothrow(e, row.p[i]); }
            if (e) violation(P_(13), "setup");
        }
        std::vector<Val> rev(src.rbegin(), src.rend());
        logf("copy between containers of %zu", n);
        E err; bool ok;
        if (c.r.chance(1, 2))
        {
            // list backwards into the vector
            Call call; auto e = nestl::copy(err, l.crbegin(), l.crend(), v.begin()); call.done();
            ok = !err && (size_t)(e - v.begin()) == n;
            for (size_t i = 0; i < n && ok; ++i) ok = ET<T>::val(v[i]) == rev[i];
        }
        else
        {
            Call call; auto e = nestl::copy(err, v.crbegin(), v.crend(), l.begin()); call.done();
            ok = !err && e == l.end();
            size_t i = 0; for (auto it = l.cbegin(); ok && it != l.cend(); ++it, ++i) ok = ET<T>::val(*it) == rev[i];
        }
        REQUIRE(ok, P_(13), "copy between containers: wrong contents or position");
        COV("copies between containers"); sig(mix2(n, 13));
        G().armed = true; // destruction belongs to the library
        break;
    }
    }
    G().armed = false;
}

// ---------------------------------------------------------------- equal / lexicographical_compare
template <class T, class Tag1, class Tag2>
void compare_tag(Ctx& c)
{
    Rng& r = c.r;
    size_t n = pick_len(r), m = r.chance(1, 2) ? n : pick_len(r);
    unsigned keys = r.chance(1, 3) ? 1 : 3;
    std::vector<Val> x = normed<T>(vals(r, n, keys, 1)), y = normed<T>(vals(r, m, keys, 500));
    // make long common prefixes likely
    size_t common = std::min(n, m);
    if (r.chance(2, 3)) { size_t k = r.below(common + 1); if (r.chance(1, 2)) k = common; for (size_t i = 0; i < k; ++i) y[i] = x[i]; }
    Row<T> rx(x), ry(y);
    for (unsigned w = 0; w < 6; ++w)
    {
        RangeState<T> sx = { rx.begin(), rx.end(), 0 }, sy = { ry.begin(), ry.end(), 0 };
        typedef It<T, Tag1> A; typedef It<T, Tag2> B;
        A a(&sx, rx.begin()), ae(&sx, rx.end()); B b(&sy, ry.begin()), be(&sy, ry.end());
        std::vector<std::pair<std::ptrdiff_t, std::ptrdiff_t>> calls; bool swapped_ok = false;
        size_t i = 0;
        std::function<bool(const T&, const T&)> rec = [&](const T& p, const T& q) -> bool {
            const T* pp = addr(p); const T* qq = addr(q);
            bool fwd = pp >= rx.begin() && pp < rx.end() && qq >= ry.begin() && qq < ry.end();
            bool bwd = pp >= ry.begin() && pp < ry.end() && qq >= rx.begin() && qq < rx.end();
            if (!fwd && !(swapped_ok && bwd)) violation(P_(13), "comparison applied to elements outside the two ranges, or in the wrong argument order");
            std::ptrdiff_t i1 = fwd ? pp - rx.begin() : qq - rx.begin(), i2 = fwd ? qq - ry.begin() : pp - ry.begin();
            if (i1 != i2) violation(P_(13), "comparison pairs element %td with element %td", i1, i2);
            if (!calls.empty() && i1 < calls.back().first) violation(P_(13), "comparison goes back to element %td", i1);
            calls.push_back(std::make_pair(i1, fwd ? 0 : 1));
            Val u = ET<T>::val(p), v = ET<T>::val(q);
            if (!swapped_ok) return w == 1 ? u.key == v.key : u.key <= v.key;      // equality, or an asymmetric relation
            return w == 4 ? u.key < v.key : v.key < u.key;
        };
        bool got = false, want = false;
        set_fault(F_NONE, 0);
        switch (w)
        {
        case 0:   // equal, operator==
        {
            if (m < n) continue;
            for (i = 0; i < n && x[i] == y[i]; ++i) {}
            want = i == n;
            Call k; got = nestl::equal(a, ae, b); k.done();
            if (ET<T>::tracked) { Delta d(k); REQUIRE(d.cmp <= n && d.touches() == 0, P_(13), "equal: %llu comparisons for %zu elements, or elements touched", d.cmp, n); }
            break;
        }
        case 1: case 2:   // equal with predicate (an equivalence; a relation that is not symmetric)
        {
            if (m < n) continue;
            for (i = 0; i < n && (w == 1 ? x[i].key == y[i].key : x[i].key <= y[i].key); ++i) {}
            want = i == n;
            Call k; got = nestl::equal(a, ae, b, rec); k.done();
            REQUIRE(calls.size() <= n, P_(13), "equal: predicate called %zu times for %zu elements", calls.size(), n);
            break;
        }
        case 3:   // lexicographical, operator<
        {
            for (i = 0; i < n && i < m && x[i].key == y[i].key; ++i) {}
            want = i < m && (i == n || x[i].key < y[i].key);
            Call k; got = nestl::lexicographical_compare(a, ae, b, be); k.done();
            if (ET<T>::tracked) { Delta d(k); REQUIRE(d.cmp <= 2 * common && d.touches() == 0, P_(13), "lexicographical_compare: too many comparisons or elements touched"); }
            break;
        }
        case 4: case 5:   // with comparison, ascending and descending
        {
            swapped_ok = true;
            for (i = 0; i < n && i < m && x[i].key == y[i].key; ++i) {}
            want = i < m && (i == n || (w == 4 ? x[i].key < y[i].key : y[i].key < x[i].key));
            Call k; got = nestl::lexicographical_compare(a, ae, b, be, rec); k.done();
            REQUIRE(calls.size() <= 2 * common, P_(13), "lexicographical_compare: comparison called %zu times for %zu pairs", calls.size(), common);
            break;
        }
        }
        static const char* const N[] = { "equal", "equal with predicate", "equal with one-sided predicate", "lexicographical_compare", "lexicographical_compare with comparison", "lexicographical_compare descending" };
        logf("%s n=%zu m=%zu first difference %zu -> %d", N[w], n, m, i, (int)got);
        REQUIRE(got == want, P_(13), "%s: answered %d for ranges of %zu and %zu whose first difference is at %zu, expected %d", N[w], (int)got, n, m, i, (int)want);
        COVD(N[w]); obs(got);
        sig(mix2(w * 10007 + std::min<size_t>(n, 16) * 20 + std::min<size_t>(m, 16), i));
    }
}

template <class T, class E>
void algo_case(const Options& o, u64 n, const char* name)
{
    begin_case(n, name);
    Ctx c(mix2(o.seed * 1000003 + hash(name), n));
    switch (c.r.below(4))
    {
    case 0:
        switch (c.r.below(4))
        {
        case 0: copy_tag<T, E, std::input_iterator_tag>(c, false, "copy from input iterators"); break;
        case 1: copy_tag<T, E, std::forward_iterator_tag>(c, false, "copy from forward iterators"); break;
        case 2: copy_tag<T, E, std::bidirectional_iterator_tag>(c, false, "copy from bidirectional iterators"); break;
        default: copy_tag<T, E, std::random_access_iterator_tag>(c, false, "copy from random access iterators"); break;
        }
        break;
    case 1:
        switch (c.r.below(3))
        {
        case 0: copy_tag<T, E, std::input_iterator_tag>(c, true, "copy_if from input iterators"); break;
        case 1: copy_tag<T, E, std::forward_iterator_tag>(c, true, "copy_if from forward iterators"); break;
        default: copy_tag<T, E, std::random_access_iterator_tag>(c, true, "copy_if from random access iterators"); break;
        }
        break;
    case 2: copy_misc<T, E>(c); break;
    default:
        switch (c.r.below(4))
        {
        case 0: compare_tag<T, std::input_iterator_tag, std::input_iterator_tag>(c); break;
        case 1: compare_tag<T, std::forward_iterator_tag, std::input_iterator_tag>(c); break;
        case 2: compare_tag<T, std::random_access_iterator_tag, std::random_access_iterator_tag>(c); break;
        default: compare_tag<T, std::bidirectional_iterator_tag, std::forward_iterator_tag>(c); break;
        }
    }
    end_case_new();
    end_case();
}
// ---------------------------------------------------------------- plain pointers over built-in and bytewise copyable types
enum Colour { RED = -1, GREEN = 0, BLUE = 300 };
template <class T> struct Plain { static T of(Rng& r) { static const long long k[] = { 0, 0, 1, 2, 3, -1, -2, 127, -128, 200, 255, 256, 1000 }; return (T)k[r.below(13)]; } };
template <> struct Plain<double> { static double of(Rng& r) { switch (r.below(7)) { case 0: return 0.0; case 1: return -0.0; case 2: return std::numeric_limits<double>::quiet_NaN(); case 3: return -1.5; case 4: return std::numeric_limits<double>::infinity(); default: return (double)r.below(3); } } };
template <> struct Plain<float> { static float of(Rng& r) { return (float)Plain<double>::of(r); } };
template <> struct Plain<Pod> { static Pod of(Rng& r) { return Pod((int)r.below(4) - 1); } };
template <> struct Plain<bool> { static bool of(Rng& r) { return r.chance(1, 2); } };
template <> struct Plain<Colour> { static Colour of(Rng& r) { static const Colour k[] = { RED, GREEN, BLUE }; return k[r.below(3)]; } };
template <class T> bool bytes_same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
inline bool bytes_same(const Pod& a, const Pod& b) { return a.junk == b.junk && a.key == b.key && a.low == b.low; }

template <class A, class B, class E>
void plain_case(const Options& o, u64 no, const char* name)
{
    begin_case(no, name);
    Rng r(mix2(o.seed * 1000003 + hash(name), no));
    const size_t n = pick_len(r), m = r.chance(1, 2) ? n : pick_len(r), PAD = 3;
    std::vector<A> av; for (size_t i = 0; i < n; ++i) av.push_back(Plain<A>::of(r));
    std::vector<B> bv; for (size_t i = 0; i < m; ++i) bv.push_back(Plain<B>::of(r));
    const size_t common = std::min(n, m);
    if (r.chance(3, 4)) { size_t k = r.chance(1, 2) ? common : r.below(common + 1); for (size_t i = 0; i < k; ++i) { B x = (B)av[i]; bv[i] = x; } }
    // exact sized heap blocks: one element too many is seen by the sanitizer
    struct Raw { void* p; explicit Raw(size_t z) : p(std::malloc(z ? z : 1)) {} ~Raw() { std::free(p); } private: Raw(const Raw&); Raw& operator=(const Raw&); };
    Raw ra(n * sizeof(A)), rb(m * sizeof(B));
    A* a = static_cast<A*>(ra.p); B* b = static_cast<B*>(rb.p);
    for (size_t i = 0; i < n; ++i) ::new (static_cast<void*>(a + i)) A(av[i]);
    for (size_t i = 0; i < m; ++i) ::new (static_cast<void*>(b + i)) B(bv[i]);
    const A* ca = a; const B* cb = b;
    const bool constant = r.chance(1, 2);
    set_fault(F_NONE, 0);
    size_t i; bool want, got;
    if (n <= m)
    {
        for (i = 0; i < n && av[i] == bv[i]; ++i) {}
        want = i == n;
        { Call k; got = constant ? nestl::equal(ca, ca + n, cb) : nestl::equal(a, a + n, b); }
        logf("equal of %zu plain elements, first difference %zu -> %d", n, i, (int)got);
        REQUIRE(got == want, P_(13), "equal (plain pointers): answered %d for %zu elements whose first difference is at %zu", (int)got, n, i);
        { Call k; got = nestl::equal(a, a + n, cb, [](const A& x, const B& y) { return !(y < x); }); }
        for (i = 0; i < n && !(bv[i] < av[i]); ++i) {}
        REQUIRE(got == (i == n), P_(13), "equal with relation (plain pointers): answered %d, %zu elements, first pair that is not related %zu", (int)got, n, i);
        sig(mix2(n, i)); obs(got);
    }
    for (i = 0; i < common && !(av[i] < bv[i]) && !(bv[i] < av[i]); ++i) {}
    want = i == common ? n < m : av[i] < bv[i];
    { Call k; got = constant ? nestl::lexicographical_compare(ca, ca + n, cb, cb + m) : nestl::lexicographical_compare(a, a + n, b, b + m); }
    logf("lexicographical_compare of %zu and %zu plain elements, first difference %zu -> %d", n, m, i, (int)got);
    REQUIRE(got == want, P_(13), "lexicographical_compare (plain pointers): answered %d for %zu and %zu elements that first differ at %zu", (int)got, n, m, i);
    sig(mix2(n * 64 + m, i)); obs(got);
    // copy and copy_if, the destination between guards
    for (int filtered = 0; filtered < 2; ++filtered)
    {
        std::vector<bool> sel; std::vector<B> out;
        for (i = 0; i < n; ++i) { bool t = !filtered || r.chance(1, 2); sel.push_back(t); if (t) out.push_back((B)av[i]); }
        Raw rd((out.size() + 2 * PAD) * sizeof(B)); B* d = static_cast<B*>(rd.p);
        std::vector<B> before; for (i = 0; i < out.size() + 2 * PAD; ++i) before.push_back(Plain<B>::of(r));
        for (i = 0; i < before.size(); ++i) ::new (static_cast<void*>(d + i)) B(before[i]);
        E err; B* end; size_t at = 0;
        {
            Call k;
            if (filtered) end = nestl::copy_if(err, ca, ca + n, d + PAD, [&](const A&) { return (bool)sel[at++]; });
            else end = constant ? nestl::copy(err, ca, ca + n, d + PAD) : nestl::copy(err, a, a + n, d + PAD);
        }
        logf("copy%s of %zu plain elements", filtered ? "_if" : "", n);
        REQUIRE(!err && end == d + PAD + out.size(), P_(13), "copy (plain pointers): error or wrong position");
        for (i = 0; i < before.size(); ++i)
        {
            const B& w = i < PAD || i >= PAD + out.size() ? before[i] : out[i - PAD];
            REQUIRE(bytes_same(d[i], w), P_(13), "copy (plain pointers): destination slot %zd of %zu is wrong", (std::ptrdiff_t)i - (std::ptrdiff_t)PAD, out.size());
        }
        for (i = 0; i < n; ++i) REQUIRE(bytes_same(a[i], A(av[i])), P_(13), "copy (plain pointers): source element %zu altered", i);
        COV("plain ranges copied");
    }
    COV("plain ranges compared");
    end_case_new();
    end_case();
}
struct Entry { const char* name; void (*fn)(const Options&, u64, const char*); };
} // namespace

int main(int argc, char** argv)
{
    Options o = parse(argc, argv, "algo");
    G().mode_tags = P_(13);
    std::vector<Entry> es;
#if IN_PART(0)
    es.push_back({ "algo<Elem>", &algo_case<Elem, DefErr> });
    es.push_back({ "algo<int>/user-error", &algo_case<int, usr::Err> });
#endif
#if IN_PART(2)
    es.push_back({ "algo<Pod>/errc", &algo_case<Pod, CodeErr> });
#define PLAIN(A, B, E, name) es.push_back({ "plain " name, &plain_case<A, B, E> });
    PLAIN(signed char, signed char, DefErr, "signed chars") PLAIN(unsigned char, unsigned char, DefErr, "unsigned chars") PLAIN(char, signed char, usr::Err, "chars and signed chars")
    PLAIN(signed char, int, DefErr, "signed chars and ints") PLAIN(int, signed char, CodeErr, "ints and signed chars") PLAIN(int, int, DefErr, "ints") PLAIN(unsigned, long long, DefErr, "unsigneds and long longs")
    PLAIN(long long, short, usr::Err, "long longs and shorts") PLAIN(double, double, DefErr, "doubles") PLAIN(float, double, DefErr, "floats and doubles") PLAIN(int, double, DefErr, "ints and doubles")
    PLAIN(bool, bool, CodeErr, "bools") PLAIN(Colour, Colour, DefErr, "enumerators") PLAIN(Pod, Pod, DefErr, "plain structures") PLAIN(bool, int, DefErr, "bools and ints")
    // (same size, different representation)
    PLAIN(int, float, DefErr, "ints and floats") PLAIN(long long, double, usr::Err, "long longs and doubles") PLAIN(short, unsigned short, DefErr, "shorts and unsigned shorts") PLAIN(float, float, DefErr, "floats")
#endif
#if VF_EX && IN_PART(1)
    es.push_back({ "algo<Thrower>", &algo_case<Thrower, DefErr> });
    es.push_back({ "algo<CopyThrower>/user-error", &algo_case<CopyThrower, usr::Err> });
#endif
    std::vector<Entry> use;
    for (size_t i = 0; i < es.size(); ++i) if (!o.only || !std::strcmp(o.only, es[i].name)) use.push_back(es[i]);
    if (use.empty()) return finish();
    for (u64 n = o.from; n < o.to; ++n) { const Entry& e = use[n % use.size()]; e.fn(o, n, e.name); }
    return finish();
}
