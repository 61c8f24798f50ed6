// Replaced global operator new/delete: records and can refuse what nestl::allocator asks for.
#ifndef VF_NEWHOOK_HPP
#define VF_NEWHOOK_HPP
#include "vf.hpp"

namespace vf
{
struct NewRec { size_t bytes; };
inline PtrMap<NewRec>& news() { static PtrMap<NewRec> m; return m; }
struct NewStat { u64 asked, max_asked, given; };
inline NewStat& newstat() { static NewStat s; return s; }
inline size_t& new_cap() { static size_t c = (size_t)64 << 20; return c; }
}

void* operator new(std::size_t n, const std::nothrow_t&) noexcept
{
    using namespace vf;
    State& g = G();
    if (!g.armed) return std::malloc(n ? n : 1);
    ++g.ev.alloc; ++newstat().asked; if (n > newstat().max_asked) newstat().max_asked = n;
    if (n > new_cap()) { ++g.refused; return nullptr; }
    if (tick(F_ALLOC, nullptr)) return nullptr;
    void* p = std::malloc(n ? n : 1);
    if (!p) return nullptr;
    VF_FRESH(p, n ? n : 1);
    news().put((std::uintptr_t)p)->bytes = n;
    ++newstat().given;
    return p;
}
void* operator new(std::size_t n)
{
    void* p = std::malloc(n ? n : 1);
#if VF_EX
    if (!p) throw std::bad_alloc();
#else
    if (!p) std::abort();
#endif
    return p;
}
void operator delete(void* p) noexcept
{
    if (!p) return;
    if (vf::news().n) { vf::NewRec* r = vf::news().get((std::uintptr_t)p); if (r) { std::memset(p, 0xDD, r->bytes); vf::news().del((std::uintptr_t)p); ++vf::G().ev.dealloc; } }
    std::free(p);
}
void operator delete(void* p, std::size_t) noexcept { operator delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { operator delete(p); }

namespace vf
{
// bytes really obtained for the storage starting at p, by whichever route; 0 if unknown
inline size_t storage_bytes(const void* p)
{
    if (NewRec* r = news().get((std::uintptr_t)p)) return r->bytes;
    if (BlockRec* b = blocks().get((std::uintptr_t)p)) return b->bytes;
#if VF_ASAN
    if (__sanitizer_get_ownership(p)) return __sanitizer_get_allocated_size(p);
#endif
    return 0;
}
inline size_t all_outstanding() { return blocks().n + news().n; }
inline void end_case_new()
{
    REQUIRE(news().n == 0, P_(6), "%zu blocks from operator new still outstanding after every container is gone", (size_t)news().n);
}
}
#endif
