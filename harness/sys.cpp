// Client programs of the new/delete resource and the global default resources.
#include "res.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include <cstring>
namespace pmr = cetl::pf17::pmr;

static void* ask(pmr::memory_resource& r, std::size_t n, std::size_t a)
{
    VP_TRY
    {
        void* const p = r.allocate(n, a);
#if defined(__cpp_exceptions)
        vp_assert(p != nullptr || n == 0, "P28: failures are reported by an exception");
#endif
        return p;
    }
    VP_CATCH
    {
        vp_assert(n != 0 || a > alignof(std::max_align_t), "P28: a request for nothing does not fail");
        vp_cover("refused");
    }
    return nullptr;
}
template <std::size_t A>
static void nd_allocate()
{
    pmr::deviant::MaxAlignNewDeleteResource r;
    const std::size_t                       n = vp_size();
    void* const                             p = ask(r, n, A);
    vp_assert(p == nullptr || A <= alignof(std::max_align_t), "P28: alignments that malloc cannot provide are refused");
    if (p != nullptr)
    {
        vp_assert((reinterpret_cast<std::uintptr_t>(p) & (A - 1U)) == 0U, "P28: allocations are aligned as requested");
        std::memset(p, 0, n);
        r.deallocate(p, n, A);
        vp_cover("got");
    }
}
VP_ENTRY(h_nd_1)
{
    nd_allocate<1>();
}
VP_ENTRY(h_nd_16)
{
    nd_allocate<16>();
}
VP_ENTRY(h_nd_32)
{
    nd_allocate<32>();
}
VP_ENTRY(h_nd_4096)
{
    nd_allocate<4096>();
}
template <std::size_t A>
static void nd_reallocate()
{
    pmr::deviant::MaxAlignNewDeleteResource r;
    const std::size_t                       n = vp_size(), m = vp_size();
    vp_assume(m > 0);
    void* const p = vp_bool() ? ask(r, n, A) : nullptr;
    void*       q = nullptr;
    VP_TRY
    {
        q = r.reallocate(p, p == nullptr ? 0 : n, m, A);
    }
    VP_CATCH
    {
        vp_cover("refused");
    }
    if (q != nullptr)
    {
        vp_assert((reinterpret_cast<std::uintptr_t>(q) & (A - 1U)) == 0U, "P28: allocations are aligned as requested");
        std::memset(q, 0, m);
        r.deallocate(q, m, A);
        vp_cover("resized");
    }
    else if (p != nullptr)
    {
        std::memset(p, 0, n);
        r.deallocate(p, n, A);
        vp_cover("kept");
    }
}
VP_ENTRY(h_nd_reallocate_1)
{
    nd_reallocate<1>();
}
VP_ENTRY(h_nd_reallocate_16)
{
    nd_reallocate<16>();
}
VP_ENTRY(h_nd_reallocate_64)
{
    nd_reallocate<64>();
}
VP_ENTRY(h_nd_content)
{
    pmr::deviant::MaxAlignNewDeleteResource r;
    const std::size_t                       n = vp_size(), m = vp_size();
    vp_assume(n >= 8 && m >= 8);
    auto* const p = static_cast<std::uint32_t*>(ask(r, n, 8));
    if (p != nullptr)
    {
        const auto v = static_cast<std::uint32_t>(vp_int());
        *p           = v;
        auto* const q = static_cast<std::uint32_t*>(r.reallocate(p, n, m, 8));
        vp_assert(*(q != nullptr ? q : p) == v, "P28: reallocation keeps the content");
        r.deallocate(q != nullptr ? q : p, q != nullptr ? m : n, 8);
        vp_cover("end");
    }
}
VP_ENTRY(h_nd_equal)
{
    pmr::deviant::MaxAlignNewDeleteResource r, o;
    vp_assert(r == r && r.is_equal(r), "P28: a resource equals itself");
    vp_assert(r.max_size() > 0, "P28: the heap has no fixed limit");
    vp_cover("end");
}

// ------------------------------------------------------------------------------------------------------ global variables
VP_ENTRY(h_glob_initial)
{
    pmr::memory_resource* const d = vp_bool() ? pmr::get_default_resource() : pmr::new_delete_resource();
    vp_assert(d != nullptr, "P30: there is a default resource from the start");
    vp_assert(d == pmr::get_default_resource() && d == pmr::new_delete_resource(),
              "P30: the default resource is the new/delete resource at first");
    void* const p = ask(*d, 8, 8);
    if (p != nullptr)
    {
        d->deallocate(p, 8, 8);
    }
    vp_cover("end");
}
VP_ENTRY(h_glob_default)
{
    Up                          a, b;
    pmr::memory_resource* const n = pmr::new_delete_resource();
    vp_assert(pmr::set_default_resource(&a) == n, "P30: set_default_resource() returns the previous one");
    vp_assert(pmr::get_default_resource() == &a, "P30: get_default_resource() returns what was set");
    vp_assert(pmr::set_default_resource(&b) == &a, "P30: set_default_resource() returns the previous one");
    vp_assert(pmr::new_delete_resource() == n, "P30: the new/delete resource is another variable");
    vp_assert(pmr::set_default_resource(nullptr) == &b, "P30: set_default_resource() returns the previous one");
    vp_assert(pmr::get_default_resource() == n, "P30: null stands for the new/delete resource");
    vp_cover("end");
}
VP_ENTRY(h_glob_new_delete)
{
    Up                          a, b;
    pmr::memory_resource* const n = pmr::new_delete_resource();
    pmr::memory_resource* const d = pmr::get_default_resource();
    vp_assert(pmr::deviant::set_new_delete_resource(&a) == n, "P30: set_new_delete_resource() returns the previous one");
    vp_assert(pmr::new_delete_resource() == &a, "P30: new_delete_resource() returns what was set");
    vp_assert(pmr::get_default_resource() == d, "P30: the default resource is another variable");
    vp_assert(pmr::deviant::set_new_delete_resource(&b) == &a, "P30: set_new_delete_resource() returns the previous one");
    vp_assert(pmr::set_default_resource(nullptr) == d, "P30: set_default_resource() returns the previous one");
    vp_assert(pmr::get_default_resource() == &b, "P30: null stands for the new/delete resource");
    vp_assert(pmr::deviant::set_new_delete_resource(nullptr) == &b, "P30: set_new_delete_resource() returns the previous one");
    vp_assert(pmr::new_delete_resource() == n, "P30: null restores the built-in resource");
    vp_cover("end");
}
VP_ENTRY(h_glob_mono)
{
    Up a;
    (void) pmr::set_default_resource(&a);
    {
        pmr::monotonic_buffer_resource m, k(vp_size());
        unsigned char                  buf[16];
        pmr::monotonic_buffer_resource b(buf, sizeof buf);
        vp_assert(m.upstream_resource() == &a && k.upstream_resource() == &a && b.upstream_resource() == &a,
                  "P30: resources use the default resource of their time");
        (void) pmr::set_default_resource(nullptr);
        vp_assert(m.upstream_resource() == &a, "P30: resources use the default resource of their time");
        void* p = nullptr;
        VP_TRY
        {
            p = m.allocate(8, 8);
        }
        VP_CATCH {}
        if (p != nullptr)
        {
            std::memset(p, 0, 8);
            vp_cover("got");
        }
    }
    vp_assert(a.given == 0, "P23: everything is returned upstream");
}
// other threads use the same variables
VP_ENTRY(h_thr_first)
{
    vp_concurrent();
    vp_assert(pmr::get_default_resource() != nullptr, "P30: there always is a resource");
    vp_assert(pmr::new_delete_resource() != nullptr, "P30: there always is a resource");
    vp_assert(vp_writes() == 0, "P30: reading changes nothing");
    vp_cover("end");
}
VP_ENTRY(h_thr_default)
{
    Up a;
    vp_concurrent();
    pmr::memory_resource* const r = pmr::set_default_resource(vp_bool() ? &a : nullptr);
    vp_assert(vp_writes() == 1 && r == vp_replaced(), "P30: setting returns what it replaced, even if others set it, too");
    vp_assert(vp_written() != nullptr, "P30: there always is a resource");
    vp_assert(pmr::get_default_resource() != nullptr, "P30: there always is a resource");
    vp_cover("end");
}
VP_ENTRY(h_thr_new_delete)
{
    Up a;
    vp_concurrent();
    pmr::memory_resource* const r = pmr::deviant::set_new_delete_resource(vp_bool() ? &a : nullptr);
    vp_assert(vp_writes() == 1 && r == vp_replaced(), "P30: setting returns what it replaced, even if others set it, too");
    vp_assert(vp_written() != nullptr, "P30: there always is a resource");
    vp_assert(pmr::new_delete_resource() != nullptr, "P30: there always is a resource");
    vp_cover("end");
}
VP_ENTRY(h_thr_null)
{
    vp_concurrent();
    pmr::memory_resource* const r = pmr::null_memory_resource();
    vp_assert(r != nullptr && r == pmr::null_memory_resource(), "P25: there is one null resource");
    vp_cover("end");
}
