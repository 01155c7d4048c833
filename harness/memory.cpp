// Client programs of the memory resources: monotonic buffer, buffer, array, new/delete and polymorphic_allocator.
#include "res.hpp"
#include "cetl/pf17/array_memory_resource.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pf17/memory_resource.hpp"
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pmr/buffer_memory_resource_delegate.hpp"
#include <cstring>
#include <limits>

namespace pmr = cetl::pf17::pmr;

constexpr std::size_t MAX  = static_cast<std::size_t>(-1);
static std::size_t some_align()
{
    return vp_bool() ? 1U : vp_bool() ? 4U : vp_bool() ? 16U : 64U;
}
template <typename R>
static void* ask(R& r, std::size_t n, std::size_t a)
{
    VP_TRY
    {
        return r.allocate(n, a);
    }
    VP_CATCH
    {
        vp_cover("refused");
    }
    return nullptr;
}
static void usable(void* p, std::size_t n, std::size_t a, const char* msg)
{
    vp_assert((reinterpret_cast<std::uintptr_t>(p) & (a - 1U)) == 0U, msg);
    std::memset(p, 0, n);
}

// ---------------------------------------------------------------------------------------------- monotonic buffer
using Mono = pmr::deviant::basic_monotonic_buffer_resource;

VP_ENTRY(h_mono_one)
{
    Up                up;
    const std::size_t n = vp_size(), s = vp_size_any(), a = some_align();
    void* const       b = vp_buffer(n);
    Mono              m(b, n, &up);
    vp_assert(m.upstream_resource() == &up, "P23: upstream resource");
    void* const p = ask(m, s, a);
    vp_assert(up.asked <= 1, "P23: one request asks upstream for one block at most");
    if (p != nullptr)
    {
        usable(p, s, a, "P23: allocations are aligned as requested");
        vp_assert((up.given == 0) == !vp_disjoint(p, 1, b, n + 1), "P23: the buffer is used as long as it has room");
        vp_cover("got");
        m.deallocate(p, s, a);
    }
    else
    {
        vp_assert(up.given == 0, "P23: a block obtained upstream satisfies the request");
    }
}
VP_ENTRY(h_mono_bare)
{
    Up                up;
    const std::size_t i = vp_size_any(), s = vp_size_any(), a = some_align();
    Mono              m(i, &up);
    void* const       p = ask(m, s, a);
    vp_assert(up.asked <= 1, "P23: one request asks upstream for one block at most");
    if (p != nullptr)
    {
        usable(p, s, a, "P23: allocations are aligned as requested");
        vp_assert(up.given == 1 && up.bytes > s, "P23: the block has room for what was asked for");
        vp_cover("got");
    }
}
template <std::size_t a, std::size_t c>
static void mono_two()
{
    Up                up(MAX);
    const std::size_t n = vp_size(), s = vp_size(), t = vp_size();
    void* const       b = vp_buffer(n);
    Mono              m(b, n, &up);
    void* const       p = ask(m, s, a);
    if (p == nullptr)
    {
        return;
    }
    void* const q = ask(m, t, c);
    if (q != nullptr)
    {
        usable(p, s, a, "P23: allocations are aligned as requested");
        usable(q, t, c, "P23: allocations are aligned as requested");
        vp_assert(vp_disjoint(p, s, q, t), "P23: allocations do not overlap");
        m.deallocate(p, s, a);
        m.deallocate(q, t, c);
        vp_cover("both");
    }
    else
    {
        usable(p, s, a, "P23: allocations are aligned as requested");
        vp_cover("first");
    }
}
VP_ENTRY(h_mono_two_1_1)
{
    mono_two<1, 1>();
}
VP_ENTRY(h_mono_two_1_16)
{
    mono_two<1, 16>();
}
VP_ENTRY(h_mono_two_8_4)
{
    mono_two<8, 4>();
}
VP_ENTRY(h_mono_two_64_8)
{
    mono_two<64, 8>();
}
VP_ENTRY(h_mono_three)
{
    Up                up(MAX);
    const std::size_t s = vp_size(), t = vp_size(), u = vp_size();
    Mono              m(&up);
    void* const       p = ask(m, s, 8);
    void* const       q = ask(m, t, 8);
    void* const       r = ask(m, u, 8);
    if (p != nullptr && q != nullptr && r != nullptr)
    {
        usable(p, s, 8, "P23: allocations are aligned as requested");
        usable(q, t, 8, "P23: allocations are aligned as requested");
        usable(r, u, 8, "P23: allocations are aligned as requested");
        vp_assert(vp_disjoint(p, s, q, t) && vp_disjoint(p, s, r, u) && vp_disjoint(q, t, r, u),
                  "P23: allocations do not overlap");
        vp_cover("all");
    }
    vp_cover("end");
}
VP_ENTRY(h_mono_release)
{
    Up                up;
    const std::size_t n = vp_size(), s = vp_size(), t = vp_size();
    void* const       b = vp_buffer(n);
    Mono              m(b, n, &up);
    void* const       p = ask(m, s, 1);
    void* const       q = ask(m, t, 16);
    (void) p;
    (void) q;
    m.release();
    vp_assert(up.given == 0, "P23: release gives every block back");
    const std::size_t before = up.asked;
    void* const       r      = ask(m, n, 1);
    vp_assert(r == b && up.asked == before, "P23: release makes the whole buffer available again");
    m.release();
    m.release();
    vp_assert(up.given == 0, "P23: release gives every block back");
    vp_cover("end");
}
VP_ENTRY(h_mono_refused)
{
    Up                up;
    const std::size_t n = vp_size(), s = vp_size_any(), t = vp_size();
    void* const       b = vp_buffer(n);
    Mono              m(b, n, &up);
    if (ask(m, s, 16) == nullptr)
    {
        vp_assume(t <= n);
        vp_assert(ask(m, t, 1) == b, "P23: a refused request takes nothing of the buffer");
        vp_cover("refused");
    }
}
VP_ENTRY(h_mono_max_size)
{
    Up                up;
    const std::size_t n = vp_size_any();
    const Mono        m(n, &up);
    const std::size_t x = m.max_size();
    vp_assert(x >= up.limit, "P23: max_size() does not wrap around");
    vp_assert(n >= MAX - up.limit || x == up.limit + n, "P23: max_size() is the sum of both sources");
    vp_cover("end");
}
VP_ENTRY(h_mono_equal)
{
    Up         up;
    const Mono m(&up), o(&up);
    vp_assert(m == m && !(m != m) && m != o && !(m == o) && m != up, "P23: a resource equals only itself");
    vp_assert(m.is_equal(m) && !m.is_equal(o) && !m.is_equal(up), "P23: a resource equals only itself");
    vp_cover("end");
}
VP_ENTRY(h_mono_null)
{
    const std::size_t n = vp_size(), s = vp_size_any(), a = some_align();
    void* const       b = vp_buffer(n);
    Mono              m(b, n);
    void* const       p = ask(m, s, a);
    if (p != nullptr)
    {
        usable(p, s, a, "P23: allocations are aligned as requested");
        vp_cover("got");
    }
    else
    {
        vp_assert(s > n || n - s < a, "P23: a request that fits the buffer succeeds");
        vp_cover("none");
    }
}

// ------------------------------------------------------------------------------------------------ buffer and array
template <typename U>
struct Fixture
{
    U                                       up;
    std::size_t                             n;
    void*                                   b;
    std::size_t                             max;
    pmr::UnsynchronizedBufferMemoryResource r;
    Fixture()
        : n(vp_size())
        , b(vp_buffer(n))
        , max(vp_size_any())
        , r(b, n, &up, max)
    {
    }
    bool local(const void* p) const
    {
        return !vp_disjoint(p, 1, b, n + 1);
    }
};
template <typename U>
static void buf_one()
{
    Fixture<U>        f;
    const std::size_t s = vp_size_any(), a = some_align();
    vp_assert(f.r.data() == f.b && f.r.size() == f.n, "P24: data() and size() describe the buffer");
    void* const p = ask(f.r, s, a);
    if (p != nullptr)
    {
        usable(p, s, a, "P24: allocations are aligned as requested");
        vp_assert(f.local(p) ? f.up.asked == 0 : (f.up.given == 1 && s <= f.max),
                  "P24: what the buffer cannot take comes from upstream");
        f.r.deallocate(p, s, a);
        vp_assert(f.up.given == 0, "P24: blocks return to where they came from");
        vp_cover("got");
    }
    else
    {
        vp_assert(s > f.n || f.n - s < a, "P24: a request that fits the free buffer succeeds");
        vp_assert(s <= f.max || f.up.asked == 0, "P24: upstream is not asked for more than the limit");
        vp_assert(s > f.max || f.up.asked == 1, "P24: upstream is asked for all that is within the limit");
        vp_cover("none");
    }
}
VP_ENTRY(h_buf_one)
{
    buf_one<Up>();
}
template <typename U>
static void buf_two()
{
    Fixture<U>        f;
    const std::size_t s = vp_size(), t = vp_size(), a = some_align(), c = some_align();
    void* const       p = ask(f.r, s, a);
    if (p == nullptr)
    {
        return;
    }
    void* const q = ask(f.r, t, c);
    if (q != nullptr)
    {
        usable(p, s, a, "P24: allocations are aligned as requested");
        usable(q, t, c, "P24: allocations are aligned as requested");
        vp_assert(vp_disjoint(p, s, q, t), "P24: allocations do not overlap");
        vp_assert(p != q, "P24: every allocation has its own address");
        if (vp_bool())
        {
            f.r.deallocate(p, s, a);
            f.r.deallocate(q, t, c);
        }
        else
        {
            f.r.deallocate(q, t, c);
            f.r.deallocate(p, s, a);
        }
        vp_assert(f.up.given == 0, "P24: blocks return to where they came from");
        vp_cover("both");
    }
    else
    {
        usable(p, s, a, "P24: allocations are aligned as requested");
        f.r.deallocate(p, s, a);
        vp_cover("first");
    }
}
VP_ENTRY(h_buf_two)
{
    buf_two<Up>();
}
VP_ENTRY(h_buf_again)
{
    Fixture<Up>       f;
    const std::size_t s = vp_size(), t = vp_size();
    void* const       p = ask(f.r, s, 1);
    if (p != nullptr)
    {
        f.r.deallocate(p, s, 1);
        const std::size_t before = f.up.asked;
        void* const       q      = ask(f.r, t, 1);
        vp_assert(t > f.n || (q == f.b && f.up.asked == before), "P24: the buffer can be used again");
        if (q != nullptr)
        {
            f.r.deallocate(q, t, 1);
        }
        vp_cover("end");
    }
}
static void resized(const Up&, const bool, const std::size_t) {}
static void resized(const UpRe& u, const bool inside, const std::size_t n)
{
    vp_assert(inside ? u.resized == 0 : (u.resized == 1 && u.bytes == n), "P24: upstream resizes its own blocks");
}
template <typename U>
static void buf_resize()
{
    Fixture<U>        f;
    const std::size_t s = vp_size(), t = vp_size_any(), a = some_align();
    vp_assume(s > 0);
    void* const p = ask(f.r, s, a);
    if (p == nullptr)
    {
        return;
    }
    std::memset(p, 7, s);
    const std::size_t i = vp_size();
    vp_assume(i < s && i < t);
    void* q = nullptr;
    const bool inside = f.local(p);
    VP_TRY
    {
        q = f.r.reallocate(p, s, t, a);
    }
    VP_CATCH
    {
    }
    resized(f.up, inside, t);
    vp_assert(q != nullptr || !inside || t > f.n || f.n - t < a, "P24: a block in the buffer is resized when it still fits");
    if (q != nullptr)
    {
        vp_assert(static_cast<unsigned char*>(q)[i] == 7, "P24: reallocate keeps the content");
        usable(q, t, a, "P24: allocations are aligned as requested");
        f.r.deallocate(q, t, a);
        vp_cover("resized");
    }
    else
    {
        usable(p, s, a, "P24: a failed reallocate keeps the block");
        void* const o = ask(f.r, 1, 1);
        if (o != nullptr)
        {
            vp_assert(vp_disjoint(p, s, o, 1), "P24: a failed reallocate keeps the block");
            f.r.deallocate(o, 1, 1);
        }
        f.r.deallocate(p, s, a);
        vp_cover("kept");
    }
    vp_assert(f.up.given == 0, "P24: blocks return to where they came from");
}
VP_ENTRY(h_buf_resize)
{
    buf_resize<Up>();
}
VP_ENTRY(h_buf_resize_up)
{
    buf_resize<UpRe>();
}
// the block may have to move inside the buffer
template <typename U, bool Last>
static void buf_realign()
{
    Fixture<U>        f;
    const std::size_t s = vp_size(), t = vp_size_any(), c = some_align();
    vp_assume(s > 0 && s <= f.n);
    std::memset(f.b, 1, f.n);
    void* const p = ask(f.r, s, 1);
    vp_assert(p == f.b, "P24: the first block is in the buffer");
    std::memset(p, 7, s);
    const std::size_t i = vp_size();
    vp_assume((Last ? i + 1 == s : i < s) && i < t);
    void* const q = f.r.reallocate(p, s, t, c);
    vp_assert(f.up.asked == 0, "P24: upstream resizes its own blocks");
    vp_assert(q != nullptr || t > f.n || f.n - t < c, "P24: a block in the buffer is resized when it still fits");
    if (q != nullptr)
    {
        if (static_cast<unsigned char*>(q) > static_cast<unsigned char*>(p))
        {
            vp_assert(static_cast<unsigned char*>(q)[i] == 7, "P24: reallocate keeps the content of a block that it moves");
        }
        else
        {
            vp_assert(static_cast<unsigned char*>(q)[i] == 7, "P24: reallocate keeps the content");
        }
        usable(q, t, c, "P24: allocations are aligned as requested");
        f.r.deallocate(q, t, c);
        vp_cover("resized");
    }
    else
    {
        vp_assert(static_cast<unsigned char*>(p)[i] == 7, "P24: a failed reallocate keeps the content");
        usable(p, s, 1, "P24: a failed reallocate keeps the block");
        f.r.deallocate(p, s, 1);
        vp_cover("kept");
    }
    vp_assert(f.up.given == 0, "P24: blocks return to where they came from");
    void* const o = ask(f.r, s, 1);
    vp_assert(o == f.b && f.up.asked == 0, "P24: the buffer can be used again");
    f.r.deallocate(o, s, 1);
}
VP_ENTRY(h_buf_realign)
{
    buf_realign<Up, false>();
}
VP_ENTRY(h_buf_realign_last)
{
    buf_realign<Up, true>();
}
VP_ENTRY(h_buf_realign_up)
{
    buf_realign<UpRe, false>();
}
VP_ENTRY(h_buf_realign_up_last)
{
    buf_realign<UpRe, true>();
}
VP_ENTRY(h_buf_max_size)
{
    Fixture<Up>           f;
    constexpr std::size_t top = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
    const std::size_t     x   = f.r.max_size();
    vp_assert(x <= top && x >= f.n, "P24: max_size() is limited to ptrdiff_t");
    vp_assert(f.max > top - f.n ? x == top : x == f.n + f.max, "P24: max_size() is the sum of both limits");
    vp_assert(f.r == f.r && f.r != f.up, "P24: a resource equals only itself");
    vp_cover("end");
}
VP_ENTRY(h_buf_move)
{
    Fixture<Up>                             f;
    const std::size_t                       s = vp_size(), a = some_align();
    void* const                             p = ask(f.r, s, a);
    pmr::UnsynchronizedBufferMemoryResource o(std::move(f.r));
    vp_assert(o.data() == f.b && o.size() == f.n, "P24: data() and size() describe the buffer");
    if (p != nullptr)
    {
        void* const q = ask(o, 1, 1);
        if (q != nullptr)
        {
            vp_assert(vp_disjoint(p, s, q, 1), "P24: allocations do not overlap");
            o.deallocate(q, 1, 1);
        }
        o.deallocate(p, s, a);
        vp_cover("end");
    }
}
VP_ENTRY(h_buf_null)
{
    const std::size_t                       n = vp_size(), s = vp_size_any(), a = some_align();
    void* const                             b = vp_buffer(n);
    pmr::UnsynchronizedBufferMemoryResource r(b, n);
    void* const                             p = ask(r, s, a);
    if (p != nullptr)
    {
        usable(p, s, a, "P24: allocations are aligned as requested");
        vp_assert(ask(r, 1, 1) == nullptr, "P24: the buffer holds one block at a time");
        r.deallocate(p, s, a);
        vp_cover("got");
    }
    else
    {
        vp_assert(s > n || n - s < a, "P24: a request that fits the free buffer succeeds");
        vp_cover("none");
    }
}
VP_ENTRY(h_arr)
{
    Up                                         up;
    const std::size_t                          max = vp_size_any(), s = vp_size_any(), t = vp_size(), a = some_align();
    pmr::UnsynchronizedArrayMemoryResource<96> r(&up, max);
    vp_assert(r.size() == 96 && r.data() != nullptr, "P24: data() and size() describe the buffer");
    void* const p = ask(r, s, a);
    if (p != nullptr)
    {
        usable(p, s, a, "P24: allocations are aligned as requested");
        void* const q = ask(r, t, 8);
        if (q != nullptr)
        {
            usable(q, t, 8, "P24: allocations are aligned as requested");
            vp_assert(vp_disjoint(p, s, q, t), "P24: allocations do not overlap");
            r.deallocate(q, t, 8);
            vp_cover("both");
        }
        r.deallocate(p, s, a);
        vp_assert(up.given == 0, "P24: blocks return to where they came from");
        vp_cover("got");
    }
    else
    {
        vp_assert(s > 96 || 96 - s < a, "P24: a request that fits the free buffer succeeds");
    }
}
VP_ENTRY(h_arr_null)
{
    const std::size_t                          s = vp_size_any();
    pmr::UnsynchronizedArrayMemoryResource<96> r;
    void* const                                p = ask(r, s, 1);
    vp_assert((p != nullptr) == (s <= 96), "P24: a request that fits the free buffer succeeds");
    if (p != nullptr)
    {
        usable(p, s, 1, "P24: allocations are aligned as requested");
        r.deallocate(p, s, 1);
        vp_cover("got");
    }
}
// the same resource through the interface of its base class
VP_ENTRY(h_arr_base)
{
    Up                                               up;
    const std::size_t                                max = vp_size_any();
    pmr::UnsynchronizedArrayMemoryResource<96>       r(&up, max), o(&up, max);
    const pmr::UnsynchronizedArrayMemoryResource<96>& c = r;
    pmr::memory_resource&                            m = r;
    constexpr std::size_t top = static_cast<std::size_t>(std::numeric_limits<std::ptrdiff_t>::max());
    vp_assert(c.data() == r.data() && c.size() == 96 && o.data() != r.data(), "P24: data() and size() describe the buffer");
    vp_assert(m.is_equal(r) && !m.is_equal(o) && !m.is_equal(up) && m != o && m == r, "P24: a resource equals only itself");
    vp_assert(m.max_size() == (max > top - 96 ? top : max + 96), "P24: max_size() is the sum of both limits");
    const std::size_t s = vp_size(), t = vp_size_any();
    vp_assume(s > 0 && s <= 96);
    void* const p = ask(r, s, 1);
    std::memset(p, 7, s);
    const std::size_t i = vp_size();
    vp_assume(i < s && i < t);
    void* const q = m.reallocate(p, s, t, 1);
    vp_assert((q != nullptr) == (t <= 96), "P24: a block in the buffer grows up to its end");
    if (q != nullptr)
    {
        vp_assert(static_cast<unsigned char*>(q)[i] == 7, "P24: reallocate keeps the content");
        usable(q, t, 1, "P24: allocations are aligned as requested");
        m.deallocate(q, t, 1);
        vp_cover("grown");
    }
    else
    {
        m.deallocate(p, s, 1);
        vp_cover("kept");
    }
    vp_assert(up.given == 0 && up.asked == 0, "P24: blocks return to where they came from");
}
VP_ENTRY(h_buf_base)
{
    Up                                            up;
    const std::size_t                             n = vp_size(), max = vp_size_any();
    void* const                                   b = vp_buffer(n);
    const pmr::UnsynchronizedBufferMemoryResource r(b, n, &up, max);
    vp_assert(r.data() == b && r.size() == n, "P24: data() and size() describe the buffer");
    vp_cover("end");
}
// an upstream resource of another kind, that cannot resize
struct Other
{
    std::size_t given = 0;
    void*       allocate(const std::size_t n, const std::size_t a)
    {
        if (n > ROOM || vp_bool())
        {
            return nullptr;
        }
        ++given;
        return vp_alloc(this, n, a, 0);
    }
    void deallocate(void* const p, const std::size_t n, const std::size_t a)
    {
        --given;
        vp_dealloc(this, p, n, a);
    }
};
VP_ENTRY(h_buf_other)
{
    Other             up;
    const std::size_t n = vp_size(), s = vp_size(), t = vp_size_any();
    void* const       b = vp_buffer(n);
    cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Other> r(b, n, &up, vp_size_any());
    vp_assert(r.upstream_resource() == &up, "P24: upstream_resource() is the one given");
    vp_assume(s > 0);
    void* const p = ask(r, s, 1);
    if (p == nullptr)
    {
        return;
    }
    std::memset(p, 7, s);
    const std::size_t i = vp_size();
    vp_assume(i < s && i < t);
    const bool  inside = up.given == 0;
    void* const q      = r.reallocate(p, s, t, 1);
    vp_assert((q != nullptr) == (inside && t <= n), "P24: only a block in the buffer can be resized");
    if (q != nullptr)
    {
        vp_assert(static_cast<unsigned char*>(q)[i] == 7, "P24: reallocate keeps the content");
        usable(q, t, 1, "P24: allocations are aligned as requested");
        r.deallocate(q, t, 1);
        vp_cover("resized");
    }
    else
    {
        usable(p, s, 1, "P24: a failed reallocate keeps the block");
        void* const o = ask(r, 1, 1);
        if (o != nullptr)
        {
            vp_assert(vp_disjoint(p, s, o, 1), "P24: a failed reallocate keeps the block");
            r.deallocate(o, 1, 1);
        }
        r.deallocate(p, s, 1);
        vp_cover("kept");
    }
    vp_assert(up.given == 0, "P24: blocks return to where they came from");
}
