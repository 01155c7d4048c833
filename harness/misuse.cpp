// Client programs that break a precondition the library promises to check in debug builds: the check must stop them, and
// with any argument that keeps the precondition it must not.
#include "res.hpp"
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pf20/span.hpp"
#include "cetl/pmr/buffer_memory_resource_delegate.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/pmr/memory.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/variable_length_array.hpp"
namespace pmr  = cetl::pf17::pmr;
namespace pf20 = cetl::pf20;
using DS       = pf20::span<const std::uint32_t>;
using S3       = pf20::span<const std::uint32_t, 3>;
using Arr      = cetl::VariableLengthArray<std::uint32_t, std::allocator<std::uint32_t>>;
using Bits     = cetl::VariableLengthArray<bool, std::allocator<bool>>;

#if defined(CETL_ENABLE_DEBUG_ASSERT)
#    define MISUSE(name, wrong, msg, ...)          \
        VP_ENTRY(h_mis_##name)                     \
        {                                          \
            const std::size_t n = vp_size();       \
            const auto*       p = vp::array<std::uint32_t>(n); \
            const std::size_t c = vp_size();       \
            const std::size_t d = vp_size();       \
            (void) c;                              \
            (void) d;                              \
            (void) p;                              \
            vp_assume(wrong);                      \
            vp_misuse("P32: " msg);                \
            __VA_ARGS__;                           \
            vp_misused();                          \
        }
#else
#    define MISUSE(name, wrong, msg, ...)
#endif
#define VALID(name, right, ...)                    \
    VP_ENTRY(h_ok_##name)                          \
    {                                              \
        const std::size_t n = vp_size();           \
        const auto*       p = vp::array<std::uint32_t>(n); \
        const std::size_t c = vp_size();           \
        const std::size_t d = vp_size();           \
        (void) c;                                  \
        (void) d;                                  \
        (void) p;                                  \
        vp_assume(right);                          \
        __VA_ARGS__;                               \
        vp_cover("end");                           \
    }

MISUSE(span_count, n >= 3 && c != 3, "a fixed span over a different number of elements is caught", S3 s(p, c); (void) s)
MISUSE(span_range, n >= 3 && c <= n && c != 3, "a fixed span over a range of a different length is caught", S3 s(p, p + c); (void) s)
MISUSE(span_dynamic, n != 3, "a fixed span over a dynamic one of a different size is caught", S3 s{DS(p, n)}; (void) s)
MISUSE(span_backwards, n >= 1 && c <= n && c > 0, "a span over a range that ends before it starts is caught", DS s(p + c, p); (void) s)
MISUSE(span_first, n >= 3 && c > n, "first() of more elements than there are is caught", DS s(p, n); (void) s.first(c))
MISUSE(span_last, n >= 3 && c > n, "last() of more elements than there are is caught", DS s(p, n); (void) s.last(c))
MISUSE(span_sub, n >= 3 && c > n, "subspan() from past the end is caught", DS s(p, n); (void) s.subspan(c))
MISUSE(span_sub_n,
       n >= 3 && c <= n && d > n - c,
       "subspan() of more elements than there are is caught",
       DS s(p, n);
       (void) s.subspan(c, d))
MISUSE(span_sub_past, n >= 3 && c > n, "subspan() from past the end is caught", DS s(p, n); (void) s.subspan(c, d))
MISUSE(span3_first, n == 3 && c > 3, "first() of more elements than there are is caught", S3 s(p, 3); (void) s.first(c))
MISUSE(span3_last, n == 3 && c > 3, "last() of more elements than there are is caught", S3 s(p, 3); (void) s.last(c))
MISUSE(span3_sub, n == 3 && c > 3, "subspan() from past the end is caught", S3 s(p, 3); (void) s.subspan(c))
MISUSE(span3_sub_n,
       n == 3 && c <= 3 && d > 3 - c,
       "subspan() of more elements than there are is caught",
       S3 s(p, 3);
       (void) s.subspan(c, d))
MISUSE(span_sub_t, n < 2, "subspan() from past the end is caught", DS s(p, n); (void) s.subspan<2>())
MISUSE(span_sub_tn, n < 5, "subspan() of more elements than there are is caught", DS s(p, n); (void) s.subspan<2, 3>())
VALID(span_count, n >= 3, S3 s(p, 3); vp_assert(s.size() == 3, "P32: valid use is accepted"))
VALID(span_range, n >= 3, S3 s(p, p + 3); vp_assert(s.size() == 3, "P32: valid use is accepted"))
VALID(span_dynamic, n == 3, S3 s{DS(p, n)}; vp_assert(s.size() == 3, "P32: valid use is accepted"))
VALID(span_forwards, c <= n, DS s(p, p + c); vp_assert(s.size() == c, "P32: valid use is accepted"))
VALID(span_parts,
      c <= n && d <= n - c,
      DS s(p, n);
      vp_assert(s.first(c).size() == c && s.last(c).size() == c && s.subspan(c).size() == n - c &&
                    s.subspan(c, d).size() == d,
                "P32: valid use is accepted"))
VALID(span3_parts,
      n == 3 && c <= 3 && d <= 3 - c,
      S3 s(p, 3);
      vp_assert(s.first(c).size() == c && s.last(c).size() == c && s.subspan(c).size() == 3 - c &&
                    s.subspan(c, d).size() == d,
                "P32: valid use is accepted"))
VALID(span_sub_t, n >= 2, DS s(p, n); vp_assert(s.subspan<2>().size() == n - 2, "P32: valid use is accepted"))
VALID(span_sub_tn, n >= 5, DS s(p, n); vp_assert((s.subspan<2, 3>().size() == 3), "P32: valid use is accepted"))
MISUSE(span_index, c >= n, "indexing past the end of a span is caught", DS s(p, n); (void) s[c])
MISUSE(span3_index, n == 3 && c >= 3, "indexing past the end of a span is caught", S3 s(p, 3); (void) s[c])
MISUSE(span_front, n == 0, "front() of an empty span is caught", DS s(p, n); (void) s.front())
MISUSE(span_back, n == 0, "back() of an empty span is caught", DS s(p, n); (void) s.back())
MISUSE(span_first_t, n < 3, "first() of more elements than there are is caught", DS s(p, n); (void) s.first<3>())
MISUSE(span_last_t, n < 3, "last() of more elements than there are is caught", DS s(p, n); (void) s.last<3>())
MISUSE(span_none, n > c, "indexing a span without data is caught", DS s(nullptr, n); (void) s[c])
MISUSE(vla_front, true, "front() of an empty array is caught", Arr v{std::allocator<std::uint32_t>()}; (void) v.front())
MISUSE(vla_front_c, true, "front() of an empty array is caught", const Arr v{std::allocator<std::uint32_t>()}; (void) v.front())
MISUSE(vlabool_front, true, "front() of an empty array is caught", Bits v{std::allocator<bool>()}; (void) v.front())
MISUSE(vlabool_front_c, true, "front() of an empty array is caught", const Bits v{std::allocator<bool>()}; (void) v.front())
VALID(span_index, c < n, DS s(p, n); vp_assert(&s[c] == p + c, "P32: valid use is accepted"))
VALID(span3_index, n >= 3 && c < 3, S3 s(p, 3); vp_assert(&s[c] == p + c, "P32: valid use is accepted"))
VALID(span_ends, n > 0, DS s(p, n); vp_assert(&s.front() == p && &s.back() == p + n - 1, "P32: valid use is accepted"))
VALID(span3_ends, n >= 3, S3 s(p, 3); vp_assert(&s.front() == p && &s.back() == p + 2, "P32: valid use is accepted"))
VALID(span_first_t, n >= 3, DS s(p, n); vp_assert(s.first<3>().data() == p && s.last<3>().data() == p + n - 3,
      "P32: valid use is accepted"))

MISUSE(pa_null, true, "a polymorphic_allocator without a resource is caught",
       pmr::memory_resource* r = nullptr; pmr::polymorphic_allocator<int> a(r); (void) a)
MISUSE(mono_null, n > 0, "a monotonic buffer without an upstream resource is caught",
       pmr::deviant::basic_monotonic_buffer_resource r(vp_buffer(n), n, nullptr); (void) r)
struct Keeps
{
    char c[8];
    int  operator()() const
    {
        return c[0];
    }
};
MISUSE(fun_null, true, "a function without a memory resource is caught",
       Up* r = nullptr; cetl::pmr::function<int(), 16, Up> f(r); (void) f)
MISUSE(ubv_null, true, "an unbounded_variant without a memory resource is caught",
       Up* r = nullptr; cetl::unbounded_variant<0, true, true, 8, Up> v(r); (void) v)
MISUSE(ubv_null_mixed, true, "an unbounded_variant without a memory resource is caught",
       Up* r = nullptr; cetl::unbounded_variant<8, true, true, 8, Up> v(r); (void) v)
MISUSE(del_null, true, "a deleter without a memory resource is caught when it has something to release",
       pmr::memory_resource* r = nullptr;
       cetl::pmr::MemoryResourceDeleter<pmr::memory_resource> x(r, 8);
       x(vp_buffer(8)))
MISUSE(buf_upstream, n > 0, "a buffer resource without an upstream resource is caught",
       Up* r = nullptr; cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Up> b(vp_buffer(n), n, r, 0); (void) b)
MISUSE(buf_none, n > 0, "a buffer resource with a size but no buffer is caught",
       Up u; cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Up> b(nullptr, n, &u, 0); (void) b)
VALID(buf_empty, true, Up u; cetl::pmr::UnsynchronizedBufferMemoryResourceDelegate<Up> b(nullptr, 0, &u, 0);
      vp_assert(b.max_size() == 0 || true, "P32: valid use is accepted"))
#if defined(CETL_ENABLE_DEBUG_ASSERT) && !defined(__cpp_exceptions)
struct A
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {1};
    }
    int a;
};
struct B
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return {2};
    }
    int b;
};
VP_ENTRY(h_mis_ubv_get)
{
    cetl::unbounded_variant<8> v;
    if (vp_bool())
    {
        v = B{2};
    }
    vp_misuse("P32: without exceptions, access to a value that is not there is caught");
    (void) cetl::get<A>(v);
    vp_misused();
}
#endif
