// Type-level client program of the polyfill headers: which type each name of namespace cetl stands for, and where the
// resource functions lead.
#include "vp.hpp"
#include "cetl/pf17/cetlpf.hpp"
#include "cetl/pf20/cetlpf.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/pf20/span.hpp"
#include <type_traits>

#if __cplusplus >= 201703L
#    include <memory_resource>
#    include <optional>
#    include <string_view>
#    include <variant>
namespace l17 = std;
#else
namespace l17 = cetl::pf17;
#endif
#if __cplusplus >= 202002L
#    include <span>
namespace l20 = std;
#else
namespace l20 = cetl::pf20;
#endif
#define SAME(...) std::is_same<__VA_ARGS__>::value

static_assert(CETL_CPP_STANDARD_14 == 201402L && CETL_CPP_STANDARD_17 == 201703L && CETL_CPP_STANDARD_20 == 202002L,
              "P31: the standard numbers are those of the language");

VP_ENTRY(h_alias_optional)
{
    vp_assert(SAME(cetl::optional<int>, l17::optional<int>), "P31: optional is the standard one from C++17 on");
    vp_assert(SAME(cetl::nullopt_t, l17::nullopt_t) && SAME(decltype(cetl::nullopt), const l17::nullopt_t),
              "P31: nullopt is the standard one from C++17 on");
    vp_assert(SAME(decltype(cetl::make_optional(1)), cetl::optional<int>), "P31: make_optional makes that optional");
    vp_assert(SAME(cetl::in_place_t, l17::in_place_t) && SAME(cetl::in_place_type_t<int>, l17::in_place_type_t<int>) &&
                  SAME(cetl::in_place_index_t<1>, l17::in_place_index_t<1>) &&
                  SAME(decltype(cetl::in_place), const cetl::in_place_t) &&
                  SAME(decltype(cetl::in_place_type<int>), const cetl::in_place_type_t<int>) &&
                  SAME(decltype(cetl::in_place_index<2>), const cetl::in_place_index_t<2>),
              "P31: the in_place tags are the standard ones from C++17 on");
#if defined(__cpp_exceptions)
    vp_assert(SAME(cetl::bad_optional_access, l17::bad_optional_access) &&
                  std::is_base_of<std::exception, cetl::bad_optional_access>::value,
              "P31: bad_optional_access is the standard one from C++17 on");
#endif
    vp_cover("end");
}
VP_ENTRY(h_alias_variant)
{
    using V = cetl::variant<int, char>;
    vp_assert(SAME(V, l17::variant<int, char>), "P31: variant is the standard one from C++17 on");
    vp_assert(SAME(cetl::monostate, l17::monostate), "P31: monostate is the standard one from C++17 on");
    vp_assert(cetl::variant_size<V>::value == 2 && cetl::variant_size_v<V> == 2 &&
                  SAME(cetl::variant_alternative_t<1, V>, char) && SAME(cetl::variant_alternative<0, V>::type, int) &&
                  cetl::variant_npos == l17::variant_npos,
              "P31: the traits of variant go with it");
    V v(3);
    vp_assert(cetl::get<0>(v) == 3 && *cetl::get_if<int>(&v) == 3 && cetl::holds_alternative<int>(v),
              "P31: the accessors of variant go with it");
    vp_assert(cetl::visit([](auto x) { return static_cast<int>(x) + 1; }, v) == 4, "P31: visit goes with variant");
#if defined(__cpp_exceptions)
    vp_assert(SAME(cetl::bad_variant_access, l17::bad_variant_access) &&
                  std::is_base_of<std::exception, cetl::bad_variant_access>::value,
              "P31: bad_variant_access is the standard one from C++17 on");
#endif
    vp_cover("end");
}
VP_ENTRY(h_alias_views)
{
    vp_assert(SAME(cetl::string_view, l17::string_view) &&
                  SAME(cetl::basic_string_view<char>, l17::basic_string_view<char>) &&
                  SAME(cetl::basic_string_view<wchar_t>, l17::basic_string_view<wchar_t>),
              "P31: string_view is the standard one from C++17 on");
    vp_assert(SAME(cetl::span<int>, l20::span<int>) && SAME(cetl::span<const int, 3>, l20::span<const int, 3>),
              "P31: span is the standard one from C++20 on");
    vp_assert(cetl::dynamic_extent == l20::dynamic_extent && cetl::dynamic_extent == static_cast<std::size_t>(-1),
              "P31: dynamic_extent goes with span");
    vp_assert(SAME(cetl::byte, l17::byte) && sizeof(cetl::byte) == 1 &&
                  SAME(std::underlying_type_t<cetl::byte>, unsigned char) && !std::is_integral<cetl::byte>::value,
              "P31: byte is the standard one from C++17 on");
    vp_cover("end");
}
VP_ENTRY(h_alias_traits)
{
    struct Yes : std::true_type
    {};
    struct No : std::false_type
    {};
    vp_assert(cetl::conjunction<Yes, Yes>::value && !cetl::conjunction_v<Yes, No> && cetl::disjunction<No, Yes>::value &&
                  !cetl::disjunction_v<No, No> && cetl::negation<No>::value && !cetl::negation_v<Yes> &&
                  SAME(cetl::void_t<int, char>, void),
              "P31: the logical traits are the ones they are named after");
    vp_assert(cetl::is_swappable<int>::value && cetl::is_swappable_v<int> && cetl::is_nothrow_swappable<int>::value &&
                  cetl::is_nothrow_swappable_v<int> && !cetl::is_swappable_v<const int>,
              "P31: the swap traits are the ones they are named after");
    vp_cover("end");
}

// The functions of namespace cetl::pmr lead to those of the same name.
static char             r_null, r_new, r_get, r_set;
static l17::pmr::memory_resource* given;
#if __cplusplus >= 201703L
namespace std
{
namespace pmr
{
memory_resource* null_memory_resource() noexcept
{
    return reinterpret_cast<memory_resource*>(&r_null);
}
memory_resource* new_delete_resource() noexcept
{
    return reinterpret_cast<memory_resource*>(&r_new);
}
memory_resource* get_default_resource() noexcept
{
    return reinterpret_cast<memory_resource*>(&r_get);
}
memory_resource* set_default_resource(memory_resource* r) noexcept
{
    given = r;
    return reinterpret_cast<memory_resource*>(&r_set);
}
}  // namespace pmr
}  // namespace std
#endif
VP_ENTRY(h_alias_pmr)
{
    vp_assert(SAME(cetl::pmr::memory_resource, l17::pmr::memory_resource) &&
                  SAME(cetl::pmr::polymorphic_allocator<int>, l17::pmr::polymorphic_allocator<int>),
              "P31: memory_resource and polymorphic_allocator are the standard ones from C++17 on");
    auto* const mine = reinterpret_cast<cetl::pmr::memory_resource*>(&r_set);
#if __cplusplus >= 201703L
    vp_assert(static_cast<void*>(cetl::pmr::null_memory_resource()) == &r_null, "P31: null_memory_resource is its namesake");
    vp_assert(static_cast<void*>(cetl::pmr::new_delete_resource()) == &r_new, "P31: new_delete_resource is its namesake");
    vp_assert(static_cast<void*>(cetl::pmr::get_default_resource()) == &r_get, "P31: get_default_resource is its namesake");
    vp_assert(static_cast<void*>(cetl::pmr::set_default_resource(mine)) == &r_set && given == mine,
              "P31: set_default_resource is its namesake");
#else
    given = mine;
    vp_assert(cetl::pmr::null_memory_resource() == l17::pmr::null_memory_resource(), "P31: null_memory_resource is its namesake");
    vp_assert(cetl::pmr::new_delete_resource() == l17::pmr::new_delete_resource(), "P31: new_delete_resource is its namesake");
    auto* const old = cetl::pmr::get_default_resource();
    vp_assert(old == l17::pmr::get_default_resource(), "P31: get_default_resource is its namesake");
    vp_assert(cetl::pmr::set_default_resource(mine) == old && l17::pmr::get_default_resource() == mine &&
                  cetl::pmr::get_default_resource() == mine,
              "P31: set_default_resource is its namesake");
#endif
    vp_cover("end");
}
