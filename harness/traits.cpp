// Client programs of the type traits and of the visitor helper.
#include "vp.hpp"
#include "cetl/pf17/type_traits.hpp"
#include "cetl/pf17/utility.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/type_traits_ext.hpp"
#include "cetl/visit_helpers.hpp"
#include <cstdint>
#include <limits>
#include <type_traits>
namespace pf17 = cetl::pf17;
namespace ext  = cetl::type_traits_ext;
constexpr std::size_t NONE = std::numeric_limits<std::size_t>::max();

template <int N>
struct Yes : std::true_type
{
    static constexpr int id = N;
};
template <int N>
struct No : std::false_type
{
    static constexpr int id = N;
};
struct Two
{
    static constexpr int value = 2;
};
struct Unfinished;  // never complete: must not be looked into

VP_ENTRY(h_logic)
{
    vp_assert(pf17::conjunction<>::value && !pf17::disjunction<>::value,
              "P33: an empty conjunction holds, an empty disjunction does not");
    vp_assert(pf17::conjunction<Yes<1>, Yes<2>, Yes<3>>::id == 3 && pf17::conjunction<Yes<1>, No<2>, No<3>>::id == 2 &&
                  pf17::conjunction<No<1>, Yes<2>>::id == 1 && pf17::conjunction<Yes<1>, Yes<2>, No<3>>::id == 3,
              "P33: a conjunction is its first false member, or the last one");
    vp_assert(pf17::disjunction<No<1>, No<2>, No<3>>::id == 3 && pf17::disjunction<No<1>, Yes<2>, Yes<3>>::id == 2 &&
                  pf17::disjunction<Yes<1>, No<2>>::id == 1 && pf17::disjunction<No<1>, No<2>, Yes<3>>::id == 3,
              "P33: a disjunction is its first true member, or the last one");
    vp_assert(!pf17::conjunction<No<1>, Unfinished>::value && pf17::disjunction<Yes<1>, Unfinished>::value,
              "P33: members after the deciding one are not looked into");
    vp_assert(pf17::conjunction<Two, Yes<1>>::value && pf17::disjunction<Two, Unfinished>::value == 2 &&
                  !pf17::negation<Two>::value && pf17::negation<No<1>>::value && !pf17::negation_v<Yes<1>>,
              "P33: members count by the truth of their value");
    vp_assert(pf17::conjunction_v<Yes<1>, Yes<2>> && !pf17::conjunction_v<Yes<1>, No<2>> && pf17::disjunction_v<No<1>, Yes<2>> &&
                  !pf17::disjunction_v<No<1>, No<2>>,
              "P33: the _v forms give the value");
    vp_assert(std::is_base_of<std::true_type, pf17::negation<No<1>>>::value &&
                  std::is_base_of<std::false_type, pf17::negation<Yes<1>>>::value,
              "P33: negation is a boolean constant");
    vp_cover("end");
}

template <typename T, typename = void>
struct has_type : std::false_type
{};
template <typename T>
struct has_type<T, pf17::void_t<typename T::type>> : std::true_type
{};
VP_ENTRY(h_void_t)
{
    vp_assert(has_type<std::decay<int>>::value && !has_type<int>::value && std::is_same<pf17::void_t<>, void>::value &&
                  std::is_same<pf17::void_t<int, char, void>, void>::value,
              "P33: void_t is void for well-formed types and drops out otherwise");
    vp_cover("end");
}

namespace sw
{
struct Own
{
    Own(Own&&) = delete;
};
void swap(Own&, Own&) noexcept;
struct Throwing
{};
void swap(Throwing&, Throwing&) noexcept(false);
struct Counted
{};
int swap(Counted&, Counted&) noexcept;
struct Pinned
{
    Pinned(Pinned&&) = delete;
};
struct ThrowsMove
{
    ThrowsMove(ThrowsMove&&) noexcept(false);
    ThrowsMove& operator=(ThrowsMove&&) noexcept(false);
};
}  // namespace sw
template <typename T>
static void swaps(const bool can, const bool nothrow)
{
    vp_assert(pf17::is_swappable<T>::value == can && pf17::is_swappable_v<T> == can,
              "P33: is_swappable tells whether swap(a, b) can be called");
    vp_assert(pf17::is_nothrow_swappable<T>::value == nothrow && pf17::is_nothrow_swappable_v<T> == nothrow,
              "P33: is_nothrow_swappable tells whether swap(a, b) can be called and never throws");
#if __cplusplus >= 201703L
    vp_assert(pf17::is_swappable_v<T> == std::is_swappable_v<T> &&
                  pf17::is_nothrow_swappable_v<T> == std::is_nothrow_swappable_v<T>,
              "P33: the swap traits agree with the standard ones");
#endif
}
VP_ENTRY(h_swappable)
{
    swaps<int>(true, true);
    swaps<const int>(false, false);
    swaps<int[3]>(true, true);
    swaps<sw::Own>(true, true);
    swaps<sw::Throwing>(true, false);
    swaps<sw::Pinned>(false, false);
    swaps<sw::ThrowsMove>(true, false);
    swaps<sw::ThrowsMove[2]>(true, false);
    vp_cover("end");
}
VP_ENTRY(h_swappable_result)
{
    swaps<sw::Counted>(true, true);
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
VP_ENTRY(h_find)
{
    vp_assert(ext::find_v<std::is_integral, int, char, double> == 0 && ext::find_v<std::is_integral, double, float, long> == 2 &&
                  ext::find_v<std::is_integral, double, long, int> == 1 && ext::find<std::is_integral, double, int>::value == 1,
              "P33: find gives the position of the first match");
    vp_assert(ext::find_v<std::is_integral, double, float> == NONE && ext::find_v<std::is_integral> == NONE,
              "P33: find gives the largest number when nothing matches");
    vp_assert(ext::count_v<std::is_integral, int, char, double, long> == 3 && ext::count_v<std::is_integral, double> == 0 &&
                  ext::count_v<std::is_integral> == 0 && ext::count<std::is_integral, double, int>::value == 1,
              "P33: count gives the number of matches");
    vp_assert(ext::find_v<ext::partial<std::is_same, long>::template type, int, long, char> == 1 &&
                  ext::count_v<ext::partial<std::is_same, long>::template type, long, int, long> == 2 &&
                  ext::find_v<ext::partial<std::is_convertible, int*>::template type, int, void*, int*> == 1 &&
                  ext::find_v<ext::universal_predicate, int> == 0,
              "P33: partial application fixes the leading arguments");
    vp_cover("end");
}
struct FromBool
{
    FromBool(bool);
};
struct FromInt
{
    FromInt(int);
};
struct ToInt
{
    operator int() const;
};
struct Base
{};
struct Derived : Base
{};
template <typename F, typename... Ts>
constexpr std::size_t best = ext::best_conversion_index_v<ext::universal_predicate, F, Ts...>;
template <typename F, typename... Ts>
constexpr std::size_t best_nn =
    ext::best_conversion_index_v<ext::partial<ext::is_convertible_without_narrowing, F>::template type, F, Ts...>;
VP_ENTRY(h_narrowing)
{
    vp_assert(ext::is_convertible_without_narrowing<int, long>::value &&
                  ext::is_convertible_without_narrowing<char, int>::value &&
                  ext::is_convertible_without_narrowing<float, double>::value &&
                  ext::is_convertible_without_narrowing<ToInt, int>::value &&
                  ext::is_convertible_without_narrowing<Derived*, Base*>::value &&
                  ext::is_convertible_without_narrowing<bool, FromBool>::value,
              "P33: conversions that lose nothing are accepted");
    vp_assert(!ext::is_convertible_without_narrowing<long, int>::value &&
                  !ext::is_convertible_without_narrowing<double, float>::value &&
                  !ext::is_convertible_without_narrowing<double, int>::value &&
                  !ext::is_convertible_without_narrowing<int, double>::value &&
                  !ext::is_convertible_without_narrowing<int, unsigned>::value &&
                  !ext::is_convertible_without_narrowing<Base*, Derived*>::value &&
                  !ext::is_convertible_without_narrowing<int, void*>::value,
              "P33: narrowing or impossible conversions are refused");
    vp_cover("end");
}
VP_ENTRY(h_best)
{
    vp_assert(best<long, float> == 0 && best<float, long, float, double, bool> == 1 && best<char, FromBool, int> == 1 &&
                  best<char, FromBool> == 0 && best<Derived, Base, int> == 0 && best<Derived, Base, Derived> == 1 &&
                  best<int, char, short, int, long> == 2 && best<short, int, long> == 0,
              "P33: the alternative overload resolution picks is found");
    vp_assert(best<int, long, float, bool> == NONE && best<void*, int, float> == NONE && best<Base, Derived> == NONE,
              "P33: an ambiguous or missing conversion has no alternative");
    vp_assert(ext::best_conversion_index_v<std::is_signed, long, char, long, unsigned long> == 1 &&
                  ext::best_conversion_index_v<std::is_unsigned, long, char, long, unsigned long> == 2,
              "P33: only alternatives accepted by the predicate take part");
    vp_assert(best_nn<int, float, bool, long> == 2 && best_nn<char, FromBool, int> == 1 && best_nn<char, FromBool> == NONE &&
                  best_nn<bool, FromBool> == 0 && best_nn<double, int, float> == NONE && best_nn<double, float, double> == 1,
              "P33: without narrowing, only conversions that lose nothing take part");
    vp_cover("end");
}
VP_ENTRY(h_in_place)
{
    vp_assert(std::is_empty<pf17::in_place_t>::value && std::is_empty<pf17::in_place_type_t<int>>::value &&
                  std::is_empty<pf17::in_place_index_t<1>>::value &&
                  !std::is_same<pf17::in_place_type_t<int>, pf17::in_place_type_t<char>>::value &&
                  !std::is_same<pf17::in_place_index_t<0>, pf17::in_place_index_t<1>>::value &&
                  std::is_same<std::decay_t<decltype(pf17::in_place_index<3>)>, pf17::in_place_index_t<3>>::value &&
                  std::is_same<std::decay_t<decltype(pf17::in_place_type<int>)>, pf17::in_place_type_t<int>>::value &&
                  std::is_same<std::decay_t<decltype(pf17::in_place)>, pf17::in_place_t>::value,
              "P33: the in_place tags are distinct empty types");
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
struct Add
{
    int  k;
    long room[3];
    int  operator()(int x) const
    {
        return x + k;
    }
};
struct Sub
{
    mutable int k;
    int         operator()(long x) const
    {
        k += 1;
        return static_cast<int>(x) - k;
    }
};
struct Any
{
    template <typename T>
    int operator()(const T&) const
    {
        return -7;
    }
};
VP_ENTRY(h_overloaded)
{
    const int a = vp_int(), b = vp_int(), x = vp_int();
    vp_assume(a > -1000 && a < 1000 && b > -1000 && b < 1000 && x > -1000 && x < 1000);
    auto o = cetl::make_overloaded(Add{a, {}}, Sub{b}, Any{});
    vp_assert(o(x) == x + a, "P33: the overload for the argument's type is called");
    vp_assert(o(static_cast<long>(x)) == x - b - 1 && o(static_cast<long>(x)) == x - b - 2,
              "P33: the overload for the argument's type is called with its own state");
    vp_assert(o("text") == -7 && o(1.5) == -7, "P33: the fallback takes what no other overload matches as well");
    auto c = o;
    vp_assert(c(x) == x + a && c(static_cast<long>(x)) == x - b - 3 && o(static_cast<long>(x)) == x - b - 3,
              "P33: a copy has its own copy of every overload");
    auto m = std::move(c);
    vp_assert(m(x) == x + a && m(static_cast<long>(x)) == x - b - 4, "P33: a moved overload set keeps every overload");
    vp_cover("end");
}
VP_ENTRY(h_overloaded_one)
{
    const int a = vp_int(), x = vp_int();
    vp_assume(a > -1000 && a < 1000 && x > -1000 && x < 1000);
    auto o = cetl::make_overloaded(Add{a, {}});
    auto c = o;
    auto m = std::move(o);
    vp_assert(c(x) == x + a && m(x) == x + a, "P33: an overload set of one calls that one, also in copies");
    vp_cover("end");
}
VP_ENTRY(h_overloaded_visit)
{
    using V     = pf17::variant<int, long, char>;
    const int x = vp_int();
    vp_assume(x >= 0 && x < 100);
    const auto visitor = cetl::make_overloaded([](int i) { return i + 1; },
                                               [](long i) { return static_cast<int>(i) + 2; },
                                               [](char) { return 3; });
    const V v = vp_bool() ? V(x) : (vp_bool() ? V(static_cast<long>(x)) : V('c'));
    const int got = pf17::visit(visitor, v);
    vp_assert(got == (v.index() == 0 ? x + 1 : v.index() == 1 ? x + 2 : 3), "P33: visiting calls the overload for the alternative");
    vp_cover("end");
}
// A lambda-like object with an owned value: moved into the set, destroyed with it.
struct Keep
{
    vp::Elem    e;
    std::size_t operator()(int) const
    {
        return vp::val(e);
    }
};
struct KeepCalm
{
    vp::Calm    e;
    std::size_t operator()(long) const
    {
        return vp::val(e);
    }
};
VP_ENTRY(h_overloaded_owned)
{
    VP_TRY
    {
        auto&             src = vp::object<vp::Elem>();
        auto&             oth = vp::object<vp::Calm>();
        const std::size_t a = vp::val(src), b = vp::val(oth);
        auto              o = cetl::make_overloaded(Keep{src}, KeepCalm{oth}, [](double) -> std::size_t { return 0; });
        vp_assert(o(1) == a && o(1L) == b, "P33: an overload set holds the objects it was given");
        auto c = o;
        vp_assert(o(1) == a && o(1L) == b && c(1) == a && c(1L) == b, "P33: copying an overload set leaves it as it was");
        vp_cover("end");
    }
    VP_CATCH
    {
        vp_cover("threw");
    }
}

template <int K>
struct Only
{
    int k;
    explicit Only(const int x)
        : k(x)
    {
    }
    Only(const Only&)            = delete;
    Only& operator=(const Only&) = delete;
    Only(Only&& o) noexcept
        : k(o.k)
    {
        o.k = -1;
    }
    Only& operator=(Only&&) = delete;
};
struct Only1 : Only<1>
{
    using Only::Only;
    int operator()(int) const
    {
        return k;
    }
};
struct Only2 : Only<2>
{
    using Only::Only;
    int operator()(long) const
    {
        return k + 1;
    }
};
template <typename A, typename... B>
static auto make_only(A a, B... b) -> decltype(cetl::make_overloaded(std::move(a), std::move(b)...))
{
    return cetl::make_overloaded(std::move(a), std::move(b)...);
}
VP_ENTRY(h_overloaded_moves)
{
    const int a = vp_int(), b = vp_int();
    vp_assume(a >= 0 && b >= 0 && b < 1000);
    const auto o = make_only(Only1{a}, Only2{b});
    vp_assert(o(1) == a && o(1L) == b + 1, "P33: overloads that can only be moved are moved in");
    const auto p = make_only(Only2{b}, Only1{a});
    vp_assert(p(1) == a && p(1L) == b + 1, "P33: overloads that can only be moved are moved in");
    vp_cover("end");
}
