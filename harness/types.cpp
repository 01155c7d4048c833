// Type-level client programs: which operations exist, which are trivial, which may throw. Where the standard library has
// the type, it is the reference; the formulas below say the same thing for C++14.
#include "vp.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/pf20/span.hpp"
#include "cetl/pmr/function.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/variable_length_array.hpp"
#include <array>
#include <string>
#include <type_traits>
#if __cplusplus >= 201703L
#    include <optional>
#    include <string_view>
#    include <variant>
#endif
#if __cplusplus >= 202002L
#    include <span>
#endif
namespace pf17 = cetl::pf17;
namespace pf20 = cetl::pf20;

// --------------------------------------------------------------------------------------------------------------------
// Element types.
struct Plain
{
    int a;
};
struct MoveOnly
{
    MoveOnly() = default;
    MoveOnly(MoveOnly&&) noexcept;
    MoveOnly& operator=(MoveOnly&&) noexcept;
};
struct Pinned
{
    Pinned() noexcept;
    Pinned(Pinned&&)            = delete;
    Pinned& operator=(Pinned&&) = delete;
};
struct ThrowsAll
{
    ThrowsAll() noexcept(false);
    ThrowsAll(const ThrowsAll&) noexcept(false);
    ThrowsAll(ThrowsAll&&) noexcept(false);
    ThrowsAll& operator=(const ThrowsAll&) noexcept(false);
    ThrowsAll& operator=(ThrowsAll&&) noexcept(false);
    ~ThrowsAll();
};
struct ThrowsConstruct
{
    ThrowsConstruct() noexcept(false);
    ThrowsConstruct(const ThrowsConstruct&) noexcept(false);
    ThrowsConstruct(ThrowsConstruct&&) noexcept(false);
    ThrowsConstruct& operator=(const ThrowsConstruct&) noexcept;
    ThrowsConstruct& operator=(ThrowsConstruct&&) noexcept;
};
struct ThrowsAssign
{
    ThrowsAssign() noexcept;
    ThrowsAssign(const ThrowsAssign&) noexcept;
    ThrowsAssign(ThrowsAssign&&) noexcept;
    ThrowsAssign& operator=(const ThrowsAssign&) noexcept(false);
    ThrowsAssign& operator=(ThrowsAssign&&) noexcept(false);
};
struct ThrowsCopy
{
    ThrowsCopy() noexcept;
    ThrowsCopy(const ThrowsCopy&) noexcept(false);
    ThrowsCopy(ThrowsCopy&&) noexcept;
    ThrowsCopy& operator=(const ThrowsCopy&) noexcept(false);
    ThrowsCopy& operator=(ThrowsCopy&&) noexcept;
};
struct Dtor
{
    Dtor()            = default;
    Dtor(const Dtor&) = default;
    Dtor(Dtor&&)      = default;
    Dtor& operator=(const Dtor&) = default;
    Dtor& operator=(Dtor&&) = default;
    ~Dtor();
};
struct NoAssign
{
    NoAssign()                = default;
    NoAssign(const NoAssign&) = default;
    NoAssign(NoAssign&&)      = default;
    NoAssign& operator=(const NoAssign&) = delete;
    NoAssign& operator=(NoAssign&&) = delete;
};
struct AssignOnly
{
    AssignOnly()                  = default;
    AssignOnly(const AssignOnly&) = delete;
    AssignOnly(AssignOnly&&)      = delete;
    AssignOnly& operator=(const AssignOnly&) = default;
    AssignOnly& operator=(AssignOnly&&) = default;
};
struct NoMoveAssign
{
    NoMoveAssign()                    = default;
    NoMoveAssign(const NoMoveAssign&) = delete;
    NoMoveAssign(NoMoveAssign&&)      = default;
    NoMoveAssign& operator=(const NoMoveAssign&) = delete;
    NoMoveAssign& operator=(NoMoveAssign&&) = delete;
};
struct NoDefault
{
    explicit NoDefault(int) noexcept;
};
struct TrivialCopyOnly  // trivial to copy-construct, not to assign
{
    TrivialCopyOnly()                       = default;
    TrivialCopyOnly(const TrivialCopyOnly&) = default;
    TrivialCopyOnly& operator=(const TrivialCopyOnly&) noexcept;
};
struct Swaps
{
    Swaps(Swaps&&) noexcept(false);
    Swaps& operator=(Swaps&&) noexcept(false);
};
inline void swap(Swaps&, Swaps&) noexcept {}
struct FromInt
{
    FromInt(int);
};
struct ExplicitFromInt
{
    explicit ExplicitFromInt(int);
};

#define AGREE1(tr) vp_assert(std::tr<P>::value == std::tr<S>::value, TAG tr_##tr)
#define tr_is_default_constructible "default construction is available as the standard says"
#define tr_is_nothrow_default_constructible "default construction can throw only if the standard allows it"
#define tr_is_copy_constructible "copy construction is available exactly when the content can be copied"
#define tr_is_trivially_copy_constructible "copy construction is trivial exactly when the standard says so"
#define tr_is_move_constructible "move construction is available exactly when the content can be moved"
#define tr_is_trivially_move_constructible "move construction is trivial exactly when the standard says so"
#define tr_is_nothrow_move_constructible "move construction is noexcept exactly when the standard says so"
#define tr_is_copy_assignable "copy assignment is available exactly when the content allows it"
#define tr_is_trivially_copy_assignable "copy assignment is trivial exactly when the standard says so"
#define tr_is_move_assignable "move assignment is available exactly when the content allows it"
#define tr_is_trivially_move_assignable "move assignment is trivial exactly when the standard says so"
#define tr_is_nothrow_move_assignable "move assignment is noexcept exactly when the standard says so"
#define tr_is_destructible "destruction is available"
#define tr_is_trivially_destructible "destruction is trivial exactly when the content's is"
#define tr_is_nothrow_destructible "destruction is noexcept"
#define tr_is_swappable "swap is available exactly when the standard says so"
#define tr_is_nothrow_swappable "swap is noexcept exactly when the standard says so"

#if __cplusplus >= 201703L
template <typename P, typename S>
static void same_special_members()
{
#    define TAG "P14: "
    AGREE1(is_default_constructible);
    AGREE1(is_nothrow_default_constructible);
    AGREE1(is_copy_constructible);
    AGREE1(is_trivially_copy_constructible);
    AGREE1(is_move_constructible);
    AGREE1(is_trivially_move_constructible);
    AGREE1(is_nothrow_move_constructible);
    AGREE1(is_copy_assignable);
    AGREE1(is_trivially_copy_assignable);
    AGREE1(is_move_assignable);
    AGREE1(is_trivially_move_assignable);
    AGREE1(is_nothrow_move_assignable);
    AGREE1(is_destructible);
    AGREE1(is_trivially_destructible);
    AGREE1(is_nothrow_destructible);
    AGREE1(is_swappable);
    AGREE1(is_nothrow_swappable);
#    undef TAG
}
#endif

// --------------------------------------------------------------------------------------------------------------------
template <typename T>
static void opt_members()
{
    using O = pf17::optional<T>;
    vp_assert(std::is_nothrow_default_constructible<O>::value, "P14: an empty optional is made without throwing");
    vp_assert(std::is_copy_constructible<O>::value == std::is_copy_constructible<T>::value,
              "P14: an optional can be copied exactly when its content can");
    vp_assert(std::is_move_constructible<O>::value == std::is_move_constructible<T>::value,
              "P14: an optional can be moved exactly when its content can");
    vp_assert(std::is_copy_assignable<O>::value ==
                  (std::is_copy_constructible<T>::value && std::is_copy_assignable<T>::value),
              "P14: an optional can be copy-assigned exactly when its content can be copied and assigned");
    vp_assert(std::is_move_assignable<O>::value ==
                  (std::is_move_constructible<T>::value && std::is_move_assignable<T>::value),
              "P14: an optional can be move-assigned exactly when its content can be moved and assigned");
    vp_assert(std::is_trivially_destructible<O>::value == std::is_trivially_destructible<T>::value,
              "P14: an optional is trivially destructible exactly when its content is");
    vp_assert(!std::is_move_constructible<T>::value ||
                  std::is_nothrow_move_constructible<O>::value == std::is_nothrow_move_constructible<T>::value,
              "P14: moving an optional is noexcept exactly when moving its content is");
    vp_assert(!std::is_move_assignable<O>::value ||
                  std::is_nothrow_move_assignable<O>::value == (std::is_nothrow_move_constructible<T>::value &&
                                                                std::is_nothrow_move_assignable<T>::value),
              "P14: move-assigning an optional is noexcept exactly when moving and assigning its content is");
    vp_assert(!std::is_copy_constructible<T>::value || !std::is_nothrow_copy_constructible<O>::value ||
                  std::is_nothrow_copy_constructible<T>::value,
              "P14: copying an optional is not noexcept when copying its content may throw");
    vp_assert(!std::is_copy_assignable<O>::value || !std::is_nothrow_copy_assignable<O>::value ||
                  (std::is_nothrow_copy_constructible<T>::value && std::is_nothrow_copy_assignable<T>::value),
              "P14: copy-assigning an optional is not noexcept when it may throw");
    vp_assert(std::is_trivially_copyable<T>::value || !std::is_trivially_copyable<O>::value,
              "P14: an optional is not copied as plain bytes unless its content is");
    vp_assert(!std::is_trivially_copyable<T>::value || !std::is_copy_constructible<T>::value ||
                  !std::is_copy_assignable<T>::value || std::is_trivially_copyable<O>::value,
              "P14: an optional of plain data is trivially copyable");
    vp_assert(std::is_same<typename O::value_type, T>::value, "P14: value_type is the content's type");
    vp_assert(std::is_same<decltype(*std::declval<O&>()), T&>::value &&
                  std::is_same<decltype(*std::declval<const O&>()), const T&>::value &&
                  std::is_same<decltype(*std::declval<O&&>()), T&&>::value &&
                  std::is_same<decltype(*std::declval<const O&&>()), const T&&>::value &&
                  std::is_same<decltype(std::declval<O&>().value()), T&>::value &&
                  std::is_same<decltype(std::declval<const O&>().value()), const T&>::value &&
                  std::is_same<decltype(std::declval<O&&>().value()), T&&>::value &&
                  std::is_same<decltype(std::declval<const O&&>().value()), const T&&>::value,
              "P14: access keeps the constness and value category of the optional");
    vp_assert(std::is_constructible<bool, O>::value && !std::is_convertible<O, bool>::value,
              "P14: an optional tests as a condition but does not convert to bool");
    vp_assert(noexcept(std::declval<O&>().has_value()) && noexcept(static_cast<bool>(std::declval<O&>())),
              "P14: has_value never throws");
#if __cplusplus >= 201703L
    using R = std::optional<T>;
    same_special_members<O, R>();
    vp_assert(std::is_constructible<O, T>::value == std::is_constructible<R, T>::value &&
                  std::is_constructible<O, const T&>::value == std::is_constructible<R, const T&>::value &&
                  std::is_convertible<T, O>::value == std::is_convertible<T, R>::value &&
                  std::is_assignable<O&, T>::value == std::is_assignable<R&, T>::value &&
                  std::is_assignable<O&, const T&>::value == std::is_assignable<R&, const T&>::value,
              "P14: conversion from the content type exists as the standard says");
    vp_assert(std::is_constructible<O, int>::value == std::is_constructible<R, int>::value &&
                  std::is_convertible<int, O>::value == std::is_convertible<int, R>::value &&
                  std::is_assignable<O&, int>::value == std::is_assignable<R&, int>::value &&
                  std::is_constructible<O, void*>::value == std::is_constructible<R, void*>::value &&
                  std::is_assignable<O&, void*>::value == std::is_assignable<R&, void*>::value,
              "P14: conversion from another type exists, and is explicit, as the standard says");
    vp_assert((std::is_constructible<O, pf17::in_place_t, int>::value ||
               !std::is_constructible<R, std::in_place_t, int>::value) &&
                  (std::is_constructible<O, pf17::in_place_t>::value ||
                   !std::is_constructible<R, std::in_place_t>::value),
              "P14: in-place construction exists whenever the standard says so");
    vp_assert(std::is_constructible<O, pf17::optional<int>>::value ==
                      std::is_constructible<R, std::optional<int>>::value &&
                  std::is_convertible<pf17::optional<int>, O>::value ==
                      std::is_convertible<std::optional<int>, R>::value &&
                  std::is_assignable<O&, pf17::optional<int>>::value ==
                      std::is_assignable<R&, std::optional<int>>::value &&
                  std::is_assignable<O&, const pf17::optional<int>&>::value ==
                      std::is_assignable<R&, const std::optional<int>&>::value &&
                  std::is_constructible<O, pf17::optional<void*>>::value ==
                      std::is_constructible<R, std::optional<void*>>::value,
              "P14: conversion from an optional of another type exists, and is explicit, as the standard says");
    vp_assert(std::is_nothrow_assignable<O&, pf17::nullopt_t>::value &&
                  std::is_nothrow_constructible<O, pf17::nullopt_t>::value &&
                  std::is_convertible<pf17::nullopt_t, O>::value,
              "P14: nullopt converts to an optional and can be assigned, without throwing");
#endif
    vp_cover("end");
}
#define EACH_TYPE(X)                                                                                                    \
    X(int) X(Plain) X(MoveOnly) X(Pinned) X(ThrowsAll) X(ThrowsConstruct) X(ThrowsAssign) X(ThrowsCopy) X(Dtor)         \
        X(NoAssign) X(AssignOnly) X(NoMoveAssign) X(NoDefault) X(TrivialCopyOnly) X(Swaps) X(FromInt) X(ExplicitFromInt)
#define X(T)                \
    VP_ENTRY(h_opt_##T)     \
    {                       \
        opt_members<T>();   \
    }
EACH_TYPE(X)
#undef X

// An optional's comparison asks for the same comparison of its content, and for no other.
#define ONLY(name, op)                                        \
    struct Only##name                                         \
    {                                                         \
        int v;                                                \
    };                                                        \
    struct Into##name                                         \
    {                                                         \
        int v;                                                \
    };                                                        \
    bool operator op(const Only##name&, const Only##name&);   \
    bool operator op(const Only##name&, const Into##name&);   \
    bool operator op(const Into##name&, const Only##name&);
ONLY(Eq, ==) ONLY(Ne, !=) ONLY(Lt, <) ONLY(Le, <=) ONLY(Gt, >) ONLY(Ge, >=)
#define HAS(name, op)                                                                                     \
    template <typename A, typename B, typename = void>                                                    \
    struct has_##name : std::false_type                                                                   \
    {};                                                                                                   \
    template <typename A, typename B>                                                                     \
    struct has_##name<A, B, pf17::void_t<decltype(std::declval<A>() op std::declval<B>())>> : std::true_type \
    {};
HAS(eq, ==) HAS(ne, !=) HAS(lt, <) HAS(le, <=) HAS(gt, >) HAS(ge, >=)
template <typename A, typename B>
static constexpr unsigned comparisons()
{
    return (has_eq<A, B>::value ? 1U : 0U) | (has_ne<A, B>::value ? 2U : 0U) | (has_lt<A, B>::value ? 4U : 0U) |
           (has_le<A, B>::value ? 8U : 0U) | (has_gt<A, B>::value ? 16U : 0U) | (has_ge<A, B>::value ? 32U : 0U);
}
template <typename T, typename U>
static void opt_compares()
{
    using O = pf17::optional<T>;
    using Q = pf17::optional<U>;
    vp_assert(comparisons<const O&, const O&>() == comparisons<const T&, const T&>(),
              "P14: optionals compare exactly as their contents do");
    vp_assert(comparisons<const O&, const Q&>() == comparisons<const T&, const U&>() &&
                  comparisons<const Q&, const O&>() == comparisons<const U&, const T&>(),
              "P14: optionals of different types compare exactly as their contents do");
    vp_assert(comparisons<const O&, const T&>() == comparisons<const T&, const T&>() &&
                  comparisons<const O&, const U&>() == comparisons<const T&, const U&>(),
              "P14: an optional compares with a value exactly as its content does");
    vp_assert(comparisons<const T&, const O&>() == comparisons<const T&, const T&>() &&
                  comparisons<const U&, const O&>() == comparisons<const U&, const T&>(),
              "P14: a value compares with an optional exactly as with its content");
    vp_assert(comparisons<const O&, pf17::nullopt_t>() == 63U && comparisons<pf17::nullopt_t, const O&>() == 63U,
              "P14: every optional compares with nullopt");
    vp_assert(noexcept(std::declval<const O&>() == pf17::nullopt) && noexcept(pf17::nullopt == std::declval<const O&>()) &&
                  noexcept(std::declval<const O&>() != pf17::nullopt) &&
                  noexcept(pf17::nullopt != std::declval<const O&>()) &&
                  noexcept(std::declval<const O&>() < pf17::nullopt) && noexcept(pf17::nullopt < std::declval<const O&>()) &&
                  noexcept(std::declval<const O&>() <= pf17::nullopt) &&
                  noexcept(pf17::nullopt <= std::declval<const O&>()) &&
                  noexcept(std::declval<const O&>() > pf17::nullopt) && noexcept(pf17::nullopt > std::declval<const O&>()) &&
                  noexcept(std::declval<const O&>() >= pf17::nullopt) && noexcept(pf17::nullopt >= std::declval<const O&>()),
              "P14: comparison with nullopt never throws");
    vp_cover("end");
}
VP_ENTRY(h_opt_compare)
{
    opt_compares<OnlyEq, IntoEq>();
    opt_compares<OnlyNe, IntoNe>();
    opt_compares<OnlyLt, IntoLt>();
    opt_compares<OnlyLe, IntoLe>();
    opt_compares<OnlyGt, IntoGt>();
    opt_compares<OnlyGe, IntoGe>();
    opt_compares<int, long>();
}
// Content that can be made from (or assigned) an optional in one way takes the optional as its value in no other.
struct Inner
{};
template <typename R>
struct Nest
{
    Nest(const Inner&);
    Nest(R);
    Nest& operator=(const Inner&);
};
template <typename R>
struct NestAssign
{
    explicit NestAssign(const Inner&);
    NestAssign& operator=(const Inner&);
    NestAssign& operator=(R);
};
using OI = pf17::optional<Inner>;
VP_ENTRY(h_opt_nested)
{
    using A = pf17::optional<Nest<OI&>>;
    using B = pf17::optional<Nest<const OI&>>;
    using C = pf17::optional<Nest<OI&&>>;
    using D = pf17::optional<Nest<const OI&&>>;
    vp_assert(std::is_constructible<A, OI&>::value && !std::is_constructible<A, const OI&>::value &&
                  !std::is_constructible<A, OI&&>::value,
              "P14: an optional is not unwrapped when its content can be made from it");
    vp_assert(std::is_constructible<B, OI&>::value && std::is_constructible<B, const OI&>::value &&
                  std::is_constructible<B, OI&&>::value,
              "P14: an optional is not unwrapped when its content can be made from it");
    vp_assert(!std::is_constructible<C, OI&>::value && !std::is_constructible<C, const OI&>::value &&
                  std::is_constructible<C, OI&&>::value,
              "P14: an optional is not unwrapped when its content can be made from it");
    vp_assert(!std::is_constructible<D, OI&>::value && !std::is_constructible<D, const OI&>::value &&
                  std::is_constructible<D, OI&&>::value,
              "P14: an optional is not unwrapped when its content can be made from it");
    using E = pf17::optional<NestAssign<OI&>>;
    using F = pf17::optional<NestAssign<const OI&>>;
    using G = pf17::optional<NestAssign<OI&&>>;
    using H = pf17::optional<NestAssign<const OI&&>>;
    using Z = pf17::optional<NestAssign<int>>;
    vp_assert(!std::is_assignable<E&, const OI&>::value && !std::is_assignable<E&, OI&&>::value &&
                  !std::is_assignable<G&, const OI&>::value && !std::is_assignable<H&, const OI&>::value &&
                  !std::is_assignable<F&, const OI&>::value && !std::is_assignable<F&, OI&&>::value,
              "P14: an optional is not unwrapped when it can be assigned to the content");
    vp_assert(std::is_assignable<Z&, const OI&>::value && std::is_assignable<Z&, OI&&>::value &&
                  std::is_assignable<Z&, OI&>::value && std::is_constructible<Z, const OI&>::value &&
                  std::is_constructible<Z, OI&>::value && std::is_constructible<Z, OI&&>::value,
              "P14: an optional of another type is unwrapped");
    vp_cover("end");
}
// Implicit exactly when the content is.
struct Implicit
{
    Implicit(const Inner&);
    Implicit(Inner&&);
};
struct Explicit
{
    explicit Explicit(const Inner&);
    explicit Explicit(Inner&&);
};
struct HalfExplicit
{
    HalfExplicit(const Inner&);
    explicit HalfExplicit(Inner&&);
};
VP_ENTRY(h_opt_explicit)
{
    using I = pf17::optional<Implicit>;
    using E = pf17::optional<Explicit>;
    vp_assert(std::is_convertible<Inner, I>::value && std::is_convertible<const Inner&, I>::value &&
                  std::is_convertible<OI, I>::value && std::is_convertible<const OI&, I>::value,
              "P14: conversion to an optional is implicit when the content converts implicitly");
    vp_assert(!std::is_convertible<Inner, E>::value && !std::is_convertible<const Inner&, E>::value &&
                  !std::is_convertible<OI, E>::value && !std::is_convertible<const OI&, E>::value &&
                  std::is_constructible<E, Inner>::value && std::is_constructible<E, const Inner&>::value &&
                  std::is_constructible<E, OI>::value && std::is_constructible<E, const OI&>::value,
              "P14: conversion to an optional is explicit when the content converts explicitly");
    using B = pf17::optional<bool>;
    vp_assert(std::is_convertible<bool, B>::value && std::is_convertible<int, B>::value &&
                  std::is_constructible<B, const void*>::value,
              "P14: an optional bool is made from what converts to bool");
    using BB = pf17::optional<pf17::optional<bool>>;
    vp_assert(std::is_convertible<B, BB>::value && std::is_convertible<bool, BB>::value &&
                  std::is_constructible<BB, pf17::optional<int>>::value,
              "P14: optionals of optionals are made from their content");
    vp_assert(!std::is_constructible<B, OI>::value, "P14: an optional bool is not made from whether another optional has a value");
    vp_cover("end");
}
// Swapping may throw when either moving or swapping the content may.
struct SwapThrows
{
    SwapThrows(SwapThrows&&) noexcept;
    SwapThrows& operator=(SwapThrows&&) noexcept;
};
inline void swap(SwapThrows&, SwapThrows&) noexcept(false) {}
struct TrivialMoveAssign
{
    TrivialMoveAssign()                                    = default;
    TrivialMoveAssign(TrivialMoveAssign&&) noexcept;
    TrivialMoveAssign& operator=(TrivialMoveAssign&&)      = default;
    TrivialMoveAssign(const TrivialMoveAssign&) noexcept;
    TrivialMoveAssign& operator=(const TrivialMoveAssign&) = default;
};
struct TrivialMoveConstruct
{
    TrivialMoveConstruct()                                          = default;
    TrivialMoveConstruct(TrivialMoveConstruct&&)                    = default;
    TrivialMoveConstruct& operator=(TrivialMoveConstruct&&) noexcept;
    TrivialMoveConstruct(const TrivialMoveConstruct&)               = default;
    TrivialMoveConstruct& operator=(const TrivialMoveConstruct&) noexcept;
};
template <typename O>
static constexpr bool swap_noexcept()
{
    return noexcept(std::declval<O&>().swap(std::declval<O&>()));
}
VP_ENTRY(h_opt_noexcept)
{
    vp_assert(swap_noexcept<pf17::optional<int>>() && !swap_noexcept<pf17::optional<Swaps>>() &&
                  !swap_noexcept<pf17::optional<SwapThrows>>() && !swap_noexcept<pf17::optional<ThrowsAll>>(),
              "P14: swap is noexcept exactly when moving and swapping the content is");
    using O = pf17::optional<ThrowsAll>;
    vp_assert(noexcept(*std::declval<O&>()) && noexcept(*std::declval<const O&>()) && noexcept(*std::declval<O&&>()) &&
                  noexcept(*std::declval<const O&&>()) && noexcept(std::declval<O&>().operator->()) &&
                  noexcept(std::declval<const O&>().operator->()),
              "P14: unchecked access never throws");
    vp_assert(std::is_nothrow_assignable<O&, pf17::nullopt_t>::value, "P14: assigning nullopt never throws");
#if defined(__cpp_exceptions)
    vp_assert(!noexcept(std::declval<O&>().value()) && !noexcept(std::declval<const O&>().value()) &&
                  !noexcept(std::declval<O&&>().value()) && !noexcept(std::declval<const O&&>().value()),
              "P14: checked access may throw");
    using E = pf17::bad_optional_access;
    vp_assert(std::is_base_of<std::exception, E>::value && std::is_nothrow_copy_constructible<E>::value &&
                  std::is_nothrow_copy_assignable<E>::value && std::is_nothrow_default_constructible<E>::value,
              "P14: exceptions are copied without throwing");
#endif
    vp_assert(!noexcept(std::declval<O&>().emplace()) && !noexcept(std::declval<O&>() = std::declval<const ThrowsAll&>()),
              "P14: making a value may throw");
    vp_cover("end");
}
VP_ENTRY(h_var_noexcept)
{
    using pf17::variant;
    vp_assert(swap_noexcept<variant<int, MoveOnly>>() && !swap_noexcept<variant<int, Swaps>>() && !swap_noexcept<variant<Swaps, int>>() &&
                  !swap_noexcept<variant<int, SwapThrows>>() && !swap_noexcept<variant<SwapThrows, int>>() &&
                  !swap_noexcept<variant<ThrowsAll, int>>(),
              "P14: swap is noexcept exactly when moving and swapping the alternatives is");
    vp_assert(std::is_nothrow_default_constructible<variant<int, ThrowsAll>>::value &&
                  !std::is_nothrow_default_constructible<variant<ThrowsAll, int>>::value,
              "P14: default construction is noexcept exactly when that of the first alternative is");
    using V = variant<ThrowsAll, int>;
    vp_assert(noexcept(std::declval<const V&>().index()) && noexcept(std::declval<const V&>().valueless_by_exception()) &&
                  noexcept(pf17::get_if<0>(std::declval<V*>())) && noexcept(pf17::get_if<0>(std::declval<const V*>())) &&
                  noexcept(pf17::get_if<int>(std::declval<V*>())) && noexcept(pf17::get_if<int>(std::declval<const V*>())) &&
                  noexcept(pf17::holds_alternative<int>(std::declval<const V&>())),
              "P14: observers of a variant never throw");
    using M = pf17::monostate;
    vp_assert(noexcept(M{} == M{}) && noexcept(M{} != M{}) && noexcept(M{} < M{}) && noexcept(M{} > M{}) && noexcept(M{} <= M{}) &&
                  noexcept(M{} >= M{}),
              "P14: comparing monostates never throws");
#if defined(__cpp_exceptions)
    vp_assert(!noexcept(pf17::get<0>(std::declval<V&>())) && !noexcept(pf17::get<int>(std::declval<const V&>())),
              "P14: checked access may throw");
    using E = pf17::bad_variant_access;
    vp_assert(std::is_base_of<std::exception, E>::value && std::is_nothrow_copy_constructible<E>::value &&
                  std::is_nothrow_copy_assignable<E>::value && std::is_nothrow_default_constructible<E>::value,
              "P14: exceptions are copied without throwing");
#endif
    vp_cover("end");
}
VP_ENTRY(h_opt_TrivialMoveAssign)
{
    opt_members<TrivialMoveAssign>();
}
VP_ENTRY(h_opt_TrivialMoveConstruct)
{
    opt_members<TrivialMoveConstruct>();
    vp_assert(!std::is_trivially_move_assignable<pf17::optional<TrivialMoveConstruct>>::value &&
                  !std::is_trivially_move_assignable<pf17::optional<TrivialMoveAssign>>::value &&
                  !std::is_trivially_copy_assignable<pf17::optional<TrivialMoveConstruct>>::value &&
                  !std::is_trivially_copy_assignable<pf17::optional<TrivialMoveAssign>>::value,
              "P14: assignment is not trivial when constructing or assigning the content is not");
}

// --------------------------------------------------------------------------------------------------------------------
template <typename... Ts>
static void var_members()
{
    using V = pf17::variant<Ts...>;
    constexpr bool copy_c  = pf17::conjunction_v<std::is_copy_constructible<Ts>...>;
    constexpr bool move_c  = pf17::conjunction_v<std::is_move_constructible<Ts>...>;
    constexpr bool copy_a  = pf17::conjunction_v<std::is_copy_assignable<Ts>...>;
    constexpr bool move_a  = pf17::conjunction_v<std::is_move_assignable<Ts>...>;
    constexpr bool nmove_c = pf17::conjunction_v<std::is_nothrow_move_constructible<Ts>...>;
    constexpr bool nmove_a = pf17::conjunction_v<std::is_nothrow_move_assignable<Ts>...>;
    vp_assert(std::is_copy_constructible<V>::value == copy_c,
              "P14: a variant can be copied exactly when every alternative can");
    vp_assert(std::is_move_constructible<V>::value == move_c,
              "P14: a variant can be moved exactly when every alternative can");
    vp_assert(std::is_copy_assignable<V>::value == (copy_c && copy_a),
              "P14: a variant can be copy-assigned exactly when every alternative can be copied and assigned");
    vp_assert(std::is_move_assignable<V>::value == (move_c && move_a),
              "P14: a variant can be move-assigned exactly when every alternative can be moved and assigned");
    vp_assert(!move_c || std::is_nothrow_move_constructible<V>::value == nmove_c,
              "P14: moving a variant is noexcept exactly when moving every alternative is");
    vp_assert(!(move_c && move_a) || std::is_nothrow_move_assignable<V>::value == (nmove_c && nmove_a),
              "P14: move-assigning a variant is noexcept exactly when moving and assigning every alternative is");
    vp_assert(std::is_trivially_destructible<V>::value == pf17::conjunction_v<std::is_trivially_destructible<Ts>...>,
              "P14: a variant is trivially destructible exactly when every alternative is");
    vp_assert(!copy_c || !std::is_nothrow_copy_constructible<V>::value ||
                  pf17::conjunction_v<std::is_nothrow_copy_constructible<Ts>...>,
              "P14: copying a variant is not noexcept when copying an alternative may throw");
    vp_assert(!(copy_c && copy_a) || !std::is_nothrow_copy_assignable<V>::value ||
                  (pf17::conjunction_v<std::is_nothrow_copy_constructible<Ts>...> &&
                   pf17::conjunction_v<std::is_nothrow_copy_assignable<Ts>...>),
              "P14: copy-assigning a variant is not noexcept when it may throw");
    vp_assert(pf17::conjunction_v<std::is_trivially_copyable<Ts>...> || !std::is_trivially_copyable<V>::value,
              "P14: a variant is not copied as plain bytes unless every alternative is");
    vp_assert(!pf17::conjunction_v<std::is_trivially_copyable<Ts>...> || !copy_c || !copy_a ||
                  std::is_trivially_copyable<V>::value,
              "P14: a variant of plain data is trivially copyable");
    vp_assert(pf17::variant_size<V>::value == sizeof...(Ts) && pf17::variant_size_v<const V> == sizeof...(Ts),
              "P14: variant_size is the number of alternatives");
    vp_assert(noexcept(std::declval<const V&>().index()) && noexcept(std::declval<const V&>().valueless_by_exception()),
              "P14: index and valueless_by_exception never throw");
#if __cplusplus >= 201703L
    using R = std::variant<Ts...>;
    // A narrowing conversion inside a converting constructor of the alternative rules the alternative out in CETL
    // (documented at is_convertible_without_narrowing), not in std::variant.
    constexpr bool narrowing_ctor = pf17::disjunction_v<std::is_same<Ts, FromInt>...>;
    same_special_members<V, R>();
    vp_assert(std::is_constructible<V, int>::value == std::is_constructible<R, int>::value &&
                  std::is_convertible<int, V>::value == std::is_convertible<int, R>::value &&
                  std::is_assignable<V&, int>::value == std::is_assignable<R&, int>::value &&
                  std::is_constructible<V, short>::value == std::is_constructible<R, short>::value &&
                  (narrowing_ctor || std::is_constructible<V, double>::value == std::is_constructible<R, double>::value) &&
                  std::is_constructible<V, bool>::value == std::is_constructible<R, bool>::value &&
                  std::is_constructible<V, const char*>::value == std::is_constructible<R, const char*>::value &&
                  std::is_constructible<V, void*>::value == std::is_constructible<R, void*>::value,
              "P14: conversion to a variant exists as the standard says");
    vp_assert(std::is_constructible<V, pf17::in_place_index_t<0>>::value ==
                      std::is_constructible<R, std::in_place_index_t<0>>::value &&
                  std::is_constructible<V, pf17::in_place_index_t<0>, int>::value ==
                      std::is_constructible<R, std::in_place_index_t<0>, int>::value,
              "P14: in-place construction exists as the standard says");
#endif
    vp_cover("end");
}
#define X(T)                           \
    VP_ENTRY(h_var_##T)                \
    {                                  \
        var_members<T>();              \
    }                                  \
    VP_ENTRY(h_var_mono_##T)           \
    {                                  \
        var_members<pf17::monostate, T>(); \
    }
EACH_TYPE(X)
#undef X
VP_ENTRY(h_var_mix1)
{
    var_members<int, double, ThrowsCopy>();
}
VP_ENTRY(h_var_mix2)
{
    var_members<Dtor, MoveOnly>();
}
VP_ENTRY(h_var_mix3)
{
    var_members<TrivialCopyOnly, ThrowsAssign, Plain>();
}
VP_ENTRY(h_var_mix4)
{
    var_members<int, ThrowsConstruct>();
}
VP_ENTRY(h_var_mix5)
{
    var_members<bool, FromInt>();
}
VP_ENTRY(h_var_mix6)
{
    var_members<int, int, float>();
}
VP_ENTRY(h_var_mix7)
{
    var_members<std::string, bool>();
}
VP_ENTRY(h_var_mix8)
{
    var_members<const int, const double>();
}
VP_ENTRY(h_var_access)
{
    using V = pf17::variant<int, MoveOnly>;
    vp_assert(std::is_same<decltype(pf17::get<0>(std::declval<V&>())), int&>::value &&
                  std::is_same<decltype(pf17::get<0>(std::declval<const V&>())), const int&>::value &&
                  std::is_same<decltype(pf17::get<1>(std::declval<V&&>())), MoveOnly&&>::value &&
                  std::is_same<decltype(pf17::get<MoveOnly>(std::declval<const V&&>())), const MoveOnly&&>::value &&
                  std::is_same<decltype(pf17::get<MoveOnly>(std::declval<V&>())), MoveOnly&>::value,
              "P14: get keeps the constness and value category of the variant");
    vp_assert(std::is_same<decltype(pf17::get_if<0>(std::declval<V*>())), int*>::value &&
                  std::is_same<decltype(pf17::get_if<0>(std::declval<const V*>())), const int*>::value &&
                  std::is_same<decltype(pf17::get_if<MoveOnly>(std::declval<const V*>())), const MoveOnly*>::value,
              "P14: get_if keeps the constness of the variant");
    vp_assert(noexcept(pf17::get_if<0>(std::declval<V*>())) &&
                  noexcept(pf17::holds_alternative<int>(std::declval<const V&>())),
              "P14: get_if and holds_alternative never throw");
    vp_assert(std::is_same<pf17::variant_alternative_t<0, V>, int>::value &&
                  std::is_same<pf17::variant_alternative_t<1, V>, MoveOnly>::value &&
                  std::is_same<pf17::variant_alternative_t<0, const V>, const int>::value,
              "P14: variant_alternative is the alternative with the constness of the variant");
    vp_assert(pf17::variant_npos == static_cast<std::size_t>(-1), "P14: variant_npos is the largest size");
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
// Constant evaluation: operations the standard requires in constant expressions.
constexpr int opt_sum()
{
    constexpr pf17::optional<int> a(4), b;
    return a.value_or(1) + b.value_or(2) + *a + (a.has_value() ? 8 : 0) + (b ? 100 : 0);
}
static_assert(opt_sum() == 18, "P14: optional in constant expressions");
static_assert(pf17::optional<int>{} == pf17::nullopt && pf17::optional<int>(1) < pf17::optional<int>(2),
              "P14: optional comparison in constant expressions");
static_assert(pf17::holds_alternative<int>(pf17::variant<int, double>(3)) &&
                  pf17::get<0>(pf17::variant<int, double>(3)) == 3,
              "P14: variant in constant expressions");
constexpr pf17::variant<int, double> cv(2.5);
static_assert(cv.index() == 1 && *pf17::get_if<1>(&cv) == 2.5 && pf17::get_if<0>(&cv) == nullptr,
              "P14: variant access in constant expressions");
constexpr pf17::string_view csv("hello", 5);
static_assert(csv.size() == 5 && csv[1] == 'e' && csv.back() == 'o' && csv.data()[4] == 'o' && !csv.empty(),
              "P14: string_view in constant expressions");
constexpr int             arr[]{1, 2, 3};
constexpr pf20::span<const int> cspan(arr);
static_assert(cspan.size() == 3 && cspan[2] == 3 && cspan.front() == 1 && cspan.size_bytes() == 3 * sizeof(int) &&
                  cspan.subspan(1, 1).front() == 2 && cspan.last(1).front() == 3 && cspan.first(2).back() == 2,
              "P14: span in constant expressions");

VP_ENTRY(h_constexpr)
{
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
using SV = pf17::string_view;
VP_ENTRY(h_sv_members)
{
    vp_assert(std::is_trivially_copyable<SV>::value && std::is_trivially_destructible<SV>::value,
              "P14: string_view is trivially copyable");
    vp_assert(std::is_nothrow_default_constructible<SV>::value && std::is_nothrow_copy_constructible<SV>::value &&
                  std::is_nothrow_copy_assignable<SV>::value,
              "P14: making and copying a string_view never throws");
    vp_assert(std::is_convertible<const char*, SV>::value, "P14: a C string converts to string_view");
    vp_assert(!std::is_constructible<SV, int>::value && !std::is_convertible<SV, const char*>::value,
              "P14: a string_view does not convert to or from unrelated types");
    vp_assert(std::is_same<SV::value_type, char>::value && std::is_same<SV::size_type, std::size_t>::value &&
                  std::is_same<SV::const_reference, const char&>::value &&
                  std::is_same<decltype(std::declval<SV>()[0]), const char&>::value &&
                  std::is_same<decltype(std::declval<SV>().data()), const char*>::value &&
                  std::is_same<decltype(*std::declval<SV>().begin()), const char&>::value,
              "P14: a string_view gives read-only access");
    vp_assert(SV::npos == static_cast<std::size_t>(-1), "P14: npos is the largest size");
    vp_assert(noexcept(std::declval<SV&>().size()) && noexcept(std::declval<SV&>().data()) &&
                  noexcept(std::declval<SV&>().begin()) && noexcept(std::declval<SV&>().end()) &&
                  noexcept(std::declval<SV&>().empty()) && noexcept(std::declval<SV&>().length()) &&
                  noexcept(std::declval<SV&>().cbegin()) && noexcept(std::declval<SV&>().cend()) &&
                  noexcept(std::declval<SV&>().max_size()),
              "P14: observers of a string_view never throw");
    vp_assert(noexcept(std::declval<SV&>().swap(std::declval<SV&>())) && noexcept(std::declval<SV&>().compare(SV{})) &&
                  noexcept(std::declval<SV&>().find('x')) && noexcept(std::declval<SV&>().find(SV{})) &&
                  noexcept(SV{} == SV{}) && noexcept(SV{} != SV{}) && noexcept(SV{} < SV{}) && noexcept(SV{} > SV{}) &&
                  noexcept(SV{} <= SV{}) && noexcept(SV{} >= SV{}),
              "P14: comparing and searching string_views never throws");
    vp_assert(SV{}.max_size() > 0 && SV{}.max_size() <= SV::npos, "P14: a string_view has a size limit");
#if __cplusplus >= 201703L
    using P = SV;
    using S = std::string_view;
    vp_assert(std::is_constructible<P, const char*, std::size_t>::value && std::is_constructible<P, char*>::value,
              "P14: string_view is made from a pointer and a length");
#    define TAG "P14: "
    AGREE1(is_trivially_copy_assignable);
    AGREE1(is_trivially_copy_constructible);
    AGREE1(is_swappable);
    AGREE1(is_nothrow_swappable);
#    undef TAG
#endif
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
#if __cplusplus >= 202002L
template <typename A, typename B, std::size_t EA, std::size_t EB>
static void span_pair()
{
    using P  = pf20::span<A, EA>;
    using Q  = pf20::span<B, EB>;
    using SP = std::span<A, EA == pf20::dynamic_extent ? std::dynamic_extent : EA>;
    using SQ = std::span<B, EB == pf20::dynamic_extent ? std::dynamic_extent : EB>;
    vp_assert(!std::is_constructible<P, Q>::value || std::is_constructible<SP, SQ>::value,
              "P14: a span converts to another only when the standard allows it");
    vp_assert(std::is_constructible<P, Q>::value || !std::is_convertible<SQ, SP>::value,
              "P14: a span converts to another whenever the standard requires it implicitly");
}
template <typename A, std::size_t EA>
static void span_from()
{
    using P = pf20::span<A, EA>;
    using S = std::span<A, EA == pf20::dynamic_extent ? std::dynamic_extent : EA>;
    vp_assert(std::is_constructible<P, int (&)[3]>::value == std::is_constructible<S, int (&)[3]>::value &&
                  std::is_constructible<P, const int (&)[3]>::value == std::is_constructible<S, const int (&)[3]>::value &&
                  std::is_constructible<P, int (&)[2]>::value == std::is_constructible<S, int (&)[2]>::value &&
                  std::is_constructible<P, std::array<int, 3>&>::value ==
                      std::is_constructible<S, std::array<int, 3>&>::value &&
                  std::is_constructible<P, const std::array<int, 3>&>::value ==
                      std::is_constructible<S, const std::array<int, 3>&>::value &&
                  std::is_constructible<P, std::array<int, 2>&>::value ==
                      std::is_constructible<S, std::array<int, 2>&>::value &&
                  std::is_constructible<P, double (&)[3]>::value == std::is_constructible<S, double (&)[3]>::value,
              "P14: a span is made from arrays exactly when the standard says so");
    vp_assert(std::is_trivially_copyable<P>::value && std::is_nothrow_copy_constructible<P>::value &&
                  std::is_nothrow_copy_assignable<P>::value && std::is_trivially_destructible<P>::value,
              "P14: a span is trivially copyable");
    vp_assert(std::is_default_constructible<P>::value == std::is_default_constructible<S>::value,
              "P14: an empty span exists exactly when the extent allows it");
    vp_assert(std::is_same<typename P::element_type, A>::value &&
                  std::is_same<typename P::value_type, std::remove_cv_t<A>>::value &&
                  std::is_same<decltype(std::declval<const P&>()[0]), A&>::value &&
                  std::is_same<decltype(std::declval<const P&>().data()), A*>::value &&
                  std::is_same<decltype(*std::declval<const P&>().begin()), A&>::value,
              "P14: a span gives access with the constness of its element type");
    span_pair<A, int, EA, 3>();
    span_pair<A, const int, EA, 3>();
    span_pair<A, int, EA, 2>();
    span_pair<A, int, EA, pf20::dynamic_extent>();
    span_pair<A, const int, EA, pf20::dynamic_extent>();
    span_pair<A, double, EA, pf20::dynamic_extent>();
    span_pair<A, short, EA, 3>();
}
VP_ENTRY(h_span_dyn)
{
    span_from<int, pf20::dynamic_extent>();
    vp_cover("end");
}
VP_ENTRY(h_span_cdyn)
{
    span_from<const int, pf20::dynamic_extent>();
    vp_cover("end");
}
VP_ENTRY(h_span_3)
{
    span_from<int, 3>();
    vp_cover("end");
}
VP_ENTRY(h_span_c3)
{
    span_from<const int, 3>();
    vp_cover("end");
}
VP_ENTRY(h_span_0)
{
    span_from<const int, 0>();
    vp_cover("end");
}
#endif
template <typename S>
static void nothrow_span()
{
    vp_assert(std::is_nothrow_copy_constructible<S>::value && std::is_nothrow_copy_assignable<S>::value &&
                  std::is_nothrow_constructible<S, int (&)[2]>::value && std::is_nothrow_constructible<S, std::array<int, 2>&>::value,
              "P14: making a span never throws");
    vp_assert(noexcept(std::declval<S&>().size()) && noexcept(std::declval<S&>().data()) && noexcept(std::declval<S&>().begin()) &&
                  noexcept(std::declval<S&>().end()) && noexcept(std::declval<S&>().empty()) &&
                  noexcept(std::declval<S&>().size_bytes()) && noexcept(std::declval<S&>().rbegin()) &&
                  noexcept(std::declval<S&>().rend()),
              "P14: observers of a span never throw");
}
VP_ENTRY(h_span_members)
{
    using D  = pf20::span<int>;
    using D2 = pf20::span<int, 2>;
    vp_assert(!std::is_constructible<D, pf20::span<const int>>::value && !std::is_constructible<D, const int (&)[2]>::value,
              "P14: constness is never dropped");
    vp_assert(std::is_constructible<pf20::span<const int>, D>::value, "P14: constness can be added");
    vp_assert(!std::is_constructible<D2, pf20::span<int, 3>>::value && !std::is_constructible<D2, int (&)[3]>::value &&
                  !std::is_constructible<D2, std::array<int, 3>&>::value,
              "P14: a fixed extent is never changed");
    vp_assert(std::is_same<decltype(std::declval<D2>().first<1>()), pf20::span<int, 1>>::value &&
                  std::is_same<decltype(std::declval<D>().first(1)), D>::value &&
                  std::is_same<decltype(std::declval<D2>().last<1>()), pf20::span<int, 1>>::value &&
                  std::is_same<decltype(std::declval<D>().last(1)), D>::value &&
                  std::is_same<decltype(std::declval<D2>().subspan<1>()), pf20::span<int, 1>>::value &&
                  std::is_same<decltype(std::declval<D2>().subspan<0, 1>()), pf20::span<int, 1>>::value &&
                  std::is_same<decltype(std::declval<D>().subspan<1>()), D>::value &&
                  std::is_same<decltype(std::declval<D>().subspan<1, 2>()), pf20::span<int, 2>>::value &&
                  std::is_same<decltype(std::declval<D2>().subspan(1)), D>::value,
              "P14: the extent of a sub-span is the one the standard gives");
    nothrow_span<D>();
    nothrow_span<D2>();
    nothrow_span<pf20::span<const int>>();
    nothrow_span<pf20::span<const int, 2>>();
    vp_assert(std::is_nothrow_default_constructible<D>::value && std::is_nothrow_default_constructible<pf20::span<int, 0>>::value,
              "P14: an empty span never throws");
    vp_assert(std::is_nothrow_constructible<pf20::span<const int>, D2>::value &&
                  std::is_nothrow_constructible<pf20::span<const int>, D>::value &&
                  std::is_nothrow_constructible<pf20::span<const int, 2>, D2>::value &&
                  std::is_nothrow_constructible<D2, D>::value &&
                  std::is_nothrow_constructible<pf20::span<const int>, const std::array<int, 2>&>::value &&
                  std::is_nothrow_constructible<pf20::span<const int, 2>, const std::array<int, 2>&>::value,
              "P14: converting to a span never throws");
    vp_assert(D2::extent == 2 && D::extent == pf20::dynamic_extent && pf20::dynamic_extent == static_cast<std::size_t>(-1),
              "P14: extents are as declared");
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
template <typename U, bool C, bool M>
static void ubv_members()
{
    // The assignment operators are declared in every case and ill-formed when used, so only the positive holds for them.
    vp_assert(std::is_copy_constructible<U>::value == C && (!C || std::is_copy_assignable<U>::value),
              "P14: an unbounded_variant can be copied exactly when declared copyable");
    vp_assert(std::is_move_constructible<U>::value == (M || C) && (!(M || C) || std::is_move_assignable<U>::value),
              "P14: an unbounded_variant can be moved exactly when declared movable or copyable");
    vp_assert(!M || (std::is_nothrow_move_constructible<U>::value && std::is_nothrow_move_assignable<U>::value),
              "P14: moving a movable unbounded_variant never throws");
    vp_assert(!std::is_nothrow_copy_constructible<U>::value && !std::is_nothrow_copy_assignable<U>::value,
              "P14: copying an unbounded_variant may throw what the content throws");
    vp_assert(std::is_default_constructible<U>::value, "P14: an empty unbounded_variant can be made");
    vp_assert(std::is_nothrow_destructible<U>::value, "P14: destruction never throws");
    vp_assert(!std::is_trivially_destructible<U>::value && !std::is_trivially_copyable<U>::value,
              "P14: the content is never copied or dropped as plain bytes");
    vp_assert(noexcept(std::declval<const U&>().has_value()) && noexcept(std::declval<U&>().reset()),
              "P14: has_value and reset never throw");
    vp_cover("end");
}
VP_ENTRY(h_ubv_cm)
{
    ubv_members<cetl::unbounded_variant<16, true, true>, true, true>();
}
VP_ENTRY(h_ubv_m)
{
    ubv_members<cetl::unbounded_variant<16, false, true>, false, true>();
}
VP_ENTRY(h_ubv_c)
{
    ubv_members<cetl::unbounded_variant<16, true, false>, true, false>();
}
VP_ENTRY(h_ubv_none)
{
    ubv_members<cetl::unbounded_variant<16, false, false>, false, false>();
}
VP_ENTRY(h_ubv_access)
{
    using U = cetl::unbounded_variant<16>;
    vp_assert(std::is_same<decltype(cetl::get<int&>(std::declval<U&>())), int&>::value &&
                  std::is_same<decltype(cetl::get<int>(std::declval<const U&>())), int>::value &&
                  std::is_same<decltype(cetl::get_if<int>(std::declval<U*>())), int*>::value &&
                  std::is_same<decltype(cetl::get_if<const int>(std::declval<const U*>())), const int*>::value,
              "P14: access gives the requested type");
    vp_cover("end");
}

// --------------------------------------------------------------------------------------------------------------------
template <typename T>
static void vla_members()
{
    using A = std::allocator<T>;
    using V = cetl::VariableLengthArray<T, A>;
    vp_assert(std::is_nothrow_move_constructible<V>::value, "P14: moving an array never throws");
    vp_assert(std::is_nothrow_destructible<V>::value, "P14: destroying an array never throws");
    vp_assert(!std::is_trivially_copyable<V>::value && !std::is_trivially_destructible<V>::value,
              "P14: an array is never copied or dropped as plain bytes");
    vp_assert(std::is_copy_constructible<V>::value && std::is_copy_assignable<V>::value &&
                  std::is_move_assignable<V>::value,
              "P14: an array can be copied and assigned");
    vp_assert(!std::is_nothrow_copy_constructible<V>::value && !std::is_nothrow_copy_assignable<V>::value,
              "P14: copying an array allocates, so it may throw");
    vp_assert(!std::is_convertible<std::size_t, V>::value, "P14: a number does not convert to an array");
    vp_assert(std::is_same<typename V::value_type, T>::value && std::is_same<typename V::size_type, std::size_t>::value,
              "P14: member types name the element");
    vp_assert(noexcept(std::declval<const V&>().size()) && noexcept(std::declval<const V&>().capacity()) &&
                  noexcept(std::declval<V&>().begin()) && noexcept(std::declval<V&>().end()) &&
                  noexcept(std::declval<const V&>().begin()) && noexcept(std::declval<V&>().clear()),
              "P14: observers and clear never throw");
    vp_cover("end");
}
VP_ENTRY(h_vla_int)
{
    vla_members<int>();
    using V = cetl::VariableLengthArray<int, std::allocator<int>>;
    vp_assert(std::is_same<decltype(std::declval<const V&>()[0]), const int&>::value &&
                  std::is_same<decltype(std::declval<V&>()[0]), int&>::value &&
                  std::is_same<decltype(*std::declval<const V&>().begin()), const int&>::value &&
                  std::is_same<decltype(*std::declval<const V&>().cbegin()), const int&>::value &&
                  std::is_same<decltype(*std::declval<V&>().cbegin()), const int&>::value &&
                  std::is_same<decltype(*std::declval<V&>().begin()), int&>::value &&
                  std::is_same<decltype(std::declval<const V&>().data()), const int*>::value &&
                  std::is_same<decltype(std::declval<V&>().data()), int*>::value &&
                  std::is_same<decltype(std::declval<const V&>().front()), const int&>::value &&
                  std::is_same<decltype(std::declval<const V&>().back()), const int&>::value,
              "P14: a constant array gives read-only access");
#if defined(__cpp_exceptions)
    vp_assert(std::is_same<decltype(std::declval<const V&>().at(0)), const int&>::value,
              "P14: a constant array gives read-only access");
#endif
}
VP_ENTRY(h_vla_throws)
{
    vla_members<ThrowsAll>();
}
VP_ENTRY(h_vla_bool)
{
    vla_members<bool>();
}

// --------------------------------------------------------------------------------------------------------------------
VP_ENTRY(h_fun_members)
{
    using F = cetl::pmr::function<int(int), 16>;
    vp_assert(std::is_nothrow_default_constructible<F>::value, "P14: an empty function is made without throwing");
    vp_assert(std::is_move_constructible<F>::value && std::is_move_assignable<F>::value, "P14: a function can be moved");
    vp_assert(std::is_copy_constructible<F>::value && std::is_copy_assignable<F>::value, "P14: a function can be copied");
    vp_assert(!std::is_trivially_copyable<F>::value && !std::is_trivially_destructible<F>::value,
              "P14: a function is never copied or dropped as plain bytes");
    vp_assert(std::is_constructible<bool, F>::value && !std::is_convertible<F, bool>::value,
              "P14: a function tests as a condition but does not convert to bool");
    vp_assert(std::is_same<F::result_type, int>::value && std::is_same<decltype(std::declval<const F&>()(1)), int>::value,
              "P14: the result type is the declared one");
    vp_cover("end");
}
