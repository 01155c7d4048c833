// Constant-expression client programs: each body below is the text of a constexpr function. Whether a call to it is a
// constant expression is a rule of the language, so the compiler answers it; no value is looked at here (what the
// operations compute is the business of the other client programs).
#include "vp.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/string_view.hpp"
#include "cetl/pf17/utility.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/pf20/span.hpp"
#include "cetl/rtti.hpp"
#include "cetl/visit_helpers.hpp"
#include <array>
#include <utility>
namespace pf17 = cetl::pf17;
namespace pf20 = cetl::pf20;

template <typename P, bool = (P::run(), true)>
std::true_type constant_test(int);
template <typename P>
std::false_type constant_test(...);

#define CONSTANT(name, what, ...)                                                                     \
    template <typename Opt, typename Var, typename Str>                                               \
    struct prog_##name                                                                                \
    {                                                                                                 \
        static constexpr auto run()                                                                   \
        {                                                                                             \
            __VA_ARGS__                                                                               \
        }                                                                                             \
    };                                                                                                \
    VP_ENTRY(h_##name)                                                                                \
    {                                                                                                 \
        vp_assert(decltype(constant_test<prog_##name<OptInt, VarInt, pf17::string_view>>(0))::value,  \
                  "P34: " what " is usable in a constant expression");                                \
    }

/// A literal type with non-trivial copy and move operations (its destructor stays trivial).
struct Lit
{
    int v;
    constexpr Lit(const int a) noexcept
        : v(a)
    {
    }
    constexpr Lit(const Lit& o) noexcept
        : v(o.v)
    {
    }
    constexpr Lit& operator=(const Lit& o) noexcept
    {
        v = o.v;
        return *this;
    }
    friend constexpr bool operator==(const Lit& a, const Lit& b) { return a.v == b.v; }
};
struct Listed
{
    std::size_t n;
    int         tail;
    constexpr Listed(const std::initializer_list<int> il, const int t) noexcept
        : n(il.size())
        , tail(t)
    {
    }
};
using OptInt = pf17::optional<int>;
using VarInt = pf17::variant<int, char>;
constexpr int  arr3[3] = {1, 2, 3};
constexpr char text[]  = "constant";

// ---------------------------------------------------------------------------------------------------------- optional
CONSTANT(opt_default, "optional()", Opt o; return o.has_value();)
CONSTANT(opt_nullopt, "optional(nullopt)", Opt o(pf17::nullopt); return o.has_value();)
CONSTANT(opt_value, "optional(value)", Opt o(3); return o.has_value();)
CONSTANT(opt_convert, "optional(value of another type)", Opt o('c'); return o.has_value();)
CONSTANT(opt_inplace, "optional(in_place, ...)", Opt o(pf17::in_place, 3); return o.has_value();)
CONSTANT(opt_inplace_il, "optional(in_place, list, ...)", pf17::optional<std::enable_if_t<(sizeof(Opt) > 0), Listed>> o(pf17::in_place, {1, 2}, 3);
         return o->tail;)
CONSTANT(opt_copy, "optional(const optional&)", const Opt o(3); Opt p(o); return p.has_value();)
CONSTANT(opt_move, "optional(optional&&)", Opt o(3); Opt p(std::move(o)); return p.has_value();)
CONSTANT(opt_assign_trivial, "trivial assignment of optionals", Opt o(3); Opt p; p = o; Opt q; q = std::move(p); return q.has_value();)
CONSTANT(opt_value_lref, "value() &", Opt o(3); return o.value();)
CONSTANT(opt_value_clref, "value() const&", const Opt o(3); return o.value();)
CONSTANT(opt_value_rref, "value() &&", return Opt(3).value();)
CONSTANT(opt_value_crref, "value() const&&", const Opt o(3); return std::move(o).value();)
CONSTANT(opt_value_or, "value_or()", const Opt o; return o.value_or(4);)
CONSTANT(opt_value_or_rref, "value_or() &&", return Opt(3).value_or(4);)
CONSTANT(opt_bool, "operator bool", const Opt o(3); return static_cast<bool>(o);)
CONSTANT(opt_star, "operator* &", Opt o(3); *o = 4; return *o;)
CONSTANT(opt_star_c, "operator* const&", const Opt o(3); return *o;)
CONSTANT(opt_star_rref, "operator* &&", return *Opt(3);)
CONSTANT(opt_star_crref, "operator* const&&", const Opt o(3); return *std::move(o);)
CONSTANT(opt_arrow, "operator->", pf17::optional<std::enable_if_t<(sizeof(Opt) > 0), Lit>> o(pf17::in_place, 3); return o->v;)
CONSTANT(opt_arrow_c, "operator-> const", const pf17::optional<std::enable_if_t<(sizeof(Opt) > 0), Lit>> o(pf17::in_place, 3);
         return o->v;)
CONSTANT(opt_cmp_opt, "comparison of two optionals", const Opt a(3); const Opt b;
         return (a == b) || (a != b) || (a < b) || (a <= b) || (a > b) || (a >= b);)
CONSTANT(opt_cmp_opt2, "comparison of two engaged optionals", const Opt a(3); const Opt b(4);
         return (a == b) || (a > b) || (a >= b) || (a <= b) || (a < b) || (a != b);)
CONSTANT(opt_cmp_null, "comparison with nullopt", const Opt a(3);
         return (a == pf17::nullopt) || (a < pf17::nullopt) || (a <= pf17::nullopt) || (pf17::nullopt == a) ||
                (pf17::nullopt > a) || (pf17::nullopt >= a) || !(a != pf17::nullopt) || !(a > pf17::nullopt) ||
                !(a >= pf17::nullopt) || !(pf17::nullopt != a) || !(pf17::nullopt < a) || !(pf17::nullopt <= a);)
CONSTANT(opt_cmp_val, "comparison with a value", const Opt a(3);
         return (a == 4) || (a > 4) || (a >= 4) || (4 == a) || (4 < a) || (4 <= a) || !(a != 4) || !(a < 4) || !(a <= 4) ||
                !(4 != a) || !(4 > a) || !(4 >= a);)
CONSTANT(opt_make, "make_optional(value)", const auto o = pf17::make_optional(static_cast<typename Opt::value_type>(3)); return *o;)
CONSTANT(opt_make_args, "make_optional<T>(...)",
         const auto o = pf17::make_optional<std::enable_if_t<(sizeof(Opt) > 0), Lit>>(3);
         return o->v;)
CONSTANT(opt_make_il, "make_optional<T>(list, ...)",
         const auto o = pf17::make_optional<std::enable_if_t<(sizeof(Opt) > 0), Listed>>({1, 2}, 3);
         return o->tail;)

// ----------------------------------------------------------------------------------------------------------- variant
CONSTANT(var_default, "variant()", Var v; return v.index();)
CONSTANT(var_value, "variant(value)", Var v(3); return v.index();)
CONSTANT(var_type, "variant(in_place_type, ...)", Var v(pf17::in_place_type_t<char>{}, 'c'); return v.index();)
CONSTANT(var_index, "variant(in_place_index, ...)", Var v(pf17::in_place_index_t<1>{}, 'c'); return v.index();)
CONSTANT(var_type_il, "variant(in_place_type, list, ...)",
         pf17::variant<int, std::enable_if_t<(sizeof(Var) > 0), Listed>> v(pf17::in_place_type_t<Listed>{}, {1, 2}, 3);
         return v.index();)
CONSTANT(var_index_il, "variant(in_place_index, list, ...)",
         pf17::variant<int, std::enable_if_t<(sizeof(Var) > 0), Listed>> v(pf17::in_place_index_t<1>{}, {1, 2}, 3);
         return v.index();)
CONSTANT(var_copy, "trivial variant(const variant&)", const Var v('c'); Var w(v); return w.index();)
CONSTANT(var_move, "trivial variant(variant&&)", Var v('c'); Var w(std::move(v)); return w.index();)
CONSTANT(var_assign, "trivial assignment of variants", Var v('c'); Var w(1); w = v; Var x; x = std::move(w); return x.index();)
CONSTANT(var_valueless, "valueless_by_exception()", const Var v(3); return v.valueless_by_exception();)
CONSTANT(var_holds, "holds_alternative()", const Var v(3); return pf17::holds_alternative<int>(v);)
CONSTANT(var_get_lref, "get<I>() &", Var v(3); pf17::get<0>(v) = 4; return pf17::get<0>(v);)
CONSTANT(var_get_clref, "get<I>() const&", const Var v(3); return pf17::get<0>(v);)
CONSTANT(var_get_rref, "get<I>() &&", return pf17::get<0>(Var(3));)
CONSTANT(var_get_crref, "get<I>() const&&", const Var v(3); return pf17::get<0>(std::move(v));)
CONSTANT(var_gett_lref, "get<T>() &", Var v(3); pf17::get<int>(v) = 4; return pf17::get<int>(v);)
CONSTANT(var_gett_clref, "get<T>() const&", const Var v(3); return pf17::get<int>(v);)
CONSTANT(var_gett_rref, "get<T>() &&", return pf17::get<int>(Var(3));)
CONSTANT(var_gett_crref, "get<T>() const&&", const Var v(3); return pf17::get<int>(std::move(v));)
CONSTANT(var_get_if, "get_if()", Var v(3); const Var w('c');
         return (pf17::get_if<0>(&v) != nullptr) && (pf17::get_if<int>(&w) == nullptr) && (pf17::get_if<1>(&w) != nullptr) &&
                (pf17::get_if<char>(&v) == nullptr);)
CONSTANT(var_monostate, "comparison of monostates", const pf17::monostate a{}; const pf17::monostate b{}; (void) sizeof(Var);
         return (a == b) || (a != b) || (a < b) || (a > b) || (a <= b) || (a >= b);)
#if __cplusplus >= 201703L
struct Inc
{
    constexpr int operator()(const int a) const { return a + 1; }
    constexpr int operator()(const char a) const { return a + 2; }
    constexpr int operator()(const int a, const int b) const { return a + b; }
    constexpr int operator()(const int a, const char b) const { return a - b; }
    constexpr int operator()(const char a, const int b) const { return b - a; }
    constexpr int operator()(const char, const char) const { return 0; }
};
CONSTANT(var_visit, "visit() of one variant", const Var v('c'); return pf17::visit(Inc{}, v);)
CONSTANT(var_visit2, "visit() of two variants", const Var v('c'); Var w(3); return pf17::visit(Inc{}, v, w);)
CONSTANT(var_cmp, "comparison of variants", const Var a(3); const Var b(4); const Var c('c');
         return (a == b) || (a > b) || (a >= b) || (c == a) || (c < a) || (c <= a) || !(a != b) || !(a < b) || !(a <= b);)
#endif

// -------------------------------------------------------------------------------------------------------------- span
template <typename, std::size_t E>
using SpanOf = pf20::span<const int, E>;
constexpr std::size_t    dyn = pf20::dynamic_extent;
CONSTANT(span_default, "span()", const SpanOf<Opt, dyn> s; const SpanOf<Opt, 0> z; return s.empty() && z.empty();)
CONSTANT(span_ptr_count, "span(pointer, count)", const SpanOf<Opt, dyn> s(arr3, 3); const SpanOf<Opt, 3> f(arr3, 3);
         return s.size() + f.size();)
CONSTANT(span_array, "span(array)", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3); return s.size() + f.size();)
CONSTANT(span_convert, "span(span of another extent)", const SpanOf<Opt, 3> f(arr3); const SpanOf<Opt, dyn> s(f);
         const SpanOf<Opt, 3> g(s);
         return g.size();)
CONSTANT(span_assign, "assignment of spans", const SpanOf<Opt, dyn> s(arr3); SpanOf<Opt, dyn> t; t = s; const SpanOf<Opt, 3> f(arr3);
         SpanOf<Opt, 3> g(arr3, 3);
         g = f;
         return t.size() + g.size();)
CONSTANT(span_index, "operator[]", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3); return s[2] + f[0];)
CONSTANT(span_iter, "begin() and end()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return (s.end() - s.begin()) + (f.end() - f.begin());)
CONSTANT(span_front_back, "front() and back()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return s.front() + s.back() + f.front() + f.back();)
CONSTANT(span_data, "data()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3); return s.data() == f.data();)
CONSTANT(span_sizes, "size(), size_bytes() and empty()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return s.size() + s.size_bytes() + f.size() + f.size_bytes() + (s.empty() ? 1U : 0U) + (f.empty() ? 1U : 0U);)
CONSTANT(span_first, "first()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return s.template first<2>().size() + s.first(2).size() + f.template first<2>().size() + f.first(2).size();)
CONSTANT(span_last, "last()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return s.template last<2>().size() + s.last(2).size() + f.template last<2>().size() + f.last(2).size();)
CONSTANT(span_sub, "subspan()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return s.template subspan<1>().size() + s.template subspan<1, 1>().size() + s.subspan(1).size() + s.subspan(1, 1).size() +
                f.template subspan<1>().size() + f.template subspan<1, 1>().size() + f.subspan(1).size() + f.subspan(1, 1).size();)
#if __cplusplus >= 201703L
CONSTANT(span_std_array, "span(std::array)", const std::array<int, 3> a{{1, 2, 3}}; const SpanOf<Opt, dyn> s(a);
         const SpanOf<Opt, 3> f(a);
         return s[0] + f[1];)
CONSTANT(span_ptr_ptr, "span(first, last)", const SpanOf<Opt, dyn> s(arr3, arr3 + 3); const SpanOf<Opt, 3> f(arr3, arr3 + 3);
         return s.size() + f.size();)
CONSTANT(span_reverse, "rbegin() and rend()", const SpanOf<Opt, dyn> s(arr3); const SpanOf<Opt, 3> f(arr3);
         return (s.rend() - s.rbegin()) + (f.rend() - f.rbegin());)
#endif

// ------------------------------------------------------------------------------------------------------- string_view
CONSTANT(sv_default, "basic_string_view()", const Str s; return s.empty();)
CONSTANT(sv_ptr_size, "basic_string_view(pointer, size)", const Str s(text, 8); return s.size();)
CONSTANT(sv_copy, "copy of a view", const Str s(text, 8); Str t(s); t = s; return t.length();)
CONSTANT(sv_sizes, "size(), length(), empty() and max_size()", const Str s(text, 8);
         return (s.size() + s.length()) < s.max_size() && !s.empty();)
CONSTANT(sv_index, "operator[] and at()", const Str s(text, 8); return s[1] == s.at(2);)
CONSTANT(sv_front_back, "front() and back()", const Str s(text, 8); return s.front() == s.back();)
CONSTANT(sv_data, "data()", const Str s(text, 8); return s.data() == text;)
CONSTANT(sv_iter, "begin(), end(), cbegin() and cend()", const Str s(text, 8); return (s.end() - s.begin()) + (s.cend() - s.cbegin());)
CONSTANT(sv_trim, "remove_prefix() and remove_suffix()", Str s(text, 8); s.remove_prefix(2); s.remove_suffix(1); return s.size();)
CONSTANT(sv_substr, "substr()", const Str s(text, 8); return s.substr(2, 3).size() + s.substr(3).size() + s.substr().size();)
CONSTANT(sv_swap, "swap()", Str s(text, 8); Str t(text, 2); s.swap(t); return t.size();)
#if __cplusplus >= 202002L
CONSTANT(sv_find, "find()", const Str s(text, 8); const Str t(text + 1, 2); return s.find('s') + s.find(t) + s.find(t, 2);)
#endif

// ------------------------------------------------------------------------------------------ tags, type ids, visitors
struct Named
{
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::type_id_type_value<cetl::type_id_type<1, 2, 3>>(); }
};
struct Twice
{
    constexpr int operator()(const int a) const { return 2 * a; }
};
struct Len
{
    constexpr int operator()(const char* const) const { return 1; }
};
CONSTANT(tags, "in_place tags", (void) sizeof(Opt); const auto a = pf17::in_place; const auto b = pf17::in_place_type<int>;
         const auto c = pf17::in_place_index<1>;
         (void) a; (void) b; (void) c; return true;)
CONSTANT(type_id, "type_id_value and type_id_getter()",
         const cetl::type_id id = cetl::type_id_getter<std::enable_if_t<(sizeof(Opt) > 0), Named>>();
         return id[0] == cetl::type_id_value<Named>[0];)
#if __cplusplus >= 201703L
CONSTANT(overloaded, "make_overloaded()", (void) sizeof(Opt); const auto o = cetl::make_overloaded(Twice{}, Len{}); return o(3) + o(text);)
#endif
