// Client programs of cetl::pf17::variant.
#include "vp.hpp"
#include "cetl/pf17/variant.hpp"

using cetl::pf17::get;
using cetl::pf17::get_if;
using cetl::pf17::holds_alternative;
using cetl::pf17::in_place_index_t;
using cetl::pf17::in_place_type_t;
using cetl::pf17::monostate;
using cetl::pf17::variant;
constexpr std::size_t NPOS = cetl::pf17::variant_npos;

using V3 = variant<vp::Elem, vp::Thrower, vp::Calm>;
using VX = variant<vp::SetThrows, vp::MakeThrows, vp::Elem>;
using VM = variant<monostate, std::uint32_t, vp::Elem>;
using VU = variant<std::uint32_t, std::uint64_t, unsigned char>;

template <typename T>
std::size_t idv(const T& x)
{
    return vp::val(x);
}
inline std::size_t idv(const monostate&)
{
    return 7U;
}
inline std::size_t idv(const std::uint64_t& x)
{
    return static_cast<std::size_t>(x);
}
template <typename T>
bool gone(const T& x)
{
    return vp::moved(x);
}
inline bool gone(const monostate&)
{
    return true;
}
inline bool gone(const std::uint32_t&)
{
    return true;
}
inline bool gone(const std::uint64_t&)
{
    return true;
}
inline bool gone(const unsigned char&)
{
    return true;
}

#define IS(w, k_, x_, msg)                                                                     \
    vp_assert((w).index() == (k_), "P12: index: " msg);                                        \
    vp_assert((w).valueless_by_exception() == ((w).index() == NPOS), "P12: valueless iff index is npos"); \
    vp_assert((get_if<0>(&(w)) != nullptr) == ((k_) == 0), "P13: get_if<0> tells the alternative");       \
    vp_assert((get_if<1>(&(w)) != nullptr) == ((k_) == 1), "P13: get_if<1> tells the alternative");       \
    vp_assert((get_if<2>(&(w)) != nullptr) == ((k_) == 2), "P13: get_if<2> tells the alternative");       \
    if (get_if<0>(&(w)) != nullptr)                                                            \
    {                                                                                          \
        vp_assert(idv(*get_if<0>(&(w))) == (x_), "P13: value: " msg);                          \
    }                                                                                          \
    if (get_if<1>(&(w)) != nullptr)                                                            \
    {                                                                                          \
        vp_assert(idv(*get_if<1>(&(w))) == (x_), "P13: value: " msg);                          \
    }                                                                                          \
    if (get_if<2>(&(w)) != nullptr)                                                            \
    {                                                                                          \
        vp_assert(idv(*get_if<2>(&(w))) == (x_), "P13: value: " msg);                          \
    }

// a source value of each type
template <typename T>
struct Source
{
    T& s;
    Source() : s(vp::object<T>()) {}
};
template <>
struct Source<monostate>
{
    monostate s;
};
template <>
struct Source<std::uint32_t>
{
    std::uint32_t s;
    Source() : s(static_cast<std::uint32_t>(vp_int())) {}
};
template <>
struct Source<std::uint64_t>
{
    std::uint64_t s;
    Source() : s(vp_size()) {}
};
template <>
struct Source<unsigned char>
{
    unsigned char s;
    Source() : s(static_cast<unsigned char>(vp_int())) {}
};
template <std::size_t N, typename V>
using alt_t = cetl::pf17::variant_alternative_t<N, V>;

// any variant: alternative k with value x, or valueless
template <typename V>
struct Any
{
    Source<alt_t<0, V>> s0;
    Source<alt_t<1, V>> s1;
    Source<alt_t<2, V>> s2;
    std::size_t         k, x;
    V                   v;
    Any()
        : k(0)
        , x(idv(s0.s))
        , v(in_place_index_t<0>{}, std::move(s0.s))
    {
        if (vp_bool())
        {
            k = 1;
            x = idv(s1.s);
            VP_TRY { v.template emplace<1>(std::move(s1.s)); }
            VP_CATCH { k = NPOS; }
        }
        else if (vp_bool())
        {
            k = 2;
            x = idv(s2.s);
            v.template emplace<2>(std::move(s2.s));
        }
    }
};

template <typename V>
void ctor_basic()
{
    VP_TRY
    {
        Source<alt_t<0, V>> s0;
        Source<alt_t<1, V>> s1;
        Source<alt_t<2, V>> s2;
        const std::size_t   x0 = idv(s0.s), x1 = idv(s1.s), x2 = idv(s2.s);
        {
            V a;
            vp_assert(a.index() == 0, "P12: index: default construction");
        }
        {
            const alt_t<0, V>& c = s0.s;
            V                  a(c);
            IS(a, 0U, x0, "construction from the first alternative");
        }
        {
            const alt_t<1, V>& c = s1.s;
            V                  a(in_place_index_t<1>{}, c);
            IS(a, 1U, x1, "construction in place by index");
        }
        {
            const alt_t<2, V>& c = s2.s;
            V                  a(in_place_type_t<alt_t<2, V>>{}, c);
            IS(a, 2U, x2, "construction in place by type");
        }
        {
            V a(std::move(s2.s));
            IS(a, 2U, x2, "construction from an rvalue");
            vp_assert(gone(s2.s), "P13: an rvalue is moved, not copied");
        }
        {
            V a(std::move(s1.s));
            IS(a, 1U, x1, "construction from an rvalue");
            vp_assert(gone(s1.s), "P13: an rvalue is moved, not copied");
        }
    }
    VP_CATCH {}
}
template <typename V>
void ctor_copy()
{
    VP_TRY
    {
        const Any<V> a;
        V            b(a.v);
        IS(b, a.k, a.x, "copy construction");
        IS(a.v, a.k, a.x, "source of copy construction");
    }
    VP_CATCH {}
}
template <typename V>
void ctor_move()
{
    VP_TRY
    {
        Any<V> a;
        V      b(std::move(a.v));
        IS(b, a.k, a.x, "move construction");
        vp_assert(a.v.index() == a.k, "P12: moving does not change the alternative of the source");
        vp_assert(a.k != 2 || gone(get<2>(a.v)), "P13: move construction moves the value");
    }
    VP_CATCH {}
}
template <typename V>
void assign_copy()
{
    VP_TRY
    {
        Any<V>       a;
        const Any<V> b;
        VP_TRY
        {
            V& r = (a.v = b.v);
            vp_assert(&r == &a.v, "P13: assignment returns the target");
            IS(a.v, b.k, b.x, "copy assignment");
        }
        VP_CATCH
        {
            if (a.k == b.k)
            {
                vp_assert(a.v.index() == a.k, "P12: a failing assignment between equal alternatives keeps the index");
            }
            else if (b.k == 1)
            {
                vp_assert(a.v.valueless_by_exception(), "P12: a failing direct copy leaves the variant valueless");
            }
            else
            {
                IS(a.v, a.k, a.x, "a failing copy through a temporary changes nothing");
            }
        }
        IS(b.v, b.k, b.x, "source of copy assignment");
    }
    VP_CATCH {}
}
template <typename V>
void assign_move()
{
    VP_TRY
    {
        Any<V> a;
        Any<V> b;
        VP_TRY
        {
            V& r = (a.v = std::move(b.v));
            vp_assert(&r == &a.v, "P13: assignment returns the target");
            IS(a.v, b.k, b.x, "move assignment");
            vp_assert(b.k != 2 || gone(get<2>(b.v)), "P13: move assignment moves the value");
        }
        VP_CATCH
        {
            if (a.k == b.k)
            {
                vp_assert(a.v.index() == a.k, "P12: a failing assignment between equal alternatives keeps the index");
            }
            else
            {
                vp_assert(a.v.valueless_by_exception(), "P12: a failing move leaves the variant valueless");
            }
        }
        vp_assert(b.v.index() == b.k, "P12: moving does not change the alternative of the source");
    }
    VP_CATCH {}
}
template <typename V>
void assign_self()
{
    VP_TRY
    {
        Any<V>   a;
        const V& r = a.v;
        a.v        = r;
        IS(a.v, a.k, a.x, "self assignment");
    }
    VP_CATCH {}
}
template <typename V>
void emplace_index()
{
    VP_TRY
    {
        Any<V>              a;
        Source<alt_t<1, V>> s1;
        Source<alt_t<2, V>> s2;
        const std::size_t   x1 = idv(s1.s), x2 = idv(s2.s);
        const alt_t<2, V>&  c2 = s2.s;
        VP_TRY
        {
            auto& r = a.v.template emplace<2>(c2);
            IS(a.v, 2U, x2, "emplace by index");
            vp_assert(&r == get_if<2>(&a.v), "P13: emplace returns the new value");
        }
        VP_CATCH
        {
            vp_assert(a.v.valueless_by_exception(), "P12: nothing is held after emplace failed");
        }
        VP_TRY
        {
            auto& r = a.v.template emplace<alt_t<1, V>>(std::move(s1.s));
            IS(a.v, 1U, x1, "emplace by type");
            vp_assert(&r == get_if<1>(&a.v), "P13: emplace returns the new value");
            vp_assert(gone(s1.s), "P13: an rvalue is moved, not copied");
        }
        VP_CATCH
        {
            vp_assert(a.v.valueless_by_exception(), "P12: nothing is held after emplace failed");
        }
    }
    VP_CATCH {}
}
template <typename V, std::size_t N>
void assign_alt()
{
    VP_TRY
    {
        Any<V>              a;
        Source<alt_t<N, V>> s;
        const std::size_t   x = idv(s.s);
        const alt_t<N, V>&  c = s.s;
        VP_TRY
        {
            a.v = c;
            IS(a.v, N, x, "assignment of an alternative");
        }
        VP_CATCH
        {
            if (a.k == N)
            {
                vp_assert(a.v.index() == N, "P12: a failing assignment between equal alternatives keeps the index");
            }
            else if (N == 1)
            {
                vp_assert(a.v.valueless_by_exception(), "P12: a failing direct conversion leaves the variant valueless");
            }
            else
            {
                IS(a.v, a.k, a.x, "a failing conversion through a temporary changes nothing");
            }
        }
        VP_TRY
        {
            a.v = std::move(s.s);
            IS(a.v, N, x, "assignment of an alternative by move");
            vp_assert(gone(s.s), "P13: an rvalue is moved, not copied");
        }
        VP_CATCH
        {
        }
    }
    VP_CATCH {}
}
template <typename V>
void swap_both()
{
    VP_TRY
    {
        Any<V> a, b;
        VP_TRY
        {
            a.v.swap(b.v);
            IS(a.v, b.k, b.x, "swap, first");
            IS(b.v, a.k, a.x, "swap, second");
        }
        VP_CATCH
        {
            vp_assert(a.k != NPOS || b.k != NPOS, "P12: swapping two valueless variants does nothing");
        }
    }
    VP_CATCH {}
}

#if defined(__cpp_exceptions)
#    define REFUSES(expr, cond, msg)                            \
        {                                                       \
            bool refused = false;                               \
            try                                                 \
            {                                                   \
                (void) (expr);                                  \
            }                                                   \
            catch (const cetl::pf17::bad_variant_access&)       \
            {                                                   \
                refused = true;                                 \
            }                                                   \
            vp_assert(refused == (cond), "P13: " msg);          \
        }
#else
#    define REFUSES(expr, cond, msg) \
        if (!(cond))                 \
        {                            \
            (void) (expr);           \
        }
#endif
template <typename V>
void access()
{
    VP_TRY
    {
        Any<V>   a;
        const V& c = a.v;
        vp_assert(holds_alternative<alt_t<0, V>>(c) == (a.k == 0), "P13: holds_alternative of the first");
        vp_assert(holds_alternative<alt_t<1, V>>(c) == (a.k == 1), "P13: holds_alternative of the second");
        vp_assert(holds_alternative<alt_t<2, V>>(c) == (a.k == 2), "P13: holds_alternative of the third");
        REFUSES(get<0>(a.v), a.k != 0, "get by index refuses other alternatives")
        REFUSES(get<1>(c), a.k != 1, "const get by index refuses other alternatives")
        REFUSES(get<2>(std::move(a.v)), a.k != 2, "rvalue get by index refuses other alternatives")
        REFUSES(get<1>(std::move(c)), a.k != 1, "const rvalue get by index refuses other alternatives")
    }
    VP_CATCH {}
}
template <typename V>
void access2()
{
    VP_TRY
    {
        Any<V>   a;
        const V& c = a.v;
        using T    = alt_t<2, V>;
        REFUSES(get<T>(a.v), a.k != 2, "get by type refuses other alternatives")
        REFUSES(get<T>(c), a.k != 2, "const get by type refuses other alternatives")
        REFUSES(get<T>(std::move(c)), a.k != 2, "const rvalue get by type refuses other alternatives")
        if (a.k == 2)
        {
            vp_assert(&get<2>(a.v) == get_if<2>(&a.v) && &get<T>(a.v) == get_if<T>(&a.v) && &get<2>(c) == get_if<2>(&c) &&
                          get_if<T>(&c) == get_if<2>(&a.v),
                      "P13: get and get_if agree");
            T t(get<2>(std::move(a.v)));
            vp_assert(idv(t) == a.x, "P13: value: rvalue get");
            vp_assert(gone(get<2>(a.v)), "P13: rvalue get moves");
        }
        V* null = nullptr;
        vp_assert(get_if<2>(null) == nullptr && get_if<T>(static_cast<const V*>(null)) == nullptr,
                  "P13: get_if of no variant is null");
    }
    VP_CATCH {}
}

// visitation
template <typename V>
struct Which
{
    int operator()(const alt_t<0, V>& x) const { p = &x; return 0; }
    int operator()(const alt_t<1, V>& x) const { p = &x; return 1; }
    int operator()(const alt_t<2, V>& x) const { p = &x; return 2; }
    mutable const void* p = nullptr;
};
template <typename V>
struct Pair
{
    template <typename A, typename B>
    int operator()(const A& x, const B& y) const
    {
        p = &x;
        q = &y;
        return Which<V>{}(x) * 3 + Which<V>{}(y);
    }
    mutable const void* p = nullptr;
    mutable const void* q = nullptr;
};
struct Take  // distinguishes lvalues from rvalues
{
    template <typename T>
    int operator()(T&) const { return 1; }
    template <typename T>
    int operator()(const T&) const { return 2; }
    template <typename T, std::enable_if_t<!std::is_reference<T>::value && !std::is_const<T>::value, int> = 0>
    int operator()(T&&) const { return 3; }
};
template <typename V>
const void* address(const V& v)
{
    if (get_if<0>(&v) != nullptr)
    {
        return get_if<0>(&v);
    }
    if (get_if<1>(&v) != nullptr)
    {
        return get_if<1>(&v);
    }
    return get_if<2>(&v);
}
template <typename V>
void visit_one()
{
    VP_TRY
    {
        Any<V>   a;
        Which<V> w;
        REFUSES(cetl::pf17::visit(w, a.v), a.k == NPOS, "visiting a valueless variant is refused")
        if (a.k != NPOS)
        {
            vp_assert(cetl::pf17::visit(w, a.v) == static_cast<int>(a.k), "P13: visit calls with the active alternative");
            vp_assert(w.p == address(a.v), "P13: visit passes the held object");
            const V& c = a.v;
            vp_assert(cetl::pf17::visit(Take{}, a.v) == 1, "P13: visit passes lvalues as lvalues");
            vp_assert(cetl::pf17::visit(Take{}, c) == 2, "P13: visit passes const lvalues as such");
            vp_assert(cetl::pf17::visit(Take{}, std::move(a.v)) == 3, "P13: visit passes rvalues as rvalues");
        }
        vp_assert(cetl::pf17::visit([] { return 5; }) == 5, "P13: visit without variants");
    }
    VP_CATCH {}
}
template <typename V>
void visit_two()
{
    VP_TRY
    {
        const Any<V> a, b;
        Pair<V>      w;
        REFUSES(cetl::pf17::visit(w, a.v, b.v), a.k == NPOS || b.k == NPOS, "visiting valueless variants is refused")
        if (a.k != NPOS && b.k != NPOS)
        {
            vp_assert(cetl::pf17::visit(w, a.v, b.v) == static_cast<int>(a.k * 3 + b.k),
                      "P13: visit of two calls with the active alternatives in order");
            vp_assert(w.p == address(a.v) && w.q == address(b.v), "P13: visit of two passes the held objects");
        }
    }
    VP_CATCH {}
}
struct Ref
{
    template <typename T>
    const void*& operator()(T& x)
    {
        p = &x;
        return p;
    }
    const void* p = nullptr;
};
VP_ENTRY(h_visit_ref)
{
    Any<VU> a;
    Ref     r;
    auto&&  res = cetl::pf17::visit(r, a.v);
    vp_assert(&res == &r.p, "P13: visit returns a reference when the visitor does");
}

#define CMP(op, both_empty, left_empty, right_empty)                                                                    \
    {                                                                                                                   \
        bool want = false;                                                                                              \
        if (a.k == b.k)                                                                                                 \
        {                                                                                                               \
            want = a.k == 0   ? (get<0>(a.v) op get<0>(b.v))                                                            \
                   : a.k == 1 ? (get<1>(a.v) op get<1>(b.v))                                                            \
                   : a.k == 2 ? (get<2>(a.v) op get<2>(b.v))                                                            \
                              : (both_empty);                                                                           \
        }                                                                                                               \
        else if (a.k == NPOS)                                                                                           \
        {                                                                                                               \
            want = (left_empty);                                                                                        \
        }                                                                                                               \
        else if (b.k == NPOS)                                                                                           \
        {                                                                                                               \
            want = (right_empty);                                                                                       \
        }                                                                                                               \
        else                                                                                                            \
        {                                                                                                               \
            want = a.k op b.k;                                                                                          \
        }                                                                                                               \
        vp_assert((a.v op b.v) == want, "P13: " #op " of variants");                                                    \
    }
using VO = variant<vp::Elem, vp::Thrower, std::uint32_t>;
template <typename V>
void compare_eq()
{
    VP_TRY
    {
        const Any<V> a, b;
        CMP(==, true, false, false)
        CMP(!=, false, true, true)
    }
    VP_CATCH {}
}
template <typename V>
void compare_less()
{
    VP_TRY
    {
        const Any<V> a, b;
        CMP(<, false, true, false)
        CMP(>, false, false, true)
    }
    VP_CATCH {}
}
// <= and >= are derived from < (or use those of the alternatives, which is the same for a total order)
template <typename V>
void compare_leq()
{
    VP_TRY
    {
        const Any<V> a, b;
        vp_assume(a.k != b.k || a.k == 2 || a.k == NPOS);
        CMP(<=, true, true, false)
        CMP(>=, true, false, true)
    }
    VP_CATCH {}
}

#define ALL(V, N)                                            \
    VP_ENTRY(h_ctor_basic_##N) { ctor_basic<V>(); }          \
    VP_ENTRY(h_ctor_copy_##N) { ctor_copy<V>(); }            \
    VP_ENTRY(h_ctor_move_##N) { ctor_move<V>(); }            \
    VP_ENTRY(h_assign_copy_##N) { assign_copy<V>(); }        \
    VP_ENTRY(h_assign_move_##N) { assign_move<V>(); }        \
    VP_ENTRY(h_assign_self_##N) { assign_self<V>(); }        \
    VP_ENTRY(h_emplace_##N) { emplace_index<V>(); }          \
    VP_ENTRY(h_assign_alt0_##N) { assign_alt<V, 0>(); }      \
    VP_ENTRY(h_assign_alt1_##N) { assign_alt<V, 1>(); }      \
    VP_ENTRY(h_assign_alt2_##N) { assign_alt<V, 2>(); }      \
    VP_ENTRY(h_swap_##N) { swap_both<V>(); }                 \
    VP_ENTRY(h_access_##N) { access<V>(); }                  \
    VP_ENTRY(h_access2_##N) { access2<V>(); }                \
    VP_ENTRY(h_visit_one_##N) { visit_one<V>(); }            \
    VP_ENTRY(h_visit_two_##N) { visit_two<V>(); }
ALL(V3, 3)
ALL(VX, X)
ALL(VM, M)
ALL(VU, U)
VP_ENTRY(h_compare_eq_O) { compare_eq<VO>(); }
VP_ENTRY(h_compare_less_O) { compare_less<VO>(); }
VP_ENTRY(h_compare_leq_O) { compare_leq<VO>(); }
VP_ENTRY(h_compare_eq_U) { compare_eq<VU>(); }
VP_ENTRY(h_compare_less_U) { compare_less<VU>(); }
VP_ENTRY(h_compare_leq_U) { compare_leq<VU>(); }

// conversions
template <typename T>
void conv()
{
    using V = variant<vp::Calm, T>;
    VP_TRY
    {
        vp::Src&          s = vp::object<vp::Src>();
        vp::Calm&         q = vp::object<vp::Calm>();
        const vp::Src&    c = s;
        T                 e(c);
        const std::size_t x = vp::val(e), xq = vp::val(q);
        V                 v(c);
        vp_assert(v.index() == 1 && vp::val(get<1>(v)) == x, "P13: value: construction from a convertible value");
        v = std::move(q);
        vp_assert(v.index() == 0 && vp::val(get<0>(v)) == xq, "P13: value: assignment of another alternative");
        VP_TRY
        {
            v = c;
            vp_assert(v.index() == 1 && vp::val(get<1>(v)) == x, "P13: value: assignment of a convertible value");
        }
        VP_CATCH
        {
            if (std::is_nothrow_move_constructible<T>::value)
            {
                vp_assert(v.index() == 0 && vp::val(get<0>(v)) == xq, "P12: a failing conversion through a temporary changes nothing");
            }
            else
            {
                vp_assert(v.valueless_by_exception(), "P12: a failing direct conversion leaves the variant valueless");
            }
        }
        v = std::move(s);
        vp_assert(v.index() == 1 && vp::val(get<1>(v)) == x, "P13: value: assignment of a convertible rvalue");
        vp_assert(vp::moved(s), "P13: an rvalue is moved, not copied");
    }
    VP_CATCH {}
}
VP_ENTRY(h_conv_E) { conv<vp::Elem>(); }
VP_ENTRY(h_conv_T) { conv<vp::Thrower>(); }
VP_ENTRY(h_conv_throwing_source)
{
    using V = variant<vp::Calm, vp::Sink>;
    VP_TRY
    {
        vp::Thrower& s = vp::object<vp::Thrower>();
        V            v(in_place_index_t<0>{}, vp::object<vp::Calm>());
        v = std::move(s);
        vp_assert(v.index() == 1, "P12: index: assignment of a convertible rvalue whose move may throw");
    }
    VP_CATCH {}
}
VP_ENTRY(h_init_list)
{
    using V = variant<vp::Calm, vp::Elem>;
    VP_TRY
    {
        vp::Src&                   s  = vp::object<vp::Src>();
        vp::Src&                   t  = vp::object<vp::Src>();
        vp::Src&                   t2 = vp::object<vp::Src>();
        vp::Src&                   t3 = vp::object<vp::Src>();
        std::initializer_list<int> il = {vp_int(), vp_int()};
        const vp::Src&             c  = s;
        V                          a{in_place_index_t<1>{}, il, c, std::move(t)};
        vp_assert(a.index() == 1 && vp::moved(t), "P13: in-place construction with a list");
        a.emplace<0>(vp::object<vp::Calm>());
        auto& r = a.emplace<1>({vp_int(), vp_int()}, c, std::move(t2));
        vp_assert(a.index() == 1 && &r == get_if<1>(&a) && vp::moved(t2), "P13: emplace by index with a list");
        a.emplace<0>(vp::object<vp::Calm>());
        auto& q = a.emplace<vp::Elem>({vp_int(), vp_int()}, c, std::move(t3));
        vp_assert(a.index() == 1 && &q == get_if<1>(&a) && vp::moved(t3), "P13: emplace by type with a list");
    }
    VP_CATCH {}
}
// copied and moved by functions of its own, destroyed by none
template <int K>
struct Plain
{
    int v;
    int how;  // 1: copied, 2: moved, 3: copy assigned, 4: move assigned
    explicit Plain(const int x)
        : v(x)
        , how(0)
    {
    }
    Plain(const Plain& o)
        : v(o.v)
        , how(1)
    {
    }
    Plain(Plain&& o) noexcept
        : v(o.v)
        , how(2)
    {
        o.v = -1;
    }
    Plain& operator=(const Plain& o)
    {
        v   = o.v;
        how = 3;
        return *this;
    }
    Plain& operator=(Plain&& o) noexcept
    {
        v   = o.v;
        how = 4;
        o.v = -1;
        return *this;
    }
};
VP_ENTRY(h_plain)
{
    using V     = variant<Plain<0>, Plain<1>>;
    const int x = vp_int(), y = vp_int();
    vp_assume(x >= 0 && y >= 0);
    const bool p = vp_bool(), q = vp_bool();
    V          a(in_place_index_t<0>{}, x), b(in_place_index_t<0>{}, y);
    if (p)
    {
        a.emplace<1>(x);
    }
    if (q)
    {
        b.emplace<1>(y);
    }
    const auto v   = [](const V& z) { return z.index() == 0 ? get<0>(z).v : get<1>(z).v; };
    const auto how = [](const V& z) { return z.index() == 0 ? get<0>(z).how : get<1>(z).how; };
    V          c(a);
    vp_assert(c.index() == p && v(c) == x && how(c) == 1 && v(a) == x, "P13: value: copy construction");
    V d(std::move(c));
    vp_assert(d.index() == p && v(d) == x && how(d) == 2 && v(c) == -1, "P13: value: move construction");
    c = b;
    vp_assert(c.index() == q && v(c) == y && v(b) == y, "P13: value: copy assignment");
    vp_assert(p != q || how(c) == 3, "P13: copy assignment of the same alternative assigns the value");
    d = std::move(b);
    vp_assert(d.index() == q && v(d) == y && how(d) == (p == q ? 4 : 2) && v(b) == -1, "P13: value: move assignment");
    a.swap(d);
    vp_assert(a.index() == q && d.index() == p && v(a) == y && v(d) == x, "P13: value: swap");
    const Plain<0> n(y);
    d = n;
    vp_assert(d.index() == 0 && v(d) == y, "P13: value: assignment of an alternative");
    d.emplace<Plain<1>>(x);
    vp_assert(d.index() == 1 && v(d) == x, "P13: value: emplace by type");
    Plain<1> m(get<Plain<1>>(std::move(d)));
    vp_assert(m.v == x && m.how == 2 && v(d) == -1, "P13: rvalue get moves");
    vp_cover("end");
}
VP_ENTRY(h_get_rvalue_type)
{
    using V     = variant<Plain<0>, Plain<1>>;
    const int x = vp_int();
    vp_assume(x >= 0);
    V a(in_place_index_t<0>{}, x);
    if (vp_bool())
    {
        a.emplace<1>(x);
    }
#if defined(__cpp_exceptions)
    bool      refused = false;
    const auto i      = a.index();
    try
    {
        Plain<1> m(get<Plain<1>>(std::move(a)));
        vp_assert(i == 1 && m.v == x && m.how == 2, "P13: rvalue get by type refuses other alternatives");
    }
    catch (const cetl::pf17::bad_variant_access&)
    {
        refused = true;
    }
    vp_assert(refused == (i == 0), "P13: rvalue get by type refuses other alternatives");
#endif
    vp_cover("end");
}

// arguments keep their value category on the way into a variant
template <int K>
struct Took
{
    int how;  // decimal digits, one per argument: 1: an lvalue, 2: a const lvalue, 3: an rvalue
    static int of(int&) { return 1; }
    static int of(const int&) { return 2; }
    static int of(int&&) { return 3; }
    template <typename A, typename B>
    Took(A&& a, B&& b)
        : how(of(std::forward<A>(a)) * 10 + of(std::forward<B>(b)))
    {
    }
    template <typename A>
    Took(std::initializer_list<int>, A&& a)
        : how(of(std::forward<A>(a)))
    {
    }
};
VP_ENTRY(h_forwards)
{
    using V         = variant<Took<0>, Took<1>>;
    int         x   = vp_int();
    const int   c   = x;
    const auto  how = [](const V& v) { return v.index() == 0 ? get<0>(v).how : get<1>(v).how + 100; };
    const V     a{in_place_index_t<0>{}, x, std::move(x)}, b{in_place_index_t<1>{}, c, std::move(x)};
    const V     d{in_place_type_t<Took<0>>{}, std::move(x), c}, e{in_place_type_t<Took<1>>{}, std::move(x), x};
    vp_assert(how(a) == 13 && how(b) == 123 && how(d) == 32 && how(e) == 131, "P13: in-place construction forwards its arguments");
    const std::initializer_list<int> il = {1, 2};
    const V f{in_place_index_t<0>{}, il, std::move(x)}, g{in_place_index_t<1>{}, il, x};
    const V h{in_place_type_t<Took<0>>{}, il, std::move(x)}, i{in_place_type_t<Took<1>>{}, il, c};
    vp_assert(how(f) == 3 && how(g) == 101 && how(h) == 3 && how(i) == 102,
              "P13: in-place construction with a list forwards its arguments");
    V j(a);
    j.emplace<1>(std::move(x), x);
    vp_assert(how(j) == 131, "P13: emplace by index forwards its arguments");
    j.emplace<0>(c, std::move(x));
    vp_assert(how(j) == 23, "P13: emplace by index forwards its arguments");
    j.emplace<Took<1>>(x, std::move(x));
    vp_assert(how(j) == 113, "P13: emplace by type forwards its arguments");
    j.emplace<0>(il, std::move(x));
    vp_assert(how(j) == 3, "P13: emplace by index with a list forwards its arguments");
    j.emplace<Took<1>>(il, std::move(x));
    vp_assert(how(j) == 103, "P13: emplace by type with a list forwards its arguments");
    vp_cover("end");
}
// a visitor is called as what it was passed as, with alternatives of their variants' value categories
struct Called
{
    static int of(std::uint32_t&) { return 1; }
    static int of(const std::uint32_t&) { return 2; }
    static int of(std::uint32_t&&) { return 3; }
    static int of(std::uint64_t&) { return 4; }
    static int of(const std::uint64_t&) { return 5; }
    static int of(std::uint64_t&&) { return 6; }
    static int all() { return 0; }
    template <typename A, typename... B>
    static int all(A&& a, B&&... b)
    {
        return of(std::forward<A>(a)) + 10 * all(std::forward<B>(b)...);
    }
    template <typename... T>
    int operator()(T&&... t) &
    {
        return 1000 + all(std::forward<T>(t)...);
    }
    template <typename... T>
    int operator()(T&&... t) const&
    {
        return 2000 + all(std::forward<T>(t)...);
    }
    template <typename... T>
    int operator()(T&&... t) &&
    {
        return 3000 + all(std::forward<T>(t)...);
    }
};
VP_ENTRY(h_visit_forwards)
{
    using cetl::pf17::visit;
    using V = variant<std::uint32_t, std::uint64_t>;
    V a(std::uint32_t(1)), b(std::uint32_t(2)), d(std::uint32_t(3));
    const bool p = vp_bool(), q = vp_bool(), r = vp_bool();
    if (p)
    {
        a = std::uint64_t(1);
    }
    if (q)
    {
        b = std::uint64_t(1);
    }
    if (r)
    {
        d = std::uint64_t(1);
    }
    const int    x = p ? 3 : 0, y = q ? 30 : 0, z = r ? 300 : 0;
    Called       w;
    const Called k = {};
    const V&     c = a;
    vp_assert(visit(w) == 1000 && visit(k) == 2000 && visit(Called{}) == 3000, "P13: visit calls a visitor as what it was passed as");
    vp_assert(visit(w, a) == 1001 + x && visit(k, c) == 2002 + x && visit(Called{}, std::move(a)) == 3003 + x,
              "P13: visit keeps value categories");
    vp_assert(visit(w, c, b) == 1012 + x + y && visit(k, a, std::move(b)) == 2031 + x + y &&
                  visit(Called{}, std::move(a), b) == 3013 + x + y,
              "P13: visit of two keeps value categories");
    vp_assert(visit(w, std::move(a), c, d) == 1123 + x + 10 * x + z && visit(Called{}, a, std::move(b), std::move(d)) == 3331 + x + y + z,
              "P13: visit of three keeps value categories");
    vp_cover("end");
}
VP_ENTRY(h_monostate)
{
    const monostate a{}, b{};
    vp_assert(a == b && !(a != b) && !(a < b) && !(a > b) && a <= b && a >= b, "P13: all monostates are equal");
    vp_cover("end");
}
#if !defined(__cpp_exceptions)
VP_ENTRY(h_wrong_alternative)
{
    using V = variant<std::uint32_t, std::uint64_t>;
    V        v(std::uint32_t(1));
    const V& c = v;
    vp_misuse("P13: without exceptions, get of another alternative ends the program");
    if (vp_bool())
    {
        (void) get<1>(v);
    }
    else if (vp_bool())
    {
        (void) get<1>(c);
    }
    else if (vp_bool())
    {
        (void) get<1>(std::move(v));
    }
    else if (vp_bool())
    {
        (void) get<1>(std::move(c));
    }
    else if (vp_bool())
    {
        (void) get<std::uint64_t>(v);
    }
    else if (vp_bool())
    {
        (void) get<std::uint64_t>(c);
    }
    else if (vp_bool())
    {
        (void) get<std::uint64_t>(std::move(v));
    }
    else
    {
        (void) get<std::uint64_t>(std::move(c));
    }
    vp_misused();
}
#endif
