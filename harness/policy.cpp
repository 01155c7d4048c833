// Client programs that hold types with a single special member of their own in optional, variant, unbounded_variant and
// VariableLengthArray: each operation goes through the element's member, whichever others are trivial.
#include "flat.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/pf17/variant.hpp"
#include "cetl/unbounded_variant.hpp"
#include "cetl/variable_length_array.hpp"

using vp::Flat;
#define TYPE_ID(K)                                                                      \
    template <>                                                                         \
    constexpr cetl::type_id cetl::type_id_getter<Flat<K>>() noexcept                    \
    {                                                                                   \
        return {{K + 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}};           \
    }
TYPE_ID(0)
TYPE_ID(1)
TYPE_ID(2)
TYPE_ID(3)
TYPE_ID(4)
TYPE_ID(5)
TYPE_ID(6)

// -------------------------------------------------------------------------------------------------------------- optional
template <int K>
struct AnyOpt
{
    cetl::pf17::optional<Flat<K>> o;
    std::uint32_t                 v;
    bool                          full;
    AnyOpt()
        : v(static_cast<std::uint32_t>(vp_int()))
        , full(vp_bool())
    {
        if (full)
        {
            o.emplace(v);
        }
    }
};
#define HAS(o_, v_, h_, msg)                                                     \
    vp_assert((o_).has_value(), "P10: engaged after " msg);                      \
    if ((o_).has_value())                                                        \
    {                                                                            \
        vp_assert((o_)->v == (v_), "P11: value after " msg);                     \
        vp_assert((o_)->how == (h_), "P11: the element's own member does the " msg); \
    }
template <int K>
void opt_construct()
{
    VP_TRY
    {
        AnyOpt<K> a;
        const cetl::pf17::optional<Flat<K>>& c = a.o;
        cetl::pf17::optional<Flat<K>>        b(c);
        if (a.full)
        {
            HAS(b, a.v, vp::copied<K>(vp::MADE), "copy construction");
            HAS(a.o, a.v, static_cast<std::uint32_t>(vp::MADE), "making");
        }
        else
        {
            vp_assert(!b.has_value(), "P10: a copy of nothing is nothing");
        }
        cetl::pf17::optional<Flat<K>> m(std::move(a.o));
        if (a.full)
        {
            HAS(m, a.v, vp::moved_to<K>(vp::MADE), "move construction");
        }
        else
        {
            vp_assert(!m.has_value(), "P10: nothing moves to nothing");
        }
    }
    VP_CATCH {}
}
template <int K>
void opt_copy_assign()
{
    VP_TRY
    {
        AnyOpt<K>       a;
        const AnyOpt<K> b;
        VP_TRY
        {
            a.o = b.o;
            if (b.full)
            {
                HAS(a.o, b.v, (a.full ? vp::copy_set<K>(vp::MADE) : vp::copied<K>(vp::MADE)), "copy assignment");
            }
            else
            {
                vp_assert(!a.o.has_value(), "P10: assigning nothing disengages");
            }
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.full, "P10: a failing assignment does not change the engagement");
            if (a.full)
            {
                HAS(a.o, a.v, static_cast<std::uint32_t>(vp::MADE), "failing copy assignment");
            }
        }
    }
    VP_CATCH {}
}
template <int K>
void opt_move_assign()
{
    VP_TRY
    {
        AnyOpt<K> a;
        AnyOpt<K> b;
        VP_TRY
        {
            a.o = std::move(b.o);
            if (b.full)
            {
                HAS(a.o, b.v, (a.full ? vp::move_set<K>(vp::MADE) : vp::moved_to<K>(vp::MADE)), "move assignment");
            }
            else
            {
                vp_assert(!a.o.has_value(), "P10: assigning nothing disengages");
            }
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.full, "P10: a failing assignment does not change the engagement");
            vp_assert(b.o.has_value() == b.full, "P10: moving does not change the engagement of the source");
        }
    }
    VP_CATCH {}
}
template <int K>
void opt_emplace()
{
    VP_TRY
    {
        AnyOpt<K>           a;
        const std::uint32_t x = static_cast<std::uint32_t>(vp_int());
        VP_TRY
        {
            a.o.emplace(x);
            HAS(a.o, x, static_cast<std::uint32_t>(vp::MADE), "making");
        }
        VP_CATCH
        {
            vp_assert(!a.o.has_value(), "P10: nothing is held after emplace failed");
        }
    }
    VP_CATCH {}
}

// --------------------------------------------------------------------------------------------------------------- variant
template <int K>
struct AnyVar
{
    using V = cetl::pf17::variant<std::uint64_t, Flat<K>>;
    std::uint32_t v;
    std::size_t   k;
    V             w;
    AnyVar()
        : v(static_cast<std::uint32_t>(vp_int()))
        , k(vp_bool() ? 1U : 0U)
        , w(static_cast<std::uint64_t>(v))
    {
        if (k == 1U)
        {
            VP_TRY { w.template emplace<1>(v); }
            VP_CATCH
            {
                vp_assert(w.valueless_by_exception(), "P12: nothing is held after emplace failed");
                k = cetl::pf17::variant_npos;
            }
        }
    }
};
#define HOLDS(w_, k_, v_, h_, msg)                                                           \
    vp_assert((w_).index() == (k_), "P12: alternative after " msg);                          \
    if (const auto* p0 = cetl::pf17::get_if<0>(&(w_)))                                       \
    {                                                                                        \
        vp_assert(*p0 == (v_), "P13: value after " msg);                                     \
    }                                                                                        \
    if (const auto* p1 = cetl::pf17::get_if<1>(&(w_)))                                       \
    {                                                                                        \
        vp_assert(p1->v == (v_), "P13: value after " msg);                                   \
        vp_assert(p1->how == (h_), "P13: the element's own member does the " msg);           \
    }
template <int K>
void var_construct()
{
    VP_TRY
    {
        AnyVar<K>                    a;
        const typename AnyVar<K>::V& c = a.w;
        typename AnyVar<K>::V        b(c);
        HOLDS(b, a.k, a.v, vp::copied<K>(vp::MADE), "copy construction");
        HOLDS(a.w, a.k, a.v, static_cast<std::uint32_t>(vp::MADE), "making");
        typename AnyVar<K>::V m(std::move(a.w));
        HOLDS(m, a.k, a.v, vp::moved_to<K>(vp::MADE), "move construction");
    }
    VP_CATCH {}
}
template <int K>
void var_copy_assign()
{
    VP_TRY
    {
        AnyVar<K>       a;
        const AnyVar<K> b;
        VP_TRY
        {
            a.w = b.w;
            HOLDS(a.w, b.k, b.v, ((a.k == b.k) ? vp::copy_set<K>(vp::MADE) : vp::copied<K>(vp::MADE)), "copy assignment");
        }
        VP_CATCH
        {
            HOLDS(a.w, a.k, a.v, static_cast<std::uint32_t>(vp::MADE), "failing copy assignment");
        }
        HOLDS(b.w, b.k, b.v, static_cast<std::uint32_t>(vp::MADE), "making");
    }
    VP_CATCH {}
}
template <int K>
void var_move_assign()
{
    VP_TRY
    {
        AnyVar<K> a;
        AnyVar<K> b;
        VP_TRY
        {
            a.w = std::move(b.w);
            HOLDS(a.w, b.k, b.v, ((a.k == b.k) ? vp::move_set<K>(vp::MADE) : vp::moved_to<K>(vp::MADE)), "move assignment");
        }
        VP_CATCH
        {
            vp_assert(a.w.index() == ((a.k == b.k) ? a.k : cetl::pf17::variant_npos),
                      "P12: alternative after failing move assignment");
        }
        vp_assert(b.w.index() == b.k, "P12: moving does not change the alternative of the source");
    }
    VP_CATCH {}
}
template <int K>
void var_emplace()
{
    VP_TRY
    {
        AnyVar<K>           a;
        const std::uint32_t x = static_cast<std::uint32_t>(vp_int());
        VP_TRY
        {
            a.w.template emplace<1>(x);
            HOLDS(a.w, 1U, x, static_cast<std::uint32_t>(vp::MADE), "making");
        }
        VP_CATCH
        {
            vp_assert(a.w.valueless_by_exception(), "P12: nothing is held after emplace failed");
        }
    }
    VP_CATCH {}
}

// ----------------------------------------------------------------------------------------------------- unbounded_variant
template <int K>
struct AnyUbv
{
    cetl::unbounded_variant<sizeof(Flat<K>)> u;
    std::uint32_t                            v;
    bool                                     full;
    AnyUbv()
        : v(static_cast<std::uint32_t>(vp_int()))
        , full(vp_bool())
    {
        if (full)
        {
            u.template emplace<Flat<K>>(v);
        }
    }
};
#define KEEPS(u_, full_, v_, h_, msg)                                                                     \
    vp_assert((u_).has_value() == (full_), "P15: value present after " msg);                              \
    if (const auto* p = cetl::get_if<const Flat<K>>(&(u_)))                                               \
    {                                                                                                     \
        vp_assert(p->v == (v_), "P16: value after " msg);                                                 \
        vp_assert(p->how == (h_), "P16: the element's own member does the " msg);                         \
    }                                                                                                     \
    else                                                                                                  \
    {                                                                                                     \
        vp_assert(!(full_), "P17: type after " msg);                                                      \
    }
template <int K>
void ubv_construct()
{
    VP_TRY
    {
        AnyUbv<K>   a;
        const auto& c = a.u;
        auto        b(c);
        KEEPS(b, a.full, a.v, vp::copied<K>(vp::MADE), "copy construction");
        KEEPS(a.u, a.full, a.v, static_cast<std::uint32_t>(vp::MADE), "making");
        auto m(std::move(a.u));
        KEEPS(m, a.full, a.v, vp::moved_to<K>(vp::MADE), "move construction");
    }
    VP_CATCH {}
}

// --------------------------------------------------------------------------------------------------- VariableLengthArray
template <int K>
using Arr = cetl::VariableLengthArray<Flat<K>, vp::Al<Flat<K>>>;
#define MARKED(a_, i_, v_, h_, msg)                                                   \
    vp_assert((a_)[i_].v == (v_), "P04: value after " msg);                           \
    vp_assert((a_)[i_].how == (h_), "P04: the element's own member does the " msg)
template <int K>
void vla_construct()
{
    VP_TRY
    {
        const std::uint32_t x = static_cast<std::uint32_t>(vp_int()), y = static_cast<std::uint32_t>(vp_int());
        Arr<K>              a(4, vp::Al<Flat<K>>::make());
        a.reserve(2);
        if (a.capacity() < 2)
        {
            return;
        }
        a.emplace_back(x);
        a.emplace_back(y);
        MARKED(a, 0, x, static_cast<std::uint32_t>(vp::MADE), "making");
        MARKED(a, 1, y, static_cast<std::uint32_t>(vp::MADE), "making");
        const Arr<K>& c = a;
        Arr<K>        b(c);
        if (b.size() == 2)
        {
            MARKED(b, 0, x, vp::copied<K>(vp::MADE), "copy construction");
            MARKED(b, 1, y, vp::copied<K>(vp::MADE), "copy construction");
        }
        a.push_back(c[0]);
        if (a.size() == 3)
        {
            vp_assert(a[2].v == x, "P04: value after appending");
            vp_assert(a[1].v == y, "P04: value after growing");
        }
    }
    VP_CATCH {}
}
template <int K>
void vla_copy_assign()
{
    VP_TRY
    {
        const std::uint32_t x = static_cast<std::uint32_t>(vp_int()), y = static_cast<std::uint32_t>(vp_int());
        const auto          al = vp::Al<Flat<K>>::make();
        Arr<K>              a(4, al);
        Arr<K>              b(4, al);
        a.reserve(2);
        b.reserve(2);
        if (a.capacity() < 2 || b.capacity() < 2)
        {
            return;
        }
        a.emplace_back(x);
        b.emplace_back(y);
        b.emplace_back(x);
        const Arr<K>& c = b;
        a               = c;
        if (a.size() == 2)
        {
            vp_assert(a[0].v == y && a[1].v == x, "P04: values after copy assignment");
            vp_assert(a[0].how == vp::copy_set<K>(vp::MADE) || a[0].how == vp::copied<K>(vp::MADE),
                      "P04: the element's own member does the copy assignment");
            vp_assert(a[1].how == vp::copied<K>(vp::MADE), "P04: the element's own member does the copy construction");
        }
    }
    VP_CATCH {}
}

#define ALL(K)                                                \
    VP_ENTRY(h_opt_construct_##K) { opt_construct<K>(); }     \
    VP_ENTRY(h_opt_copy_assign_##K) { opt_copy_assign<K>(); } \
    VP_ENTRY(h_opt_move_assign_##K) { opt_move_assign<K>(); } \
    VP_ENTRY(h_opt_emplace_##K) { opt_emplace<K>(); }         \
    VP_ENTRY(h_var_construct_##K) { var_construct<K>(); }     \
    VP_ENTRY(h_var_copy_assign_##K) { var_copy_assign<K>(); } \
    VP_ENTRY(h_var_move_assign_##K) { var_move_assign<K>(); } \
    VP_ENTRY(h_var_emplace_##K) { var_emplace<K>(); }         \
    VP_ENTRY(h_vla_construct_##K) { vla_construct<K>(); }     \
    VP_ENTRY(h_vla_copy_assign_##K) { vla_copy_assign<K>(); }
ALL(0)
ALL(1)
ALL(2)
ALL(3)
ALL(4)
ALL(5)
ALL(6)
// (moving an unbounded_variant cannot fail: Flat<2> is not for it)
VP_ENTRY(h_ubv_construct_0) { ubv_construct<0>(); }
VP_ENTRY(h_ubv_construct_1) { ubv_construct<1>(); }
VP_ENTRY(h_ubv_construct_3) { ubv_construct<3>(); }
VP_ENTRY(h_ubv_construct_4) { ubv_construct<4>(); }
VP_ENTRY(h_ubv_construct_5) { ubv_construct<5>(); }
VP_ENTRY(h_ubv_construct_6) { ubv_construct<6>(); }
