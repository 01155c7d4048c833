// Client programs of cetl::pf17::optional.
#include "vp.hpp"
#include "cetl/pf17/optional.hpp"

template <typename T>
using O = cetl::pf17::optional<T>;
using cetl::pf17::in_place_t;
using cetl::pf17::nullopt;

#define IS(o, eng, v, msg)                                             \
    vp_assert((o).has_value() == (eng), "P10: engaged state: " msg);   \
    vp_assert(static_cast<bool>(o) == (o).has_value(), "P10: bool conversion tells the engaged state"); \
    if ((o).has_value())                                               \
    {                                                                  \
        vp_assert(vp::val(*(o)) == (v), "P11: value: " msg);           \
    }

// any optional of T: engaged with value v, or not
template <typename T>
struct Any
{
    T&          src;
    bool        eng;
    std::size_t v;
    O<T>        o;
    Any()
        : src(vp::object<T>())
        , eng(vp_bool())
        , v(vp::val(src))
        , o()
    {
        if (eng)
        {
            o.emplace(src);
        }
    }
};

template <typename T>
bool moved_or_scalar(const T& x)
{
    return vp::moved(x);
}
inline bool moved_or_scalar(const std::uint32_t&)
{
    return true;
}

template <typename T>
void ctor_empty()
{
    O<T> a, b{nullopt};
    IS(a, false, 0U, "default construction");
    IS(b, false, 0U, "construction from nullopt");
}
template <typename T>
void ctor_value()
{
    VP_TRY
    {
        T&                s = vp::object<T>();
        const std::size_t v = vp::val(s);
        O<T>              a(static_cast<const T&>(s));
        IS(a, true, v, "construction from a value");
        vp_assert(vp::val(s) == v, "P11: copying leaves the source alone");
        O<T> b(std::move(s));
        IS(b, true, v, "construction from an rvalue");
        vp_assert(moved_or_scalar(s), "P11: an rvalue is moved, not copied");
    }
    VP_CATCH {}
}
template <typename T>
void ctor_copy()
{
    VP_TRY
    {
        const Any<T> a;
        O<T>         b(a.o);
        IS(b, a.eng, a.v, "copy construction");
        IS(a.o, a.eng, a.v, "source of copy construction");
    }
    VP_CATCH {}
}
template <typename T>
void ctor_move()
{
    VP_TRY
    {
        Any<T> a;
        O<T>   b(std::move(a.o));
        IS(b, a.eng, a.v, "move construction");
        vp_assert(a.o.has_value() == a.eng, "P10: moving does not change whether the source holds a value");
        if (a.eng)
        {
            vp_assert(moved_or_scalar(*a.o), "P11: move construction moves the value");
        }
    }
    VP_CATCH {}
}
template <typename T>
void assign_copy()
{
    bool threw = true;
    VP_TRY
    {
        Any<T>       a;
        const Any<T> b;
        VP_TRY
        {
            O<T>& r = (a.o = b.o);
            threw   = false;
            vp_assert(&r == &a.o, "P11: assignment returns the target");
            IS(a.o, b.eng, b.v, "copy assignment");
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing copy assignment keeps the engaged state");
        }
        IS(b.o, b.eng, b.v, "source of copy assignment");
    }
    VP_CATCH {}
    (void) threw;
}
template <typename T>
void assign_move()
{
    VP_TRY
    {
        Any<T> a;
        Any<T> b;
        VP_TRY
        {
            O<T>& r = (a.o = std::move(b.o));
            vp_assert(&r == &a.o, "P11: assignment returns the target");
            IS(a.o, b.eng, b.v, "move assignment");
            if (b.eng)
            {
                vp_assert(moved_or_scalar(*b.o), "P11: move assignment moves the value");
            }
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing move assignment keeps the engaged state");
        }
        vp_assert(b.o.has_value() == b.eng, "P10: moving does not change whether the source holds a value");
    }
    VP_CATCH {}
}
template <typename T>
void assign_self()
{
    VP_TRY
    {
        Any<T>      a;
        const O<T>& r = a.o;
        a.o           = r;
        IS(a.o, a.eng, a.v, "self assignment");
    }
    VP_CATCH {}
}
template <typename T>
void assign_null()
{
    VP_TRY
    {
        Any<T> a, b, c;
        a.o = nullopt;
        b.o.reset();
        IS(a.o, false, 0U, "assignment of nullopt");
        IS(b.o, false, 0U, "reset");
        c.o = {};
        IS(c.o, false, 0U, "assignment of an empty list");
    }
    VP_CATCH {}
}
template <typename T>
void assign_value()
{
    VP_TRY
    {
        Any<T>            a;
        T&                s = vp::object<T>();
        const std::size_t v = vp::val(s);
        VP_TRY
        {
            a.o = static_cast<const T&>(s);
            IS(a.o, true, v, "assignment of a value");
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing assignment of a value keeps the engaged state");
        }
        vp_assert(vp::val(s) == v, "P11: copying leaves the source alone");
    }
    VP_CATCH {}
}
template <typename T>
void assign_rvalue()
{
    VP_TRY
    {
        Any<T>            a;
        T&                s = vp::object<T>();
        const std::size_t v = vp::val(s);
        VP_TRY
        {
            a.o = std::move(s);
            IS(a.o, true, v, "assignment of an rvalue");
            vp_assert(moved_or_scalar(s), "P11: an rvalue is moved, not copied");
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing assignment of a value keeps the engaged state");
        }
    }
    VP_CATCH {}
}
template <typename T>
void emplace()
{
    VP_TRY
    {
        Any<T>            a;
        T&                s = vp::object<T>();
        const std::size_t v = vp::val(s);
        VP_TRY
        {
            T& r = a.o.emplace(static_cast<const T&>(s));
            IS(a.o, true, v, "emplace");
            vp_assert(&r == &*a.o, "P11: emplace returns the new value");
        }
        VP_CATCH
        {
            vp_assert(!a.o.has_value(), "P10: nothing is held after emplace failed");
        }
        vp_assert(vp::val(s) == v, "P11: copying leaves the source alone");
        VP_TRY
        {
            a.o.emplace(std::move(s));
            IS(a.o, true, v, "emplace of an rvalue");
            vp_assert(moved_or_scalar(s), "P11: an rvalue is moved, not copied");
        }
        VP_CATCH
        {
            vp_assert(!a.o.has_value(), "P10: nothing is held after emplace failed");
        }
    }
    VP_CATCH {}
}
template <typename T>
void swap_both()
{
    VP_TRY
    {
        Any<T> a, b;
        a.o.swap(b.o);
        IS(a.o, b.eng, b.v, "swap, first");
        IS(b.o, a.eng, a.v, "swap, second");
    }
    VP_CATCH {}
}
template <typename T>
void access()
{
    VP_TRY
    {
        Any<T>      a;
        const O<T>& c = a.o;
#if defined(__cpp_exceptions)
        bool refused = false;
        try
        {
            T& x = a.o.value();
            vp_assert(a.eng, "P11: value() of an empty optional is refused");
            vp_assert(&x == &*a.o && a.o.operator->() == &x, "P11: value(), * and -> agree");
        }
        catch (const cetl::pf17::bad_optional_access&)
        {
            refused = true;
        }
        vp_assert(refused == !a.eng, "P11: value() throws bad_optional_access exactly when empty");
        refused = false;
        try
        {
            const T& x = c.value();
            vp_assert(&x == &*c && c.operator->() == &x, "P11: const value(), * and -> agree");
        }
        catch (const cetl::pf17::bad_optional_access&)
        {
            refused = true;
        }
        vp_assert(refused == !a.eng, "P11: const value() throws exactly when empty");
        refused = false;
        try
        {
            const O<T>& k = c;
            (void) std::move(k).value();
        }
        catch (const cetl::pf17::bad_optional_access&)
        {
            refused = true;
        }
        vp_assert(refused == !a.eng, "P11: const rvalue value() throws exactly when empty");
        refused = false;
        try
        {
            T t(std::move(a.o).value());
            vp_assert(vp::val(t) == a.v, "P11: value: rvalue value()");
            vp_assert(moved_or_scalar(*a.o), "P11: rvalue value() moves");
        }
        catch (const cetl::pf17::bad_optional_access&)
        {
            refused = true;
        }
        vp_assert(refused == !a.eng, "P11: rvalue value() throws exactly when empty");
#else
        if (a.eng)
        {
            vp_assert(&a.o.value() == &*a.o && a.o.operator->() == &*a.o, "P11: value(), * and -> agree");
            vp_assert(&c.value() == &*c && c.operator->() == &*c, "P11: const value(), * and -> agree");
            T t(std::move(a.o).value());
            vp_assert(vp::val(t) == a.v, "P11: value: rvalue value()");
        }
#endif
    }
    VP_CATCH {}
}
template <typename T>
void deref()
{
    VP_TRY
    {
        Any<T> a;
        vp_assume(a.eng);
        T t(*std::move(a.o));
        vp_assert(vp::val(t) == a.v, "P11: value: rvalue *");
        vp_assert(moved_or_scalar(*a.o), "P11: rvalue * moves");
        vp_assert(a.o.has_value(), "P10: rvalue * leaves the optional engaged");
    }
    VP_CATCH {}
}
template <typename T>
void value_or()
{
    VP_TRY
    {
        Any<T>            a;
        const O<T>&       c = a.o;
        T&                s = vp::object<T>();
        const std::size_t v = vp::val(s);
        {
            T t(c.value_or(static_cast<const T&>(s)));
            vp_assert(vp::val(t) == (a.eng ? a.v : v), "P11: value_or");
            IS(a.o, a.eng, a.v, "value_or leaves the optional alone");
        }
        {
            T t(std::move(a.o).value_or(static_cast<const T&>(s)));
            vp_assert(vp::val(t) == (a.eng ? a.v : v), "P11: rvalue value_or");
            vp_assert(a.o.has_value() == a.eng, "P10: value_or keeps the engaged state");
            if (a.eng)
            {
                vp_assert(moved_or_scalar(*a.o), "P11: rvalue value_or moves the held value");
            }
        }
        vp_assert(vp::val(s) == v, "P11: copying leaves the source alone");
    }
    VP_CATCH {}
}
template <typename T>
void compare_null()
{
    VP_TRY
    {
        const Any<T> x;
        const O<T>&  a = x.o;
        const bool   e = x.eng;
        vp_assert((a == nullopt) == !e && (nullopt == a) == !e, "P11: == nullopt");
        vp_assert((a != nullopt) == e && (nullopt != a) == e, "P11: != nullopt");
        vp_assert(!(a < nullopt) && (nullopt < a) == e, "P11: < nullopt");
        vp_assert((a <= nullopt) == !e && (nullopt <= a), "P11: <= nullopt");
        vp_assert((a > nullopt) == e && !(nullopt > a), "P11: > nullopt");
        vp_assert((a >= nullopt) && (nullopt >= a) == !e, "P11: >= nullopt");
    }
    VP_CATCH {}
}

#define CMP(op, both_empty, left_empty, right_empty)                                                                 \
    {                                                                                                                \
        const bool want = x.eng ? (y.eng ? (*a op * b) : (right_empty)) : (y.eng ? (left_empty) : (both_empty));     \
        vp_assert((a op b) == want, "P11: " #op " of optionals");                                                    \
    }
// opt op value, value op opt
#define CMPV(op, opt_empty_left, opt_empty_right)                                                  \
    {                                                                                              \
        const bool l = x.eng ? (*a op s) : (opt_empty_left);                                       \
        vp_assert((a op s) == l, "P11: optional " #op " value");                                   \
        const bool r = x.eng ? (s op * a) : (opt_empty_right);                                     \
        vp_assert((s op a) == r, "P11: value " #op " optional");                                   \
    }
template <typename T>
void compare_eq()
{
    VP_TRY
    {
        const Any<T> x, y;
        const O<T>&  a = x.o;
        const O<T>&  b = y.o;
        CMP(==, true, false, false)
        CMP(!=, false, true, true)
    }
    VP_CATCH {}
}
template <typename T>
void compare_less()
{
    VP_TRY
    {
        const Any<T> x, y;
        const O<T>&  a = x.o;
        const O<T>&  b = y.o;
        CMP(<, false, true, false)
        CMP(>, false, false, true)
    }
    VP_CATCH {}
}
template <typename T>
void compare_leq()
{
    VP_TRY
    {
        const Any<T> x, y;
        const O<T>&  a = x.o;
        const O<T>&  b = y.o;
        CMP(<=, true, true, false)
        CMP(>=, true, false, true)
    }
    VP_CATCH {}
}
template <typename T>
void compare_value()
{
    VP_TRY
    {
        const Any<T> x;
        const O<T>&  a = x.o;
        const T&     s = vp::object<T>();
        CMPV(==, false, false)
        CMPV(!=, true, true)
        CMPV(<, true, false)
        CMPV(<=, true, false)
        CMPV(>, false, true)
        CMPV(>=, false, true)
    }
    VP_CATCH {}
}

#define ALL(T, N)                                      \
    VP_ENTRY(h_ctor_empty_##N) { ctor_empty<T>(); }    \
    VP_ENTRY(h_ctor_value_##N) { ctor_value<T>(); }    \
    VP_ENTRY(h_ctor_copy_##N) { ctor_copy<T>(); }      \
    VP_ENTRY(h_ctor_move_##N) { ctor_move<T>(); }      \
    VP_ENTRY(h_assign_copy_##N) { assign_copy<T>(); }  \
    VP_ENTRY(h_assign_move_##N) { assign_move<T>(); }  \
    VP_ENTRY(h_assign_self_##N) { assign_self<T>(); }  \
    VP_ENTRY(h_assign_null_##N) { assign_null<T>(); }  \
    VP_ENTRY(h_assign_value_##N) { assign_value<T>(); } \
    VP_ENTRY(h_assign_rvalue_##N) { assign_rvalue<T>(); } \
    VP_ENTRY(h_emplace_##N) { emplace<T>(); }          \
    VP_ENTRY(h_swap_##N) { swap_both<T>(); }           \
    VP_ENTRY(h_access_##N) { access<T>(); }            \
    VP_ENTRY(h_deref_##N) { deref<T>(); }              \
    VP_ENTRY(h_value_or_##N) { value_or<T>(); }        \
    VP_ENTRY(h_compare_null_##N) { compare_null<T>(); }

#define ORDER(T, N)                                      \
    VP_ENTRY(h_compare_eq_##N) { compare_eq<T>(); }      \
    VP_ENTRY(h_compare_less_##N) { compare_less<T>(); }  \
    VP_ENTRY(h_compare_leq_##N) { compare_leq<T>(); }    \
    VP_ENTRY(h_compare_value_##N) { compare_value<T>(); }

ALL(vp::Elem, E)
ALL(vp::Thrower, T)
ALL(vp::Calm, C)
ALL(vp::MakeThrows, X)
ALL(vp::SetThrows, Y)
ALL(std::uint32_t, U)
ORDER(vp::Elem, E)
ORDER(vp::Thrower, T)
ORDER(std::uint32_t, U)

// conversions from other types and other optionals
template <typename T>
void conv_ctor()
{
    VP_TRY
    {
        vp::Src&            s = vp::object<vp::Src>();
        const vp::Src&      c = s;
        T                   e(c);
        const std::size_t   v = vp::val(e);
        const std::size_t   sv = vp::val(s);
        const bool          eng = vp_bool();
        O<vp::Src>          os;
        if (eng)
        {
            os.emplace(c);
        }
        O<T> a(c);
        IS(a, true, v, "construction from a convertible value");
        O<T> b{cetl::pf17::in_place_t{}, c};
        IS(b, true, v, "in-place construction");
        const O<vp::Src>& co = os;
        O<T>              d(co);
        IS(d, eng, v, "construction from another optional");
        vp_assert(os.has_value() == eng && (!eng || vp::val(*os) == sv), "P11: copying leaves the source alone");
        O<T> f(std::move(os));
        IS(f, eng, v, "construction from another optional by move");
        vp_assert(os.has_value() == eng, "P10: moving does not change whether the source holds a value");
        vp_assert(!eng || vp::moved(*os), "P11: an rvalue is moved, not copied");
        vp_assert(vp::val(s) == sv, "P11: copying leaves the source alone");
        O<T> g(std::move(s));
        IS(g, true, v, "construction from a convertible rvalue");
        vp_assert(vp::moved(s), "P11: an rvalue is moved, not copied");
    }
    VP_CATCH {}
}
template <typename T>
void conv_assign_value()
{
    VP_TRY
    {
        Any<T>            a;
        vp::Src&          s = vp::object<vp::Src>();
        const vp::Src&    c = s;
        T                 e(c);
        const std::size_t v = vp::val(e);
        VP_TRY
        {
            a.o = c;
            IS(a.o, true, v, "assignment of a convertible value");
            a.o.reset();
            a.o = std::move(s);
            IS(a.o, true, v, "assignment of a convertible rvalue");
            vp_assert(vp::moved(s), "P11: an rvalue is moved, not copied");
        }
        VP_CATCH {}
    }
    VP_CATCH {}
}
template <typename T>
void conv_assign_opt()
{
    VP_TRY
    {
        Any<T>            a;
        vp::Src&          s = vp::object<vp::Src>();
        const vp::Src&    c = s;
        T                 e(c);
        const std::size_t v   = vp::val(e);
        const bool        eng = vp_bool();
        O<vp::Src>        os;
        if (eng)
        {
            os.emplace(c);
        }
        const O<vp::Src>& co = os;
        VP_TRY
        {
            a.o = co;
            IS(a.o, eng, v, "assignment of another optional");
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing converting assignment keeps the engaged state");
        }
        vp_assert(os.has_value() == eng, "P11: copying leaves the source alone");
    }
    VP_CATCH {}
}
template <typename T>
void conv_assign_opt_move()
{
    VP_TRY
    {
        Any<T>            a;
        vp::Src&          s = vp::object<vp::Src>();
        const vp::Src&    c = s;
        T                 e(c);
        const std::size_t v   = vp::val(e);
        const bool        eng = vp_bool();
        O<vp::Src>        os;
        if (eng)
        {
            os.emplace(c);
        }
        VP_TRY
        {
            a.o = std::move(os);
            IS(a.o, eng, v, "assignment of another optional by move");
            vp_assert(!eng || vp::moved(*os), "P11: an rvalue is moved, not copied");
        }
        VP_CATCH
        {
            vp_assert(a.o.has_value() == a.eng, "P10: a failing converting assignment keeps the engaged state");
        }
        vp_assert(os.has_value() == eng, "P10: moving does not change whether the source holds a value");
    }
    VP_CATCH {}
}
VP_ENTRY(h_conv_ctor_E) { conv_ctor<vp::Elem>(); }
VP_ENTRY(h_conv_ctor_T) { conv_ctor<vp::Thrower>(); }
VP_ENTRY(h_conv_assign_value_E) { conv_assign_value<vp::Elem>(); }
VP_ENTRY(h_conv_assign_value_T) { conv_assign_value<vp::Thrower>(); }
VP_ENTRY(h_conv_assign_opt_E) { conv_assign_opt<vp::Elem>(); }
VP_ENTRY(h_conv_assign_opt_T) { conv_assign_opt<vp::Thrower>(); }
VP_ENTRY(h_conv_assign_opt_move_E) { conv_assign_opt_move<vp::Elem>(); }
VP_ENTRY(h_conv_assign_opt_move_T) { conv_assign_opt_move<vp::Thrower>(); }

VP_ENTRY(h_make)
{
    VP_TRY
    {
        vp::Elem&         s = vp::object<vp::Elem>();
        const std::size_t v = vp::val(s);
        auto              a = cetl::pf17::make_optional(static_cast<const vp::Elem&>(s));
        IS(a, true, v, "make_optional of a value");
        auto b = cetl::pf17::make_optional<vp::Elem>(static_cast<const vp::Elem&>(s));
        IS(b, true, v, "make_optional in place");
        auto c = cetl::pf17::make_optional(std::move(s));
        IS(c, true, v, "make_optional of an rvalue");
        vp_assert(vp::moved(s), "P11: an rvalue is moved, not copied");
    }
    VP_CATCH {}
}
VP_ENTRY(h_init_list)
{
    VP_TRY
    {
        vp::Src&                   s = vp::object<vp::Src>();
        vp::Src&                   t = vp::object<vp::Src>();
        vp::Src&                   t2 = vp::object<vp::Src>();
        std::initializer_list<int> il = {vp_int(), vp_int()};
        const vp::Src&             c = s;
        O<vp::Elem>                a{in_place_t{}, il, c, std::move(t)};
        vp_assert(a.has_value(), "P10: engaged state: in-place construction with a list");
        vp_assert(vp::moved(t), "P11: an rvalue is moved, not copied");
        vp::Elem& r = a.emplace({vp_int(), vp_int()}, c, std::move(t2));
        vp_assert(a.has_value() && &r == &*a, "P10: engaged state: emplace with a list");
        vp_assert(vp::moved(t2), "P11: an rvalue is moved, not copied");
    }
    VP_CATCH {}
}
VP_ENTRY(h_make_list)
{
    VP_TRY
    {
        vp::Src&       s = vp::object<vp::Src>();
        vp::Src&       t = vp::object<vp::Src>();
        const vp::Src& c = s;
        const auto     a = cetl::pf17::make_optional<vp::Elem>({vp_int(), vp_int()}, c, std::move(t));
        vp_assert(a.has_value(), "P10: engaged state: make_optional with a list");
        vp_assert(vp::moved(t), "P11: an rvalue is moved, not copied");
        const int  x = vp_int();
        const auto b = cetl::pf17::make_optional<std::uint32_t>();
        vp_assert(b.has_value() && *b == 0, "P11: value: make_optional of nothing");
        const auto d = cetl::pf17::make_optional<int>(x);
        vp_assert(d.has_value() && *d == x, "P11: value: make_optional in place");
    }
    VP_CATCH {}
}
// copied and moved by functions of its own, destroyed by none
struct Plain
{
    int v;
    int how;  // 1: copied, 2: moved, 3: copy assigned, 4: move assigned
    explicit Plain(const int x)
        : v(x)
        , how(0)
    {
    }
    Plain(const Plain& o)
        : v(o.v)
        , how(1)
    {
    }
    Plain(Plain&& o) noexcept
        : v(o.v)
        , how(2)
    {
        o.v = -1;
    }
    Plain& operator=(const Plain& o)
    {
        v   = o.v;
        how = 3;
        return *this;
    }
    Plain& operator=(Plain&& o) noexcept
    {
        v   = o.v;
        how = 4;
        o.v = -1;
        return *this;
    }
};
VP_ENTRY(h_plain)
{
    const int  x = vp_int(), y = vp_int();
    const bool e = vp_bool(), f = vp_bool();
    vp_assume(x >= 0 && y >= 0);
    O<Plain> a, b;
    if (e)
    {
        a.emplace(x);
    }
    if (f)
    {
        b.emplace(y);
    }
    O<Plain> c(a);
    vp_assert(c.has_value() == e && (!e || (c->v == x && c->how == 1 && a->v == x)), "P11: value: copy construction");
    O<Plain> d(std::move(c));
    vp_assert(d.has_value() == e && c.has_value() == e, "P10: engaged state: move construction");
    vp_assert(!e || (d->v == x && d->how == 2 && c->v == -1), "P11: value: move construction");
    c = b;
    vp_assert(c.has_value() == f && (!f || (c->v == y && c->how == (e ? 3 : 1) && b->v == y)), "P11: value: copy assignment");
    d = std::move(b);
    vp_assert(d.has_value() == f && b.has_value() == f, "P10: engaged state: move assignment");
    vp_assert(!f || (d->v == y && d->how == (e ? 4 : 2) && b->v == -1), "P11: value: move assignment");
    a.swap(d);
    vp_assert(a.has_value() == f && d.has_value() == e && (!f || a->v == y) && (!e || d->v == x), "P11: value: swap");
    d.reset();
    vp_assert(!d.has_value(), "P10: engaged state: reset");
    d = nullopt;
    a = nullopt;
    vp_assert(!d && !a, "P10: engaged state: assignment of nullopt");
    vp_cover("end");
}
// arguments keep their value category on the way into an optional
struct Took
{
    int how;  // 1: from an lvalue, 2: from a const lvalue, 3: from an rvalue
    explicit Took(int&)
        : how(1)
    {
    }
    explicit Took(const int&)
        : how(2)
    {
    }
    explicit Took(int&&)
        : how(3)
    {
    }
    Took(const Took& o)
        : how(o.how + 10)
    {
    }
    Took(Took&& o) noexcept
        : how(o.how + 20)
    {
    }
    Took& operator=(const Took&) = default;
    Took& operator=(Took&&)      = default;
};
struct TookD : Took
{
    using Took::Took;
    TookD(const TookD&)            = default;
    TookD(TookD&&)                 = default;
    TookD& operator=(const TookD&) = default;
    TookD& operator=(TookD&&)      = default;
    ~TookD()
    {
        how = 0;
    }
};
template <typename T>
void forwards()
{
    int       x = vp_int();
    const int c = x;
    O<T>      a{in_place_t{}, x}, b{in_place_t{}, c}, d{in_place_t{}, std::move(x)};
    vp_assert(a->how == 1 && b->how == 2 && d->how == 3, "P11: in-place construction forwards its argument");
    O<T> e(x), f(c), g(std::move(x));
    vp_assert(e->how == 1 && f->how == 2 && g->how == 3, "P11: construction from a value forwards it");
    vp_assert(e.emplace(std::move(x)).how == 3 && e.emplace(x).how == 1 && e.emplace(c).how == 2, "P11: emplace forwards its argument");
    const auto h = cetl::pf17::make_optional<T>(std::move(x));
    const auto i = cetl::pf17::make_optional<T>(c);
    vp_assert(h->how == 3 && i->how == 2, "P11: make_optional forwards its argument");
    const O<T> none;
    vp_assert(none.value_or(std::move(x)).how % 10 == 3 && none.value_or(x).how % 10 == 1 && none.value_or(c).how % 10 == 2,
              "P11: value_or forwards the default");
    vp_assert(O<T>{}.value_or(std::move(x)).how % 10 == 3 && O<T>{}.value_or(c).how % 10 == 2 && O<T>{}.value_or(x).how % 10 == 1,
              "P11: value_or forwards the default");
    O<int> n(x), empty;
    O<T>   j(std::move(n)), k(static_cast<const O<int>&>(n));
    vp_assert(j->how == 3 && k->how == 2, "P11: construction from another optional forwards its value");
    O<T> l(std::move(empty)), m(static_cast<const O<int>&>(empty));
    vp_assert(!l.has_value() && !m.has_value(), "P10: engaged state: construction from another, empty optional");
    const O<T> o(in_place_t{}, x);
    T          p(*std::move(o)), q(std::move(o).value()), r(*std::move(a)), s(std::move(b).value()), t(*d), u(d.value());
    vp_assert(p.how == 11 && q.how == 11 && r.how == 21 && s.how == 22 && t.how == 13 && u.how == 13,
              "P11: access keeps the value category");
    vp_cover("end");
}
VP_ENTRY(h_forwards)
{
    forwards<Took>();
}
VP_ENTRY(h_forwards_dtor)
{
    forwards<TookD>();
}
// only its conversion from an optional's value is looked at
VP_ENTRY(h_empty_conversion)
{
    const bool  f = vp_bool();
    const int   x = vp_int();
    O<int>      n;
    if (f)
    {
        n = x;
    }
    O<long> a(n);
    O<long> b(std::move(n));
    vp_assert(a.has_value() == f && b.has_value() == f, "P10: engaged state: construction from another optional");
    vp_assert(!f || (*a == x && *b == x), "P11: value: construction from another optional");
    O<long> c(7L), d;
    c = n;
    d = n;
    vp_assert(c.has_value() == f && d.has_value() == f && (!f || (*c == x && *d == x)), "P11: value: assignment of another optional");
    vp_cover("end");
}
#if !defined(__cpp_exceptions)
VP_ENTRY(h_no_value)
{
    O<std::uint32_t>        o;
    const O<std::uint32_t>& c = o;
    vp_misuse("P11: without exceptions, value() of an empty optional ends the program");
    if (vp_bool())
    {
        (void) o.value();
    }
    else if (vp_bool())
    {
        (void) c.value();
    }
    else if (vp_bool())
    {
        (void) std::move(o).value();
    }
    else
    {
        (void) std::move(c).value();
    }
    vp_misused();
}
#endif
