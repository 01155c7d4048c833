// Client programs of cetl::pmr::function.
#include "vp.hpp"
#include "cetl/pmr/function.hpp"

// functors with a value; copying them may throw, moving does not
template <typename T>
struct Fn
{
    T           e;
    std::size_t operator()(std::size_t& calls)
    {
        ++calls;
        return vp::val(e);
    }
};
using Small = Fn<vp::Elem>;
using Large = Fn<vp::Big>;

using Sig = std::size_t(std::size_t&);
// N: in place only; Q: allocated only; B: Small in place, Large allocated
using N = cetl::pmr::function<Sig, 128>;
using Q = cetl::pmr::function<Sig, 0, vp::Mr>;
using B = cetl::pmr::function<Sig, 48, vp::Mr>;

constexpr int EMPTY = 0;
constexpr int HOLDS = 1;
constexpr int LOST  = 2;

template <typename F>
struct HasMr : std::true_type
{};
template <>
struct HasMr<N> : std::false_type
{};
template <typename F>
std::enable_if_t<HasMr<F>::value, const vp::Mr*> mr_of(const F& f)
{
    return f.get_memory_resource();
}
template <typename F>
std::enable_if_t<!HasMr<F>::value, const vp::Mr*> mr_of(const F&)
{
    return nullptr;
}

template <typename F>
void is(const F& f, int k, std::size_t x, const vp::Mr* m)
{
    vp_assert(static_cast<bool>(f) == (k == HOLDS), "P19: bool conversion tells whether there is a target");
    vp_assert(f.valueless_by_exception() == (k == LOST), "P19: valueless_by_exception tells about a failure");
    vp_assert(mr_of(f) == m, "P19: memory resource");
    if (k == HOLDS)
    {
        std::size_t       calls = 0;
        const std::size_t y     = f(calls);
        vp_assert(calls == 1, "P19: the target is called once, with the given arguments");
        vp_assert(y == x, "P19: the call reaches the stored target");
    }
#if defined(__cpp_exceptions)
    else
    {
        bool        refused = false;
        std::size_t calls   = 0;
        try
        {
            (void) f(calls);
        } catch (const std::bad_function_call&)
        {
            refused = true;
        }
        vp_assert(refused && calls == 0, "P19: calling an empty function is refused");
    }
#endif
}

template <typename F, bool = HasMr<F>::value>
struct Fresh
{
    vp::Mr* m;
    F       f;
    Fresh()
        : m(vp::Mr::make())
        , f(m)
    {
    }
};
template <typename F>
struct Fresh<F, false>
{
    vp::Mr* m;
    F       f;
    Fresh()
        : m(nullptr)
        , f()
    {
    }
};
// any function: without target, with one, or lost
template <typename F>
struct Any : Fresh<F>
{
    int         k = EMPTY;
    std::size_t x = 0;
    using Fresh<F>::f;
    Any()
    {
        if (vp_bool())
        {
            put<vp::Elem>();
        }
        else if (vp_bool())
        {
            put<vp::Big>();
        }
    }
    template <typename T>
    void put()
    {
        x = 0;
        VP_TRY
        {
            Fn<T>             g{std::move(vp::object<T>())};
            const std::size_t y = vp::val(g.e);
            const bool        b = static_cast<bool>(f);
            f                   = std::move(g);
            k                   = f ? HOLDS : LOST;
            x                   = y;
            (void) b;
        }
        VP_CATCH
        {
            k = LOST;
        }
    }
    void ok() const
    {
        is(f, k, x, this->m);
    }
};

template <typename F>
void states()
{
    Any<F> a;
    vp_cover("end");
    if (a.k == LOST)
    {
        vp_cover("lost");
    }
    a.ok();
    a.f.reset();
    is(a.f, EMPTY, 0, a.m);
    a.template put<vp::Big>();
    a.ok();
    a.f = nullptr;
    is(a.f, EMPTY, 0, a.m);
}
template <typename F>
void copy_ctor()
{
    Any<F> a;
    VP_TRY
    {
        F c(static_cast<const F&>(a.f));
        vp_cover("end");
        is(c, (c || a.k == EMPTY) ? a.k : LOST, a.x, a.m);
        a.ok();
        a.f.reset();
        if (c)
        {
            is(c, HOLDS, a.x, a.m);
        }
    }
    VP_CATCH
    {
        vp_cover("fails");
        a.ok();
    }
}
template <typename F>
void move_ctor()
{
    Any<F> a;
    F      c(std::move(a.f));
    vp_cover("end");
    is(c, a.k, a.x, a.m);
    is(a.f, EMPTY, 0, a.m);
}
template <typename F>
void copy_assign()
{
    Any<F> a;
    Any<F> b;
    VP_TRY
    {
        F& r = (b.f = static_cast<const F&>(a.f));
        vp_cover("end");
        vp_assert(&r == &b.f, "P19: assignment returns the function");
        is(b.f, (b.f || a.k == EMPTY) ? a.k : LOST, a.x, a.m);
        a.ok();
        a.f.reset();
        if (b.f)
        {
            is(b.f, HOLDS, a.x, a.m);
        }
    }
    VP_CATCH
    {
        vp_cover("fails");
        is(b.f, LOST, 0, a.m);
        a.ok();
    }
}
template <typename F>
void move_assign()
{
    Any<F> a;
    Any<F> b;
    F&     r = (b.f = std::move(a.f));
    vp_cover("end");
    vp_assert(&r == &b.f, "P19: assignment returns the function");
    is(b.f, a.k, a.x, a.m);
    is(a.f, EMPTY, 0, a.m);
}
template <typename F>
void self_assign()
{
    Any<F> a;
    F&     r = a.f;
    a.f      = static_cast<const F&>(r);
    a.ok();
    a.f = std::move(r);
    vp_cover("end");
    a.ok();
}
template <typename F>
void swap()
{
    Any<F> a;
    Any<F> b;
    if (vp_bool())
    {
        a.f.swap(b.f);
    }
    else
    {
        std::swap(a.f, b.f);
    }
    vp_cover("end");
    is(a.f, (b.k == HOLDS) ? HOLDS : (a.f.valueless_by_exception() ? LOST : EMPTY), b.x, b.m);
    is(b.f, (a.k == HOLDS) ? HOLDS : (b.f.valueless_by_exception() ? LOST : EMPTY), a.x, a.m);
    a.f.reset();
    is(b.f, (a.k == HOLDS) ? HOLDS : (b.f.valueless_by_exception() ? LOST : EMPTY), a.x, a.m);
}
template <typename F, typename T>
void assign()
{
    Any<F>            a;
    Fn<T>             g{std::move(vp::object<T>())};
    const std::size_t y = vp::val(g.e);
    VP_TRY
    {
        F& r = (a.f = static_cast<const Fn<T>&>(g));
        vp_cover("end");
        vp_assert(&r == &a.f, "P19: assignment returns the function");
        is(a.f, a.f ? HOLDS : LOST, y, a.m);
        vp_assert(vp::val(g.e) == y && !vp::moved(g.e), "P19: an lvalue functor is copied");
        r = std::move(g);
        is(a.f, a.f ? HOLDS : LOST, y, a.m);
        vp_assert(vp::moved(g.e), "P19: an rvalue functor is moved");
    }
    VP_CATCH
    {
        vp_cover("fails");
        if (a.f.valueless_by_exception())
        {
            is(a.f, LOST, 0, a.m);
        }
        else
        {
            const std::size_t x = vp::moved(g.e) ? y : a.x;
            (void) x;
            vp_assert(static_cast<bool>(a.f) == (a.k == HOLDS), "P19: a failing copy of the functor changes nothing");
        }
    }
}
template <typename F, typename T>
void ctor_mr()
{
    Fn<T>             g{std::move(vp::object<T>())};
    const std::size_t y = vp::val(g.e);
    vp::Mr* const     m = vp::Mr::make();
    VP_TRY
    {
        const F f(m, static_cast<const Fn<T>&>(g));
        vp_cover("end");
        is(f, f ? HOLDS : LOST, y, m);
        const F h(m, std::move(g));
        is(h, h ? HOLDS : LOST, y, m);
        vp_assert(vp::moved(g.e), "P19: an rvalue functor is moved");
    }
    VP_CATCH
    {
        vp_cover("fails");
    }
}
template <typename F>
void reset_mr()
{
    Any<F>        a;
    vp::Mr* const m = vp::Mr::make();
    a.f.reset(m);
    vp_cover("end");
    is(a.f, EMPTY, 0, m);
    a.m = m;
    a.template put<vp::Big>();
    a.ok();
}
#define E(F)                                             \
    VP_ENTRY(h_states_##F) { states<F>(); }              \
    VP_ENTRY(h_copy_ctor_##F) { copy_ctor<F>(); }        \
    VP_ENTRY(h_move_ctor_##F) { move_ctor<F>(); }        \
    VP_ENTRY(h_copy_assign_##F) { copy_assign<F>(); }    \
    VP_ENTRY(h_move_assign_##F) { move_assign<F>(); }    \
    VP_ENTRY(h_self_assign_##F) { self_assign<F>(); }    \
    VP_ENTRY(h_swap_##F) { swap<F>(); }                  \
    VP_ENTRY(h_assign_small_##F) { assign<F, vp::Elem>(); } \
    VP_ENTRY(h_assign_large_##F) { assign<F, vp::Big>(); }
E(N) E(Q) E(B)
#undef E
#define E(F)                                                \
    VP_ENTRY(h_ctor_small_##F) { ctor_mr<F, vp::Elem>(); }  \
    VP_ENTRY(h_ctor_large_##F) { ctor_mr<F, vp::Big>(); }   \
    VP_ENTRY(h_reset_mr_##F) { reset_mr<F>(); }
E(Q) E(B)
#undef E
VP_ENTRY(h_ctor_N)
{
    Large             g{std::move(vp::object<vp::Big>())};
    const std::size_t y = vp::val(g.e);
    VP_TRY
    {
        const N f(static_cast<const Large&>(g));
        vp_cover("end");
        is(f, HOLDS, y, nullptr);
        const N h(std::move(g));
        is(h, HOLDS, y, nullptr);
        vp_assert(vp::moved(g.e), "P19: an rvalue functor is moved");
    }
    VP_CATCH
    {
        vp_cover("fails");
    }
}

// results, references and exceptions of the target
VP_ENTRY(h_result_ref)
{
    int                                      i = vp_int();
    cetl::pmr::function<int&(int, int&), 32> f = [&i](int a, int& b) -> int& {
        b = a;
        return i;
    };
    int       b = 0;
    const int a = vp_int();
    vp_assert(&f(a, b) == &i && b == a, "P19: arguments and result are passed through");
    cetl::pmr::function<void(int), 32> g = [&i](int a2) { i = a2; };
    g(a);
    vp_assert(i == a, "P19: arguments are passed through");
    g = [&b](int a3) { b = a3 + 1; };
    g(7);
    vp_assert(b == 8 && i == a, "P19: an assigned functor replaces the old one");
    vp_cover("end");
}
static int twice(int a)
{
    return 2 * a;
}
VP_ENTRY(h_function_pointer)
{
    cetl::pmr::function<int(int), 32> f = twice;
    cetl::pmr::function<int(int), 32> g = &twice;
    const cetl::pmr::function<int(int), 32> h = f;
    vp_assert(f(4) == 8 && g(5) == 10 && h(6) == 12, "P19: a function pointer is a target");
    vp_cover("end");
}
// a target with state keeps it between calls, copies have their own
VP_ENTRY(h_mutable)
{
    cetl::pmr::function<int(), 32> f = [n = 0]() mutable { return ++n; };
    vp_assert(f() == 1 && f() == 2, "P19: the target keeps its state");
    auto g = f;
    vp_assert(g() == 3 && g() == 4 && f() == 3, "P19: a copy has its own target");
    auto h = std::move(g);
    vp_assert(h() == 5, "P19: a move takes the target along");
    f.swap(h);
    vp_assert(f() == 6 && h() == 4, "P19: swap exchanges the targets");
    vp_cover("end");
}
#if defined(__cpp_exceptions)
VP_ENTRY(h_throwing_target)
{
    Any<B> dummy;
    cetl::pmr::function<int(int), 48> f = [](int a) {
        vp_may_throw();
        return a;
    };
    bool thrown = false;
    try
    {
        vp_assert(f(3) == 3, "P19: result of the target");
        vp_cover("returns");
    } catch (...)
    {
        thrown = true;
        vp_cover("throws");
    }
    vp_assert(static_cast<bool>(f), "P19: an exception of the target reaches the caller and changes nothing");
    (void) thrown;
}
#endif
#if !defined(__cpp_exceptions)
VP_ENTRY(h_empty_call)
{
    cetl::pmr::function<int(int), 48> f;
    if (vp_bool())
    {
        f = [](int a) { return a; };
        f = nullptr;
    }
    vp_misuse("P19: without exceptions, calling an empty function ends the program");
    (void) f(3);
    vp_misused();
}
#endif
