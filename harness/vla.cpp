// Client programs of cetl::VariableLengthArray (generic element types).
#include "vp.hpp"
#include "cetl/variable_length_array.hpp"

template <typename T, typename A>
using V = cetl::VariableLengthArray<T, A>;

#define INV(v)                                                          \
    vp_assert((v).size() <= (v).capacity(), "P03: size <= capacity");   \
    vp_assert((v).capacity() <= (v).max_size(), "P03: capacity <= max_size"); \
    vp_assert((v).empty() == ((v).size() == 0), "P03: empty iff size is zero"); \
    vp_assert((v).size() == 0 || vp_block_size((v).data()) >= (v).capacity() * sizeof(*(v).data()), "P03: storage for capacity elements")

// elements [from, to) of v are s[from - shift ...)
template <typename W, typename T>
void same(const W& v, const T* s, std::size_t to, const char* msg)
{
    const std::size_t i = vp_size();
    vp_assume(i < to);
    vp_assert(vp::val(v[i]) == vp::val(s[i]), msg);
}

template <typename T, typename A>
struct S  // an arbitrary array: n elements, capacity >= c, maximum max
{
    std::size_t n, c, max;
    const T*    s;
    A           a;
    V<T, A>     v;
    S()
        : n(vp_size())
        , c(vp_size())
        , max(vp_size())
        , s(vp::array<T>(n))
        , a(A::make())
        , v((vp_assume(n <= max && c <= max), s), s + n, max, a)
    {
        v.reserve(c);
#if !defined(__cpp_exceptions)
        vp_assume(v.size() == n);  // the memory for the initial state was available
#endif
    }
};

template <typename T, typename A>
void ctor_range()
{
    const std::size_t n = vp_size(), max = vp_size();
    const T*          s = vp::array<T>(n);
    bool              made = false;
    VP_TRY
    {
        V<T, A> v(s, s + n, max, A::make());
        made = true;
        INV(v);
        vp_assert(v.max_size() <= max, "P03: max_size is clamped");
#if defined(__cpp_exceptions)
        vp_assert(v.size() == n, "P04: range constructor takes all elements");
        vp_assert(n <= max, "P03: too many elements are refused");
#else
        vp_assert(v.size() <= n, "P04: range constructor takes no more than the range");
#endif
        const std::size_t k = v.size();
        same(v, s, k, "P04: range constructor copies in order");
    }
    VP_CATCH
    {
    }
    (void) made;
}

template <typename T, typename A>
void ctor_list()
{
    VP_TRY
    {
        V<T, A> v({vp::object<T>(), vp::object<T>(), vp::object<T>()}, vp_size(), A::make());
        INV(v);
#if defined(__cpp_exceptions)
        vp_assert(v.size() == 3, "P04: list constructor takes all elements");
#endif
    }
    VP_CATCH
    {
    }
}

template <typename T, typename A>
void ctor_plain()
{
    V<T, A> v(A::make());
    INV(v);
    vp_assert(v.size() == 0, "P04: empty after construction");
    V<T, A> w(vp_size(), A::make());
    INV(w);
    vp_assert(v == w, "P06: empty arrays are equal");
    vp_assert(v.begin() == v.end() && w.cbegin() == w.cend(), "P04: empty range");
}

template <typename T, typename A>
void ctor_copy()
{
    S<T, A> x;
    VP_TRY
    {
        V<T, A> w(x.v);
        INV(w);
        vp_assert(w.get_allocator() == std::allocator_traits<A>::select_on_container_copy_construction(x.a),
                  "P02: a copy uses the allocator that the traits select");
#if defined(__cpp_exceptions)
        vp_assert(w.size() == x.n, "P04: copy has the same size");
#else
        vp_assert(w.size() == x.n || w.size() == 0, "P04: copy has the same size");
#endif
        vp_assert(w.max_size() == x.v.max_size(), "P03: copy has the same maximum");
        same(w, x.s, w.size(), "P04: copy has the same elements");
    }
    VP_CATCH
    {
    }
    vp_assert(x.v.size() == x.n, "P04: copying leaves the source alone");
    same(x.v, x.s, x.n, "P04: copying leaves the source alone");
}

template <typename T, typename A>
void ctor_copy_alloc()
{
    S<T, A> x;
    const A b = A::make();
    VP_TRY
    {
        V<T, A> w(x.v, b);
        INV(w);
        vp_assert(w.get_allocator() == b, "P02: uses the given allocator");
#if defined(__cpp_exceptions)
        vp_assert(w.size() == x.n, "P04: copy has the same size");
#endif
        same(w, x.s, w.size(), "P04: copy has the same elements");
    }
    VP_CATCH
    {
    }
    vp_assert(x.v.size() == x.n, "P04: copying leaves the source alone");
}

template <typename W, typename T>
void moved_from(W& v, const T& e)
{
    vp_assert(v.size() == 0, "P05: moved-from array is empty");
    INV(v);
    VP_TRY
    {
        v.push_back(e);
#if defined(__cpp_exceptions)
        vp_assert(v.size() == 1, "P05: moved-from array can be used again");
#endif
        INV(v);
    }
    VP_CATCH
    {
    }
}

template <typename T, typename A>
void ctor_move()
{
    S<T, A> x;
    V<T, A> w(std::move(x.v));
    INV(w);
    vp_assert(w.size() == x.n, "P04: move keeps the size");
    vp_assert(w.get_allocator() == x.a, "P02: move keeps the allocator");
    same(w, x.s, x.n, "P04: move keeps the elements");
    moved_from(x.v, vp::object<T>());
}

template <typename T, typename A>
void ctor_move_alloc()
{
    S<T, A> x;
    const A b = A::make();
    VP_TRY
    {
        V<T, A> w(std::move(x.v), b);
        INV(w);
        vp_assert(w.get_allocator() == b, "P02: uses the given allocator");
#if defined(__cpp_exceptions)
        vp_assert(w.size() == x.n, "P04: move keeps the size");
        moved_from(x.v, vp::object<T>());
#else
        vp_assert(w.size() == x.n || (w.size() == 0 && x.v.size() == x.n), "P04: move keeps the size");
#endif
        same(w, x.s, w.size(), "P04: move keeps the elements");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}

template <typename T, typename A>
void assign_copy()
{
    S<T, A> x, y;
    VP_TRY
    {
        x.v = y.v;
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == y.n, "P04: assignment takes all elements");
#else
        vp_assert(x.v.size() == y.n || x.v.size() == 0, "P04: assignment takes all elements");
#endif
        vp_assert(x.v.get_allocator() == (A::propagate_on_container_copy_assignment::value ? y.a : x.a),
                  "P02: allocator propagation");
        vp_assert(x.v.max_size() == y.v.max_size(), "P03: assignment takes the maximum");
        same(x.v, y.s, x.v.size(), "P04: assignment takes the elements");
    }
    VP_CATCH
    {
        INV(x.v);
    }
    vp_assert(y.v.size() == y.n, "P04: assignment leaves the source alone");
    same(y.v, y.s, y.n, "P04: assignment leaves the source alone");
}

template <typename T, typename A>
void assign_move()
{
    S<T, A> x, y;
    VP_TRY
    {
        x.v = std::move(y.v);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == y.n, "P04: move assignment takes all elements");
#else
        vp_assert(x.v.size() == y.n || x.v.size() == 0, "P04: move assignment takes all elements");
#endif
        vp_assert(x.v.get_allocator() == (A::propagate_on_container_move_assignment::value ? y.a : x.a),
                  "P02: allocator propagation");
        vp_assert(x.v.max_size() <= y.max, "P03: move assignment takes the maximum");
        same(x.v, y.s, x.v.size(), "P04: move assignment takes the elements");
        moved_from(y.v, vp::object<T>());
    }
    VP_CATCH
    {
        INV(x.v);
        INV(y.v);
    }
}

template <typename T, typename A>
void assign_self()
{
    S<T, A> x;
    VP_TRY
    {
        V<T, A>& alias = x.v;
        x.v            = alias;
        vp_assert(x.v.size() == x.n, "P05: self assignment keeps the array");
        same(x.v, x.s, x.n, "P05: self assignment keeps the array");
        INV(x.v);
        x.v = std::move(alias);
        vp_assert(x.v.size() == x.n, "P05: self move assignment keeps the array");
        same(x.v, x.s, x.n, "P05: self move assignment keeps the array");
        INV(x.v);
    }
    VP_CATCH
    {
        INV(x.v);
    }
}

template <typename T, typename A, typename F>
void grow_one(F f)
{
    S<T, A>           x;
    const std::size_t cap = x.v.capacity();
    VP_TRY
    {
        f(x.v);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == x.n + 1, "P04: one more element");
#else
        vp_assert(x.v.size() == x.n + 1 || x.v.size() == x.n, "P03: one more element or none");
#endif
        vp_assert(x.v.capacity() >= cap, "P03: capacity does not shrink");
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03: a failed insertion leaves the array unchanged");
        vp_assert(x.v.capacity() >= cap, "P03: a failed insertion leaves the array unchanged");
    }
    same(x.v, x.s, x.n, "P04: existing elements stay");
}

template <typename T, typename A>
void push_copy()
{
    const T& e = vp::object<T>();
    grow_one<T, A>([&e](V<T, A>& v) {
        const std::size_t n = v.size();
        v.push_back(e);
        vp_assert(v.size() == n || vp::val(v[n]) == vp::val(e), "P04: the new element comes last");
        vp_assert(v.size() == n || &v.back() == &v[n], "P04: back refers to the last element");
    });
}
template <typename T, typename A>
void push_move()
{
    T& e = vp::object<T>();
    const std::size_t id = vp::val(e);
    grow_one<T, A>([&e, id](V<T, A>& v) {
        const std::size_t n = v.size();
        v.push_back(std::move(e));
        vp_assert(v.size() == n || vp::val(v[n]) == id, "P04: the new element comes last");
    });
}
template <typename T, typename A>
void emplace()
{
    const T& e = vp::object<T>();
    grow_one<T, A>([&e](V<T, A>& v) {
        const std::size_t n = v.size();
        v.emplace_back(e);
        vp_assert(v.size() == n || vp::val(v[n]) == vp::val(e), "P04: the new element comes last");
    });
}
template <typename T, typename A>
void push_own()
{
    S<T, A>           x;
    const std::size_t k = vp_size();
    vp_assume(k < x.n);
    VP_TRY
    {
        x.v.push_back(x.v[k]);
        vp_assert(x.v.size() == x.n || vp::val(x.v[x.n]) == vp::val(x.s[k]), "P08: inserts a copy of its own element");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}
template <typename T, typename A>
void emplace_own()
{
    S<T, A>           x;
    const std::size_t k = vp_size();
    vp_assume(k < x.n);
    VP_TRY
    {
        x.v.emplace_back(x.v[k]);
        vp_assert(x.v.size() == x.n || vp::val(x.v[x.n]) == vp::val(x.s[k]), "P08: inserts a copy of its own element");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}

template <typename T, typename A>
void pop()
{
    S<T, A> x;
    x.v.pop_back();
    INV(x.v);
    const std::size_t left = x.n == 0 ? 0 : x.n - 1;
    vp_assert(x.v.size() == left, "P04: one element less");
    same(x.v, x.s, left, "P04: existing elements stay");
}

template <typename T, typename A>
void clear()
{
    S<T, A>           x;
    const std::size_t cap = x.v.capacity();
    x.v.clear();
    INV(x.v);
    vp_assert(x.v.size() == 0 && x.v.capacity() == cap, "P04: clear removes all elements and keeps the capacity");
    x.v.clear();
    x.v.pop_back();
    vp_assert(x.v.size() == 0, "P04: popping from an empty array does nothing");
}

template <typename T, typename A>
void resize_value()
{
    S<T, A>           x;
    const T&          e = vp::object<T>();
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.resize(k, e);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == k, "P04: resized");
        vp_assert(k <= x.max, "P03: too many elements are refused");
#else
        vp_assert(x.v.size() <= k || x.v.size() == x.n, "P04: resized");
#endif
        const std::size_t i = vp_size();
        vp_assume(i < x.v.size());
        if (i < x.n)
        {
            vp_assert(vp::val(x.v[i]) == vp::val(x.s[i]), "P04: existing elements stay");
        }
        else
        {
            vp_assert(vp::val(x.v[i]) == vp::val(e), "P04: new elements have the given value");
        }
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03: a failed resize leaves the array unchanged");
        same(x.v, x.s, x.n, "P04: existing elements stay");
    }
}
template <typename T, typename A>
void resize_default()
{
    S<T, A>           x;
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.resize(k);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == k, "P04: resized");
#endif
        const std::size_t i = vp_size();
        vp_assume(i < x.v.size() && i < x.n);
        vp_assert(vp::val(x.v[i]) == vp::val(x.s[i]), "P04: existing elements stay");
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03: a failed resize leaves the array unchanged");
    }
}
template <typename T, typename A>
void resize_own()
{
    S<T, A>           x;
    const std::size_t k = vp_size(), j = vp_size();
    vp_assume(j < x.n);
    vp_assume(k > x.n);
    VP_TRY
    {
        x.v.resize(k, x.v[j]);
        const std::size_t i = vp_size();
        vp_assume(i < x.v.size() && i >= x.n);
        vp_assert(vp::val(x.v[i]) == vp::val(x.s[j]), "P08: new elements are copies of its own element");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}

template <typename T, typename A>
void assign_value()
{
    S<T, A>           x;
    const T&          e = vp::object<T>();
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.assign(k, e);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == k, "P04: assigned");
#endif
        const std::size_t i = vp_size();
        vp_assume(i < x.v.size());
        vp_assert(vp::val(x.v[i]) == vp::val(e), "P04: all elements have the given value");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}
template <typename T, typename A>
void assign_own()
{
    S<T, A>           x;
    const std::size_t k = vp_size(), j = vp_size();
    vp_assume(j < x.n);
    VP_TRY
    {
        x.v.assign(k, x.v[j]);
        const std::size_t i = vp_size();
        vp_assume(i < x.v.size());
        vp_assert(vp::val(x.v[i]) == vp::val(x.s[j]), "P08: all elements are copies of its own element");
    }
    VP_CATCH
    {
        INV(x.v);
    }
}

template <typename T, typename A>
void reserve()
{
    S<T, A>           x;
    const std::size_t k = vp_size(), cap = x.v.capacity();
    VP_TRY
    {
        x.v.reserve(k);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.capacity() >= k, "P03: reserve provides the capacity");
        vp_assert(k <= x.max || k <= cap, "P03: too large a capacity is refused");
#endif
        vp_assert(x.v.capacity() >= cap, "P03: reserve does not shrink");
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.capacity() == cap, "P03: a failed reserve leaves the array unchanged");
    }
    vp_assert(x.v.size() == x.n, "P04: reserve keeps the size");
    same(x.v, x.s, x.n, "P04: existing elements stay");
}

template <typename T, typename A>
void shrink()
{
    S<T, A>           x;
    const std::size_t cap = x.v.capacity();
    VP_TRY
    {
        x.v.shrink_to_fit();
        INV(x.v);
        vp_assert(x.v.capacity() <= cap, "P03: shrinking does not grow");
    }
    VP_CATCH
    {
        INV(x.v);
    }
    vp_assert(x.v.size() == x.n, "P04: shrinking keeps the size");
    same(x.v, x.s, x.n, "P04: existing elements stay");
}

template <typename T, typename A>
void equal()
{
    S<T, A>    x, y;
    const bool eq = x.v == y.v;
    if (eq)
    {
        vp_assert(x.n == y.n, "P06: equal arrays have the same size");
        vp_assert(vp_compared(x.v.data(), y.v.data(), x.n * sizeof(T)), "P06: equal arrays compared all elements equal");
    }
    else
    {
        vp_assert(x.n != y.n || vp_differs(), "P06: unequal arrays differ in size or in an element");
    }
}
template <typename T, typename A>
void equal_self()
{
    S<T, A> x;
    vp_assert(x.v == x.v, "P06: an array equals itself");
    vp_assert(!(x.v != x.v), "P06: != is the negation of ==");
}

template <typename T, typename A>
void access()
{
    S<T, A>           x;
    const V<T, A>&    cv = x.v;
    const std::size_t i  = vp_size();
#if defined(__cpp_exceptions)
    bool ok = false, refused = false;
    try
    {
        vp_assert(&x.v.at(i) == &x.v[i] && &cv.at(i) == &cv[i], "P04: at is the element");
        vp_assert(i < x.n, "P04: at refuses positions past the end");
        ok = true;
    } catch (const std::out_of_range&)
    {
        refused = true;
    }
    vp_assert(ok != refused && refused == (i >= x.n), "P04: at refuses exactly the positions past the end");
#endif
    vp_assume(i < x.n);
    vp_assert(vp::val(cv[i]) == vp::val(x.s[i]), "P04: element access");
    vp_assert(vp::val(*(x.v.begin() + i)) == vp::val(x.s[i]), "P04: iteration visits the elements in order");
    vp_assert(vp::val(*(cv.cbegin() + i)) == vp::val(x.s[i]), "P04: iteration visits the elements in order");
    vp_assert(vp::val(cv.data()[i]) == vp::val(x.s[i]), "P04: data");
    vp_assert(static_cast<std::size_t>(x.v.end() - x.v.begin()) == x.n && static_cast<std::size_t>(cv.cend() - cv.cbegin()) == x.n &&
              static_cast<std::size_t>(cv.end() - cv.begin()) == x.n, "P04: the range spans all elements");
    vp_assert(vp::val(x.v.front()) == vp::val(x.s[0]) && vp::val(cv.front()) == vp::val(x.s[0]), "P04: front");
    vp_assert(vp::val(x.v.back()) == vp::val(x.s[x.n - 1]) && vp::val(cv.back()) == vp::val(x.s[x.n - 1]), "P04: back");
}

// ------------------------------------------- with memory to spare, an operation succeeds exactly within the maximum
template <typename F>
bool done(F f)
{
    bool ok = false;
    VP_TRY
    {
        f();
        ok = true;
    }
    VP_CATCH
    {
    }
    return ok;
}
template <typename T, typename A>
void sure_push()
{
    S<T, A>    x;
    const T&   e  = vp::object<T>();
    const bool in = x.n < x.v.max_size();
    const bool ok = done([&] { x.v.push_back(e); });
    vp_assert(x.v.size() == (in ? x.n + 1 : x.n), "P03,P04: insertion succeeds exactly below the maximum");
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: insertion is refused exactly at the maximum");
#endif
    (void) ok;
}
template <typename T, typename A>
void sure_push_move()
{
    S<T, A>    x;
    T&         e  = vp::object<T>();
    const bool in = x.n < x.v.max_size();
    const bool ok = done([&] { x.v.push_back(std::move(e)); });
    vp_assert(x.v.size() == (in ? x.n + 1 : x.n), "P03,P04: insertion succeeds exactly below the maximum");
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: insertion is refused exactly at the maximum");
#endif
    (void) ok;
}
template <typename T, typename A>
void sure_emplace()
{
    S<T, A>    x;
    const T&   e  = vp::object<T>();
    const bool in = x.n < x.v.max_size();
    const bool ok = done([&] { x.v.emplace_back(e); });
    vp_assert(x.v.size() == (in ? x.n + 1 : x.n), "P03,P04: insertion succeeds exactly below the maximum");
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: insertion is refused exactly at the maximum");
#endif
    (void) ok;
}
template <typename T, typename A>
void sure_resize()
{
    S<T, A>           x;
    const T&          e  = vp::object<T>();
    const std::size_t k  = vp_size();
    const bool        in = k <= x.v.max_size();
    const bool        how = vp_bool();
    const bool        ok = done([&] { how ? x.v.resize(k, e) : x.v.resize(k); });
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: resize is refused exactly above the maximum");
    vp_assert(x.v.size() == (in ? k : x.n), "P03,P04: resize succeeds exactly within the maximum");
#else
    vp_assert(x.v.size() == (in ? k : x.v.max_size()), "P03,P04: resize goes as far as the maximum");
#endif
    (void) ok;
}
template <typename T, typename A>
void sure_assign()
{
    S<T, A>           x;
    const T&          e  = vp::object<T>();
    const std::size_t k  = vp_size();
    const bool        in = k <= x.v.max_size();
    const bool        ok = done([&] { x.v.assign(k, e); });
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: assign is refused exactly above the maximum");
    vp_assert(x.v.size() == (in ? k : x.n), "P03,P04: assign succeeds exactly within the maximum");
#else
    vp_assert(x.v.size() == (in ? k : x.v.max_size()), "P03,P04: assign goes as far as the maximum");
#endif
    (void) ok;
}
template <typename T, typename A>
void sure_reserve()
{
    S<T, A>           x;
    const std::size_t k   = vp_size();
    const std::size_t cap = x.v.capacity();
    const bool        in  = k <= x.v.max_size();
    const bool        ok  = done([&] { x.v.reserve(k); });
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03: reserve is refused exactly above the maximum");
#endif
    vp_assert(!in || x.v.capacity() == (k > cap ? k : cap), "P03: reserve provides the capacity");
    x.v.shrink_to_fit();
    vp_assert(x.v.capacity() == x.n, "P03: shrinking releases the spare capacity");
    (void) ok;
}
template <typename T, typename A>
void sure_copy()
{
    S<T, A> x;
    V<T, A> w(x.v);
    vp_assert(w.size() == x.n, "P04: copy has the same size");
    V<T, A> u(x.v, A::make());
    vp_assert(u.size() == x.n, "P04: copy has the same size");
    V<T, A> m(std::move(u), A::make());
    vp_assert(m.size() == x.n && u.size() == 0, "P04,P05: move carries all elements");
    same(m, x.s, x.n, "P04,P05: move carries all elements");
}
template <typename T, typename A>
void sure_assign_from()
{
    S<T, A> x, y;
    if (vp_bool())
    {
        x.v = y.v;
        vp_assert(x.v.size() == y.n && y.v.size() == y.n, "P04: assignment takes all elements");
        same(y.v, y.s, y.n, "P04: assignment leaves the source alone");
    }
    else
    {
        x.v = std::move(y.v);
        vp_assert(x.v.size() == y.n && y.v.size() == 0, "P04,P05: move assignment takes all elements");
    }
    same(x.v, y.s, y.n, "P04,P05: assignment takes the elements");
    vp_assert(x.v.max_size() == y.v.max_size(), "P03: assignment takes the maximum");
}
template <typename T, typename A>
void sure_range()
{
    const std::size_t n = vp_size(), max = vp_size();
    const T*          s    = vp::array<T>(n);
    std::size_t       size = 0;
    const bool        ok   = done([&] { V<T, A> v(s, s + n, max, A::make()); size = v.size(); });
#if defined(__cpp_exceptions)
    vp_assert(ok == (n <= max), "P03: a range is refused exactly above the maximum");
    vp_assert(size == (n <= max ? n : 0), "P03,P04: range constructor takes all elements");
#else
    vp_assert(size == (n <= max ? n : max), "P03,P04: range constructor takes what the maximum allows");
#endif
    (void) ok;
}


using E = vp::Elem;
using H = vp::Thrower;
using C = vp::Calm;
using U = std::uint32_t;
using A0E = vp::Al<E>;
using A1E = vp::Al<E, vp::CopyTraits>;
using A2E = vp::Al<E, vp::MoveTraits>;
using A3E = vp::Al<E, vp::EqualTraits>;
using A0H = vp::Al<H>;
using A0C = vp::Al<C>;
using A0U = vp::Al<U>;
#define X(f, t, a) VP_ENTRY(h_##f##_##t##a) { f<t, A##a##t>(); }
#define ALL(f) X(f, E, 0) X(f, H, 0) X(f, U, 0)
#define PROP(f) X(f, E, 1) X(f, E, 2) X(f, E, 3)
ALL(ctor_range) ALL(ctor_list) ALL(ctor_plain) ALL(ctor_copy) ALL(ctor_move) ALL(ctor_move_alloc) ALL(ctor_copy_alloc)
PROP(ctor_move_alloc)
ALL(assign_copy) PROP(assign_copy) ALL(assign_move) PROP(assign_move) ALL(assign_self) PROP(assign_self)
ALL(push_copy) ALL(push_move) ALL(emplace) ALL(push_own) ALL(emplace_own)
ALL(pop) ALL(clear) ALL(resize_value) ALL(resize_default) ALL(resize_own) ALL(assign_value) ALL(assign_own)
ALL(reserve) ALL(shrink)
X(equal, E, 0) X(equal, C, 0) ALL(equal_self)
ALL(access)
X(push_copy, C, 0) X(resize_value, C, 0) X(shrink, C, 0) X(assign_copy, C, 0) X(assign_move, C, 0)

using A4C = vp::Al<C, vp::SureTraits>;
using A4U = vp::Al<U, vp::SureTraits>;
#define SURE(f) X(f, C, 4) X(f, U, 4)
SURE(sure_push) SURE(sure_push_move) SURE(sure_emplace) SURE(sure_resize) SURE(sure_assign) SURE(sure_reserve)
SURE(sure_copy) SURE(sure_assign_from) SURE(sure_range)

using A5E = vp::AlRe<E, true>;
using A5H = vp::AlRe<H, true>;
using A5U = vp::AlRe<U, false>;
using A6E = vp::AlRe<E, false>;
#define RE(f) X(f, E, 5) X(f, H, 5) X(f, U, 5)
RE(ctor_range) RE(push_copy) RE(emplace) RE(resize_value) RE(reserve) RE(shrink) RE(assign_value) RE(push_own)
X(assign_copy, U, 5) X(assign_move, U, 5) X(assign_copy, E, 5) X(assign_move, E, 5)
X(reserve, E, 6) X(shrink, E, 6)

using A7E = vp::AlSel<E>;
using A7U = vp::AlSel<U>;
#define SEL(f) X(f, E, 7) X(f, U, 7)
SEL(ctor_copy) SEL(ctor_copy_alloc) SEL(ctor_move_alloc) SEL(ctor_move) SEL(assign_copy) SEL(assign_move)
