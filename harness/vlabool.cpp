// Client programs of cetl::VariableLengthArray<bool>.
#include "vp.hpp"
#include "cetl/variable_length_array.hpp"

using A  = vp::Al<bool>;
using AC = vp::Al<bool, vp::CopyTraits>;
using AM = vp::Al<bool, vp::MoveTraits>;
using AL = vp::AlSel<bool>;
template <typename Al_>
using V = cetl::VariableLengthArray<bool, Al_>;

#define INV(v)                                                                  \
    vp_assert((v).size() <= (v).capacity(), "P03,P07: size <= capacity");           \
    vp_assert((v).size() <= (v).max_size(), "P03,P07: size <= max_size");           \
    vp_assert((v).capacity() <= (v).max_size(), "P03,P07: capacity <= max_size");  \
    vp_assert((v).empty() == ((v).size() == 0), "P03,P07: empty iff size is zero")

// ------------------------------------------------------------------------------------- counts, any number of bits
template <typename Al_>
struct S
{
    std::size_t n, c, max;
    Al_         a;
    V<Al_>      v;
    S()
        : n(vp_size())
        , c(vp_size())
        , max(vp_size())
        , a(Al_::make())
        , v(max, a)
    {
        vp_assume(n <= max && c <= max);
        v.reserve(c);
        v.resize(n, vp_bool());
#if !defined(__cpp_exceptions)
        vp_assume(v.size() == n);
#endif
        vp_assert(v.size() == n, "P04,P07: resize sets the size");
        INV(v);
    }
};

// the same, with the fewest distinctions made on the way
template <typename Al_>
struct T
{
    std::size_t n, max;
    Al_         a;
    V<Al_>      v;
    explicit T(const bool spare)
        : n(vp_size())
        , max(vp_size())
        , a(Al_::make())
        , v(max, a)
    {
        vp_assume(n <= max);
        if (spare)
        {
            v.reserve(max);
        }
        v.resize(n, false);
#if !defined(__cpp_exceptions)
        vp_assume(v.size() == n);
#endif
    }
};

template <typename Al_>
void push()
{
    S<Al_> x;
    VP_TRY
    {
        x.v.push_back(vp_bool());
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == x.n + 1, "P04,P07: one more bit");
#else
        vp_assert(x.v.size() == x.n + 1 || x.v.size() == x.n, "P03,P07: one more bit or none");
#endif
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03,P07: a failed insertion leaves the array unchanged");
    }
}
template <typename Al_>
void emplace()
{
    S<Al_> x;
    VP_TRY
    {
        x.v.emplace_back(vp_bool());
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == x.n + 1, "P04,P07: one more bit");
#endif
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03,P07: a failed insertion leaves the array unchanged");
    }
}
template <typename Al_>
void pop()
{
    S<Al_> x;
    x.v.pop_back();
    INV(x.v);
    vp_assert(x.v.size() == (x.n == 0 ? 0 : x.n - 1), "P04,P07: one bit less");
    x.v.clear();
    INV(x.v);
    vp_assert(x.v.size() == 0, "P04,P07: clear removes all bits");
}
template <typename Al_>
void resize()
{
    S<Al_>            x;
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.resize(k);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == k && k <= x.max, "P04,P07: resize sets the size");
#else
        vp_assert(x.v.size() <= k || x.v.size() == x.n, "P03,P07: resize does not exceed the request");
#endif
    }
    VP_CATCH
    {
        INV(x.v);
        vp_assert(x.v.size() == x.n, "P03,P07: a failed resize leaves the array unchanged");
    }
}
template <typename Al_>
void assign_value()
{
    S<Al_>            x;
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.assign(k, vp_bool());
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == k && k <= x.max, "P04,P07: assign sets the size");
#endif
    }
    VP_CATCH
    {
        INV(x.v);
    }
}
template <typename Al_>
void reserve()
{
    S<Al_>            x;
    const std::size_t k = vp_size();
    VP_TRY
    {
        x.v.reserve(k);
#if defined(__cpp_exceptions)
        vp_assert(x.v.capacity() >= k, "P03,P07: reserve provides the capacity");
#endif
    }
    VP_CATCH
    {
    }
    INV(x.v);
    vp_assert(x.v.size() == x.n, "P03,P07: reserve keeps the size");
    x.v.shrink_to_fit();
    INV(x.v);
    vp_assert(x.v.size() == x.n, "P04,P07: shrinking keeps the size");
}
template <typename Al_>
void copy()
{
    S<Al_> x;
    VP_TRY
    {
        V<Al_> w(x.v);
        INV(w);
        vp_assert(w.get_allocator() == std::allocator_traits<Al_>::select_on_container_copy_construction(x.a),
                  "P02,P07: a copy uses the allocator that the traits select");
#if defined(__cpp_exceptions)
        vp_assert(w.size() == x.n, "P04,P07: copy has the same size");
#endif
        const Al_ b = Al_::make();
        V<Al_>    u(x.v, b);
        INV(u);
        vp_assert(u.get_allocator() == b, "P02,P07: uses the given allocator");
#if defined(__cpp_exceptions)
        vp_assert(u.size() == x.n, "P04,P07: copy has the same size");
#endif
    }
    VP_CATCH
    {
    }
    INV(x.v);
    vp_assert(x.v.size() == x.n, "P04,P07: copying leaves the source alone");
}
template <typename Al_>
void move()
{
    S<Al_> x;
    V<Al_> w(std::move(x.v));
    INV(w);
    vp_assert(w.size() == x.n, "P04,P07: move keeps the size");
    vp_assert(w.get_allocator() == x.a, "P02,P07: move keeps the allocator");
    vp_assert(x.v.size() == 0, "P05,P07: moved-from array is empty");
    INV(x.v);
    VP_TRY
    {
        const Al_ b = Al_::make();
        V<Al_>    u(std::move(w), b);
        INV(u);
        vp_assert(u.get_allocator() == b, "P02,P07: uses the given allocator");
        INV(w);
#if defined(__cpp_exceptions)
        vp_assert(u.size() == x.n, "P04,P07: move keeps the size");
        vp_assert(w.size() == 0, "P05,P07: moved-from array is empty");
#endif
        x.v.push_back(true);
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == 1, "P05,P07: moved-from array can be used again");
#endif
    }
    VP_CATCH
    {
        INV(x.v);
        INV(w);
    }
}
template <typename Al_>
void assign_copy()
{
    T<Al_> x(true), y(false);
    VP_TRY
    {
        x.v = y.v;
        INV(x.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == y.n, "P04,P07: assignment takes all bits");
#endif
        vp_assert(x.v.get_allocator() == (Al_::propagate_on_container_copy_assignment::value ? y.a : x.a), "P02,P07: allocator propagation");
    }
    VP_CATCH
    {
        INV(x.v);
    }
    INV(y.v);
    vp_assert(y.v.size() == y.n, "P04,P07: assignment leaves the source alone");
}
template <typename Al_>
void assign_move()
{
    T<Al_> x(true), y(false);
    VP_TRY
    {
        x.v = std::move(y.v);
        INV(x.v);
        INV(y.v);
#if defined(__cpp_exceptions)
        vp_assert(x.v.size() == y.n, "P04,P07: assignment takes all bits");
        vp_assert(y.v.size() == 0, "P05,P07: moved-from array is empty");
#endif
        vp_assert(x.v.get_allocator() == (Al_::propagate_on_container_move_assignment::value ? y.a : x.a), "P02,P07: allocator propagation");
        V<Al_>& r = x.v;
        const std::size_t k = x.v.size();
        x.v = std::move(r);
        vp_assert(x.v.size() == k, "P05,P07: self move assignment keeps the array");
        x.v = r;
        vp_assert(x.v.size() == k, "P05,P07: self assignment keeps the array");
    }
    VP_CATCH
    {
        INV(x.v);
        INV(y.v);
    }
}
template <typename Al_>
void access()
{
    S<Al_>            x;
    const std::size_t i = vp_size();
#if defined(__cpp_exceptions)
    bool ok = false, refused = false;
    try
    {
        (void) static_cast<bool>(x.v.at(i));
        ok = true;
    } catch (const std::out_of_range&)
    {
        refused = true;
    }
    vp_assert(ok != refused && refused == (i >= x.n), "P04,P07: at refuses exactly the positions past the end");
#endif
    vp_assume(i < x.n);
    (void) static_cast<bool>(x.v[i]);
    x.v[i] = vp_bool();
    x.v[i].flip();
    (void) static_cast<bool>(x.v.front());
    (void) static_cast<bool>(x.v.back());
    INV(x.v);
    vp_assert(static_cast<std::size_t>(x.v.end() - x.v.begin()) == x.n, "P04,P07: the range spans all bits");
    vp_assert(x.v.size() == x.n, "P04,P07: writing bits keeps the size");
}

// ------------------------------------------- with memory to spare, an operation succeeds exactly within the maximum
template <typename F>
bool done(F f)
{
    bool ok = false;
    VP_TRY
    {
        f();
        ok = true;
    }
    VP_CATCH
    {
    }
    return ok;
}
template <typename Al_>
void sure()
{
    T<Al_>            x(vp_bool());
    const std::size_t k    = vp_size();
    const int         what = vp_int();
    const bool        add  = what == 0 || what == 1;
    const bool        in   = add ? x.n < x.v.max_size() : k <= x.v.max_size();
    const bool        ok   = done([&] {
        switch (what)
        {
        case 0: x.v.push_back(false); break;
        case 1: x.v.emplace_back(true); break;
        case 2: x.v.resize(k, false); break;
        case 3: x.v.assign(k, true); break;
        default: x.v.reserve(k); break;
        }
    });
    INV(x.v);
#if defined(__cpp_exceptions)
    vp_assert(ok == in, "P03,P07: refused exactly above the maximum");
    vp_assert(what < 0 || what > 3 || x.v.size() == (in ? (add ? x.n + 1 : k) : x.n), "P03,P07: succeeds exactly within the maximum");
#else
    vp_assert(what < 0 || what > 3 || x.v.size() == (in ? (add ? x.n + 1 : k) : x.max), "P03,P07: succeeds within the maximum");
#endif
    vp_assert(!in || (what >= 0 && what <= 3) || x.v.capacity() >= k, "P03,P07: reserve provides the capacity");
    (void) ok;
}
template <typename Al_>
void sure_from()
{
    T<Al_>    x(vp_bool()), y(vp_bool());
    const int what = vp_int();
    switch (what)
    {
    case 0: {
        V<Al_> w(y.v);
        vp_assert(w.size() == y.n && y.v.size() == y.n, "P04,P07: copy has the same size");
        break;
    }
    case 1: {
        V<Al_> w(y.v, Al_::make());
        vp_assert(w.size() == y.n && y.v.size() == y.n, "P04,P07: copy has the same size");
        break;
    }
    case 2: {
        V<Al_> w(std::move(y.v), Al_::make());
        vp_assert(w.size() == y.n && y.v.size() == 0, "P05,P07: move carries all bits");
        break;
    }
    case 3:
        x.v = y.v;
        vp_assert(x.v.size() == y.n && y.v.size() == y.n, "P04,P07: assignment takes all bits");
        break;
    default:
        x.v = std::move(y.v);
        vp_assert(x.v.size() == y.n && y.v.size() == 0, "P05,P07: move assignment takes all bits");
        break;
    }
}

// --------------------------------------------------------------- contents, at the sizes around the byte boundaries
constexpr bool pat(const unsigned i, const unsigned seed)
{
    return (((i + seed) * 5U) % 7U) < 3U;
}
template <unsigned N>
void fill(V<A>& v, const unsigned seed)
{
    for (unsigned i = 0; i < N; ++i)
    {
        v.push_back(pat(i, seed));
    }
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == N);
#endif
}
// bits [from, to) of v follow the pattern
#define BITS(v, from, to, seed, shift, msg)                                     \
    for (unsigned i_ = (from); i_ < (to); ++i_)                                 \
    {                                                                           \
        vp_assert(static_cast<bool>((v)[i_]) == pat(i_ - (shift), (seed)), msg); \
    }
#define CONST_BITS(v, from, to, b, msg)                       \
    for (unsigned i_ = (from); i_ < (to); ++i_)               \
    {                                                         \
        vp_assert(static_cast<bool>((v)[i_]) == (b), msg);    \
    }

template <unsigned N>
void content()
{
    const bool b = vp_bool();
    V<A>       v(A::make());
    fill<N>(v, 1);
    vp_assert(v.size() == N, "P04,P07: appended bits are counted");
    BITS(v, 0, N, 1, 0, "P04,P07: bits keep their order");
    v.push_back(b);
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == N + 1);
#endif
    BITS(v, 0, N, 1, 0, "P04,P07: existing bits stay");
    vp_assert(static_cast<bool>(v[N]) == b && static_cast<bool>(v.back()) == b, "P04,P07: the new bit comes last");
    vp_assert(static_cast<bool>(v.front()) == (N == 0 ? b : pat(0, 1)), "P04,P07: front is the first bit");
    v.pop_back();
    v.push_back(!b);
    BITS(v, 0, N, 1, 0, "P04,P07: existing bits stay");
    vp_assert(static_cast<bool>(v[N]) == !b, "P04,P07: a replaced bit has the new value");
    v[N] = b;
    vp_assert(static_cast<bool>(v[N]) == b, "P04,P07: a written bit has the new value");
    v[N].flip();
    vp_assert(static_cast<bool>(v[N]) == !b, "P04,P07: flip inverts the bit");
    vp_assert(~v[N] == b, "P04,P07: inverse of the bit");
    BITS(v, 0, N, 1, 0, "P04,P07: other bits stay");
    unsigned k = 0;
    for (auto it = v.begin(); it != v.end(); ++it)
    {
        if (k < N)
        {
            vp_assert(static_cast<bool>(*it) == pat(k, 1), "P04,P07: iteration visits the bits in order");
        }
        ++k;
    }
    vp_assert(k == N + 1, "P04,P07: iteration visits all bits");
    v.shrink_to_fit();
    BITS(v, 0, N, 1, 0, "P04,P07: shrinking keeps the bits");
}
template <unsigned N, unsigned K>
void resized()
{
    V<A> v(A::make());
    fill<N>(v, 2);
    const bool b = vp_bool();
    v.resize(K, b);
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == K);
#endif
    vp_assert(v.size() == K, "P04,P07: resize sets the size");
    BITS(v, 0, (N < K ? N : K), 2, 0, "P04,P07: existing bits stay");
    if (b)
    {
        CONST_BITS(v, N, K, true, "P04,P07: new bits have the given value");
    }
    else
    {
        CONST_BITS(v, N, K, false, "P04,P07: new bits have the given value");
    }
    v.resize(N);
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == N);
#endif
    CONST_BITS(v, K, N, false, "P04,P07: new bits are false by default");
    v.assign(K, true);
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == K);
#endif
    CONST_BITS(v, 0, K, true, "P04,P07: all bits have the assigned value");
    v.assign(N, false);
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == N);
#endif
    CONST_BITS(v, 0, N, false, "P04,P07: all bits have the assigned value");
}
template <unsigned N, unsigned K>
void copied()
{
    V<A> v(A::make()), w(A::make());
    fill<N>(v, 3);
    fill<K>(w, 4);
    V<A> c(v);
#if !defined(__cpp_exceptions)
    vp_assume(c.size() == N);
#endif
    BITS(c, 0, N, 3, 0, "P04,P07: copy has the same bits");
    vp_assert(c == v && !(c != v), "P06,P07: a copy is equal");
    w = v;
#if !defined(__cpp_exceptions)
    vp_assume(w.size() == N);
#endif
    vp_assert(w.size() == N, "P04,P07: assignment takes all bits");
    BITS(w, 0, N, 3, 0, "P04,P07: assignment takes the bits");
    BITS(v, 0, N, 3, 0, "P04,P07: assignment leaves the source alone");
    V<A> m(std::move(w));
    BITS(m, 0, N, 3, 0, "P04,P07: move keeps the bits");
    V<A> x(A::make());
    fill<K>(x, 5);
    x = std::move(m);
#if !defined(__cpp_exceptions)
    vp_assume(x.size() == N);
#endif
    BITS(x, 0, N, 3, 0, "P04,P07: move assignment takes the bits");
    vp_assert(x == v, "P06,P07: moved bits are equal");
    V<A> l(v.begin(), v.end(), A::make());
#if !defined(__cpp_exceptions)
    vp_assume(l.size() == N);
#endif
    BITS(l, 0, N, 3, 0, "P04,P07: range constructor takes the bits in order");
}
// same bits, reached in different ways
template <unsigned N>
void equal()
{
    V<A> v(A::make()), w(A::make());
    fill<N>(v, 1);
    w.resize(N + 9, vp_bool());
#if !defined(__cpp_exceptions)
    vp_assume(w.size() == N + 9);
#endif
    w.resize(N);
    for (unsigned i = 0; i < N; ++i)
    {
        w[i] = pat(i, 1);
    }
    vp_assert(v == w && w == v, "P06,P07: equal bits compare equal");
    vp_assert(!(v != w), "P06,P07: != is the negation of ==");
    for (unsigned i = 0; i < N; ++i)
    {
        w[i].flip();
        vp_assert(!(v == w) && v != w, "P06,P07: arrays that differ in one bit are unequal");
        w[i].flip();
    }
    w.push_back(vp_bool());
#if !defined(__cpp_exceptions)
    vp_assume(w.size() == N + 1);
#endif
    vp_assert(!(v == w), "P06,P07: arrays of different size are unequal");
}
void list()
{
    V<A> v({true, false, true, true, false, false, true, true, false, true}, A::make());
#if !defined(__cpp_exceptions)
    vp_assume(v.size() == 10);
#endif
    vp_assert(v.size() == 10, "P04,P07: list constructor takes all bits");
    vp_assert(v[0] && !v[1] && v[2] && v[3] && !v[4] && !v[5] && v[6] && v[7] && !v[8] && v[9], "P04,P07: list constructor keeps the order");
}

// read-only access and references
template <unsigned N>
void reads()
{
    V<A> v(A::make());
    fill<N>(v, 2);
    const V<A>& c = v;
    for (unsigned i = 0; i < N; ++i)
    {
        vp_assert(c[i] == pat(i, 2), "P04,P07: a constant array has the same bits");
#if defined(__cpp_exceptions)
        vp_assert(c.at(i) == pat(i, 2) && static_cast<bool>(v.at(i)) == pat(i, 2), "P04,P07: at() reads the bit");
#endif
    }
    if (N > 0)
    {
        vp_assert(c.front() == pat(0, 2), "P04,P07: front is the first bit");
        vp_assert(c.back() == pat(N - 1, 2), "P04,P07: back is the last bit");
        vp_assert(static_cast<bool>(v.back()) == pat(N - 1, 2), "P04,P07: back is the last bit");
    }
    unsigned k = 0;
    for (const bool b : c)
    {
        vp_assert(b == pat(k, 2), "P04,P07: iteration visits the bits in order");
        ++k;
    }
    vp_assert(k == N, "P04,P07: iteration visits all bits");
    for (unsigned i = 0; i < N; ++i)
    {
        for (unsigned j = 0; j < N; j += 5)
        {
            vp_assert((v[i] == v[j]) == (pat(i, 2) == pat(j, 2)), "P04,P07: references compare as their bits");
            vp_assert((v[i] != v[j]) == (pat(i, 2) != pat(j, 2)), "P04,P07: references compare as their bits");
        }
    }
    if (N > 1)
    {
        const bool b = vp_bool();
        v[0]         = b;
        v[N - 1]     = v[0];
        vp_assert(static_cast<bool>(v[N - 1]) == b && static_cast<bool>(v[0]) == b, "P04,P07: a bit is assigned from another");
        BITS(v, 1, N - 1, 2, 0, "P04,P07: other bits stay");
        v.front() = !b;
        v.back()  = v.front();
        vp_assert(c[N - 1] == !b && c[0] == !b, "P04,P07: front and back can be written");
        auto r = v[0];
        v[0]   = b;
        v[N - 1] = r;
        vp_assert(static_cast<bool>(r) == b && c[N - 1] == b, "P04,P07: a reference follows its bit");
        BITS(v, 1, N - 1, 2, 0, "P04,P07: other bits stay");
    }
#if defined(__cpp_exceptions)
    const std::size_t at = vp_size();
    vp_assume(at >= N);
    bool thrown = false;
    try
    {
        (void) c.at(at);
    }
    catch (const std::out_of_range&)
    {
        thrown = true;
    }
    vp_assert(thrown, "P04,P07: at() past the end throws out_of_range");
    thrown = false;
    try
    {
        (void) v.at(at);
    }
    catch (const std::out_of_range&)
    {
        thrown = true;
    }
    vp_assert(thrown, "P04,P07: at() past the end throws out_of_range");
#endif
}
// iterators are random access iterators over the bits
template <typename W, typename It>
void iterators(const unsigned n, W& v, It b, It e)
{
    vp_assert(e - b == n && b - e == -static_cast<std::ptrdiff_t>(n), "P04,P07: distance of iterators");
    vp_assert(v.begin() == b && v.end() == e, "P04,P07: begin and end");
    It p = b;
    for (unsigned i = 0; i < n; ++i)
    {
        const It q = b + i;
        vp_assert(p == q && !(p != q) && p <= q && p >= q && !(p < q) && !(p > q), "P04,P07: order of equal iterators");
        vp_assert(p != e && p < e && e > p && p <= e && e >= p && !(p > e) && !(p >= e) && !(e < p) && !(e <= p),
                  "P04,P07: order of iterators");
        vp_assert(static_cast<bool>(*q) == pat(i, 3) && static_cast<bool>(b[i]) == pat(i, 3) &&
                      static_cast<bool>(*(e - (n - i))) == pat(i, 3) && static_cast<bool>(q[0]) == pat(i, 3),
                  "P04,P07: iterator arithmetic reaches the bit");
        It r = b;
        r += i;
        vp_assert(r == p && static_cast<bool>(*r) == pat(i, 3), "P04,P07: += moves forward");
        r = e;
        r -= (n - i);
        vp_assert(r == p && static_cast<bool>(*r) == pat(i, 3), "P04,P07: -= moves back");
        const It old = p++;
        vp_assert(old == q && p - q == 1 && p - b == i + 1, "P04,P07: postfix increment");
    }
    vp_assert(p == e, "P04,P07: incrementing reaches the end");
    for (unsigned i = n; i > 0; --i)
    {
        const It old = p;
        if (i % 2 == 0)
        {
            const It was = p--;
            vp_assert(was == old, "P04,P07: postfix decrement");
        }
        else
        {
            const It now = --p;
            vp_assert(now == p, "P04,P07: prefix decrement");
        }
        vp_assert(old - p == 1 && static_cast<bool>(*p) == pat(i - 1, 3), "P04,P07: decrementing visits the bits backwards");
    }
    vp_assert(p == b, "P04,P07: decrementing reaches the begin");
}
template <unsigned N>
void iterate()
{
    V<A> v(A::make());
    fill<N>(v, 3);
    const V<A>& c = v;
    iterators(N, v, v.begin(), v.end());
    iterators(N, c, c.begin(), c.end());
    vp_assert(c.cbegin() == c.begin() && c.cend() == c.end(), "P04,P07: begin and end");
    V<A> w(A::make());
    fill<N>(w, 3);
    vp_assert(N == 0 || v.begin() != w.begin(), "P04,P07: iterators of different arrays are unequal");
    if (N > 0)
    {
        const bool b = vp_bool();
        auto       i = v.begin();
        i += N - 1;
        *i = b;
        vp_assert(c[N - 1] == b, "P04,P07: an iterator writes its bit");
        i[0].flip();
        vp_assert(c[N - 1] == !b, "P04,P07: an iterator writes its bit");
        BITS(v, 0, N - 1, 3, 0, "P04,P07: other bits stay");
    }
}

#define X(f) \
    VP_ENTRY(h_##f##_0) { f<A>(); } \
    VP_ENTRY(h_##f##_1) { f<AC>(); } \
    VP_ENTRY(h_##f##_2) { f<AM>(); } \
    VP_ENTRY(h_##f##_3) { f<AL>(); }
#define Y(f) VP_ENTRY(h_##f) { f<A>(); }
Y(push) Y(emplace) Y(pop) Y(resize) Y(assign_value) Y(reserve) X(copy) X(move) X(assign_copy) X(assign_move) Y(access)
#define Z1(f, n) VP_ENTRY(h_##f##_##n) { f<n>(); }
#define ZN(f) Z1(f, 0) Z1(f, 1) Z1(f, 6) Z1(f, 7) Z1(f, 8) Z1(f, 9) Z1(f, 15) Z1(f, 16) Z1(f, 17)
ZN(content) ZN(equal) ZN(reads)
Z1(iterate, 0) Z1(iterate, 1) Z1(iterate, 8) Z1(iterate, 9)
#define Z2(f, n, k) VP_ENTRY(h_##f##_##n##_##k) { f<n, k>(); }
#define ZNK(f) Z2(f, 0, 5) Z2(f, 0, 8) Z2(f, 3, 6) Z2(f, 3, 8) Z2(f, 7, 9) Z2(f, 8, 8) Z2(f, 8, 16) Z2(f, 8, 17) Z2(f, 9, 3) Z2(f, 17, 8) Z2(f, 12, 0)
ZNK(resized) ZNK(copied)
VP_ENTRY(h_list) { list(); }
using AS = vp::Al<bool, vp::SureTraits>;
VP_ENTRY(h_sure) { sure<AS>(); }
VP_ENTRY(h_sure_from) { sure_from<AS>(); }
