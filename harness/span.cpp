// Client programs of cetl::pf20::span.
#include "vp.hpp"
#include "cetl/pf20/span.hpp"
#include <array>

using cetl::pf20::dynamic_extent;
using cetl::pf20::span;

using U  = std::uint32_t;
using D  = span<U>;
using DC = span<const U>;

static_assert(dynamic_extent == static_cast<std::size_t>(-1), "P21: dynamic_extent");
static_assert(D::extent == dynamic_extent && span<U, 4>::extent == 4, "P21: extent");
static_assert(std::is_convertible<D, DC>::value && !std::is_convertible<DC, D>::value, "P21: only const is added");
static_assert(!std::is_constructible<D, DC>::value && !std::is_constructible<span<U, 4>, span<const U, 4>>::value, "P21: only const is added");
static_assert(std::is_convertible<span<U, 4>, span<const U, 4>>::value && std::is_convertible<span<U, 4>, D>::value, "P21: conversions");
static_assert(!std::is_constructible<span<U, 4>, span<U, 5>>::value, "P21: extents must agree");
static_assert(std::is_constructible<span<U, 4>, D>::value && !std::is_convertible<D, span<U, 4>>::value, "P21: explicit conversion to a static extent");
static_assert(!std::is_constructible<span<U>, std::array<std::uint64_t, 2>&>::value, "P21: element types must agree");
static_assert(!std::is_constructible<span<U>, const std::array<U, 2>&>::value, "P21: const arrays give const spans");
static_assert(std::is_default_constructible<D>::value && std::is_default_constructible<span<U, 0>>::value && !std::is_default_constructible<span<U, 3>>::value,
              "P21: only possibly empty spans are default constructible");
static_assert(std::is_trivially_copyable<D>::value && std::is_nothrow_copy_constructible<D>::value, "P21: spans copy trivially");

#define SPAN(s, p, n, msg)                                                                       \
    vp_assert((s).data() == (p), "P21: data: " msg);                                             \
    vp_assert((s).size() == (n), "P21: size: " msg);                                             \
    vp_assert((s).empty() == ((n) == 0U), "P21: empty: " msg);                                   \
    vp_assert((s).size_bytes() == (n) * sizeof(*(s).data()), "P21: size_bytes: " msg);           \
    vp_assert((s).begin() == (p) && (s).end() == (p) + (n), "P21: range: " msg);                 \
    vp_assert((s).rbegin().base() == (s).end() && (s).rend().base() == (s).begin(), "P21: reverse range: " msg)

static U* any(std::size_t n)
{
    return const_cast<U*>(vp::array<U>(n));
}

VP_ENTRY(h_empty)
{
    const D          a;
    const span<U, 0> b;
    vp_assert(a.data() == nullptr && a.size() == 0 && a.empty() && a.size_bytes() == 0, "P21: default constructed span");
    vp_assert(b.data() == nullptr && b.size() == 0 && b.empty(), "P21: default constructed span");
    vp_cover("end");
}
VP_ENTRY(h_pointer_count)
{
    const std::size_t n = vp_size();
    U* const          p = any(n);
    const D           s(p, n);
    SPAN(s, p, n, "pointer and count");
    const D t(p, p + n);
    SPAN(t, p, n, "two pointers");
    const DC c(s);
    SPAN(c, p, n, "added const");
    D e;
    e = s;
    SPAN(e, p, n, "assigned");
    const D f(e);
    SPAN(f, p, n, "copied");
    vp_cover("end");
}
VP_ENTRY(h_arrays)
{
    U                   a[5] = {};
    std::array<U, 3>    b{};
    const std::array<U, 3> c{};
    const U             d[2] = {};
    const D             s1(a);
    const D             s2(b);
    const DC            s3(b);
    const DC            s4(c);
    const DC            s5(d);
    const span<U, 5>    t1(a);
    const span<U, 3>    t2(b);
    const span<const U, 3> t3(b);
    const span<const U, 3> t4(c);
    SPAN(s1, a, 5U, "C array");
    SPAN(s2, b.data(), 3U, "array");
    SPAN(s3, b.data(), 3U, "array, const elements");
    SPAN(s4, c.data(), 3U, "const array");
    SPAN(s5, d, 2U, "const C array");
    SPAN(t1, a, 5U, "C array, static");
    SPAN(t2, b.data(), 3U, "array, static");
    SPAN(t3, b.data(), 3U, "array, static, const elements");
    SPAN(t4, c.data(), 3U, "const array, static");
    const D          u1(t1);
    const DC         u2(t1);
    const span<U, 5> u3(s1);
    const span<const U, 5> u4(t1);
    SPAN(u1, a, 5U, "static to dynamic");
    SPAN(u2, a, 5U, "static to dynamic, const");
    SPAN(u3, a, 5U, "dynamic to static");
    SPAN(u4, a, 5U, "static, const");
    const span<U, 5> u5(&a[0], 5U);
    const span<U, 5> u6(&a[0], &a[5]);
    SPAN(u5, a, 5U, "static from pointer and count");
    SPAN(u6, a, 5U, "static from two pointers");
    vp_cover("end");
}
VP_ENTRY(h_access)
{
    const std::size_t n = vp_size();
    const std::size_t i = vp_size();
    vp_assume(i < n);
    U* const p = any(n);
    const D  s(p, n);
    vp_assert(&s[i] == p + i, "P21: indexing names the element");
    vp_assert(&s.front() == p && &s.back() == p + n - 1, "P21: front and back");
    vp_assert(&*s.begin() == p && &*s.rbegin() == p + n - 1, "P21: iterators name the elements");
    vp_assert(s[i] == p[i], "P21: element value");
    s[i] = 77U;
    vp_assert(p[i] == 77U, "P21: a span gives access to the elements");
    const DC c(s);
    vp_assert(c[i] == 77U && &c.back() == p + n - 1, "P21: access through a const span");
    vp_cover("end");
}
VP_ENTRY(h_access_static)
{
    const std::size_t i = vp_size();
    vp_assume(i < 5);
    U          a[5] = {1, 2, 3, 4, 5};
    span<U, 5> s(a);
    vp_assert(&s[i] == a + i && &s.front() == a && &s.back() == a + 4, "P21: access, static extent");
    U sum = 0;
    for (const U x : s)
    {
        sum = sum * 10U + x;
    }
    vp_assert(sum == 12345U, "P21: iteration visits the elements in order");
    sum = 0;
    for (auto it = s.rbegin(); it != s.rend(); ++it)
    {
        sum = sum * 10U + *it;
    }
    vp_assert(sum == 54321U, "P21: reverse iteration visits the elements backwards");
    vp_cover("end");
}
VP_ENTRY(h_sub_dynamic)
{
    const std::size_t n = vp_size();
    U* const          p = any(n);
    const D           s(p, n);
    const std::size_t c = vp_size();
    vp_assume(c <= n);
    const D f = s.first(c);
    const D l = s.last(c);
    SPAN(f, p, c, "first(n)");
    SPAN(l, p + (n - c), c, "last(n)");
    const std::size_t o = vp_size();
    vp_assume(o <= n && c <= n - o);
    const D a = s.subspan(o, c);
    const D b = s.subspan(o);
    SPAN(a, p + o, c, "subspan(o, n)");
    SPAN(b, p + o, n - o, "subspan(o)");
    vp_cover("end");
}
VP_ENTRY(h_sub_dynamic_fixed)
{
    const std::size_t n = vp_size();
    vp_assume(n >= 5);
    U* const p = any(n);
    const D  s(p, n);
    const span<U, 3> f = s.first<3>();
    const span<U, 3> l = s.last<3>();
    const span<U, 3> a = s.subspan<2, 3>();
    const D          b = s.subspan<2>();
    const span<U, 0> z = s.first<0>();
    const span<U, 0> y = s.last<0>();
    SPAN(f, p, 3U, "first<n>");
    SPAN(l, p + (n - 3), 3U, "last<n>");
    SPAN(a, p + 2, 3U, "subspan<o, n>");
    SPAN(b, p + 2, n - 2, "subspan<o>");
    SPAN(z, p, 0U, "first<0>");
    SPAN(y, p + n, 0U, "last<0>");
    vp_cover("end");
}
VP_ENTRY(h_sub_static)
{
    U                a[6] = {};
    const span<U, 6> s(a);
    const span<U, 2> f = s.first<2>();
    const span<U, 2> l = s.last<2>();
    const span<U, 3> m = s.subspan<1, 3>();
    const span<U, 4> r = s.subspan<2>();
    SPAN(f, a, 2U, "first<n>, static");
    SPAN(l, a + 4, 2U, "last<n>, static");
    SPAN(m, a + 1, 3U, "subspan<o, n>, static");
    SPAN(r, a + 2, 4U, "subspan<o>, static");
    const span<U, 0> e = s.subspan<6>();
    SPAN(e, a + 6, 0U, "subspan<size>, static");
    const std::size_t c = vp_size(), o = vp_size();
    vp_assume(o <= 6 && c <= 6 - o);
    const D g = s.first(c);
    const D k = s.last(c);
    const D p = s.subspan(o, c);
    const D q = s.subspan(o);
    SPAN(g, a, c, "first(n), static");
    SPAN(k, a + (6 - c), c, "last(n), static");
    SPAN(p, a + o, c, "subspan(o, n), static");
    SPAN(q, a + o, 6 - o, "subspan(o), static");
    vp_cover("end");
}
VP_ENTRY(h_static_copy)
{
    U          a[2] = {}, b[2] = {};
    span<U, 2> s(a);
    span<U, 2> t(b);
    SPAN(t, b, 2U, "static");
    t = s;
    SPAN(t, a, 2U, "static, assigned");
    span<U, 2> v(t);
    SPAN(v, a, 2U, "static, copied");
    vp_cover("end");
}
// elements of any size
VP_ENTRY(h_elem)
{
    const std::size_t     n = vp_size();
    const vp::Elem* const p = vp::array<vp::Elem>(n);
    span<const vp::Elem>  s(p, n);
    SPAN(s, p, n, "objects");
    const std::size_t i = vp_size();
    vp_assume(i < n);
    vp_assert(vp::val(s[i]) == vp::val(p[i]), "P21: indexing names the element");
    vp_assert(vp::val(s.subspan(i).front()) == vp::val(p[i]) && vp::val(s.first(i + 1).back()) == vp::val(p[i]), "P21: subspan names the elements");
    vp_cover("end");
}
VP_ENTRY(h_iterate)
{
    const std::size_t n = vp_size();
    U* const          p = any(n);
    std::size_t       k = 0;
    for (const U& x : D(p, n))
    {
        vp_assert(&x == p + k, "P21: iteration visits the elements in order");
        ++k;
    }
    vp_assert(k == n, "P21: iteration visits every element");
    vp_cover("end");
}
