// Client programs of cetl::pf17::string_view.
#include "vp.hpp"
#include <ios>
#include <ostream>

// A character type with its own traits and its own output stream, which records what is written.
enum class Ch : unsigned char
{
};
struct Tr
{
    using char_type = Ch;
    using int_type  = int;
    static bool eq(Ch a, Ch b) noexcept
    {
        return a == b;
    }
    static bool lt(Ch a, Ch b) noexcept
    {
        return static_cast<unsigned char>(a) < static_cast<unsigned char>(b);
    }
    static std::size_t length(const Ch* s)
    {
        std::size_t n = 0;
        while (s[n] != static_cast<Ch>(0))
        {
            ++n;
        }
        return n;
    }
    static int compare(const Ch* a, const Ch* b, std::size_t n)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (lt(a[i], b[i]))
            {
                return -1;
            }
            if (lt(b[i], a[i]))
            {
                return 1;
            }
        }
        return 0;
    }
    static const Ch* find(const Ch* s, std::size_t n, const Ch& c)
    {
        for (std::size_t i = 0; i < n; ++i)
        {
            if (eq(s[i], c))
            {
                return s + i;
            }
        }
        return nullptr;
    }
};
namespace std
{
template <>
class basic_ios<Ch, Tr> : public ios_base
{
public:
    basic_ios() = default;
};
template <>
class basic_ostream<Ch, Tr>
{
public:
    struct sentry
    {
        bool ok;
        explicit sentry(basic_ostream& os)
            : ok(os.good)
        {
        }
        explicit operator bool() const
        {
            return ok;
        }
    };
    bool                 good;
    std::streamsize      wid;
    Ch                   fil;
    std::ios_base::fmtflags fl;
    // what was written: padding, then text, then padding
    std::streamsize before = 0;
    std::streamsize text   = 0;
    std::streamsize after  = 0;
    const Ch*       from   = nullptr;
    int             writes = 0;

    std::streamsize width() const
    {
        return wid;
    }
    std::streamsize width(std::streamsize w)
    {
        const std::streamsize o = wid;
        wid                     = w;
        return o;
    }
    Ch fill() const
    {
        return fil;
    }
    std::ios_base::fmtflags flags() const
    {
        return fl;
    }
    basic_ostream& put(Ch c)
    {
        vp_assert(c == fil, "P22: padding uses the fill character");
        if (writes == 0)
        {
            ++before;
        }
        else
        {
            ++after;
        }
        return *this;
    }
    basic_ostream& write(const Ch* p, std::streamsize n)
    {
        ++writes;
        from = p;
        text = n;
        return *this;
    }
};
}  // namespace std

#include "cetl/pf17/string_view.hpp"

using S    = cetl::pf17::basic_string_view<Ch, Tr>;
using View = cetl::pf17::string_view;
constexpr std::size_t NPOS = static_cast<std::size_t>(-1);
static_assert(View::npos == NPOS, "P22: npos");
static_assert(std::is_nothrow_default_constructible<View>::value && std::is_trivially_copyable<View>::value, "P22: a view is a plain value");

template <typename V>
struct Of;
template <>
struct Of<View>
{
    using C = char;
};
template <>
struct Of<S>
{
    using C = Ch;
};

#define VIEW(s, p, n, msg)                                                                     \
    vp_assert((s).data() == (p), "P22: data: " msg);                                           \
    vp_assert((s).size() == (n) && (s).length() == (n), "P22: size: " msg);                    \
    vp_assert((s).empty() == ((n) == 0U), "P22: empty: " msg);                                 \
    vp_assert((s).begin() == (p) && (s).end() == (p) + (n) && (s).cbegin() == (p) && (s).cend() == (p) + (n), "P22: range: " msg)

template <typename V>
const typename Of<V>::C* text(std::size_t n)
{
    return reinterpret_cast<const typename Of<V>::C*>(vp_bytes(1, n));
}

#if defined(__cpp_exceptions)
#    define REFUSES(expr, msg)              \
        {                                   \
            bool refused = false;           \
            try                             \
            {                               \
                (void) (expr);              \
            } catch (const std::out_of_range&) \
            {                               \
                refused = true;             \
            }                               \
            vp_assert(refused, msg);        \
        }
#else
#    define REFUSES(expr, msg) \
        {                      \
            vp_misuse(msg);    \
            (void) (expr);     \
            vp_misused();      \
        }
#endif

// ------------------------------------------------------------------------------------ any text of any length
VP_ENTRY(h_empty)
{
    const View v;
    vp_assert(v.data() == nullptr && v.size() == 0 && v.empty(), "P22: default constructed view");
    vp_assert(v == View() && v.find('x') == NPOS && v.compare(v) == 0, "P22: empty view");
    vp_cover("end");
}
VP_ENTRY(h_construct)
{
    const std::size_t n = vp_size();
    const char* const p = text<View>(n);
    const View        v(p, n);
    VIEW(v, p, n, "pointer and length");
    View w(v);
    VIEW(w, p, n, "copied");
    View e;
    e = v;
    VIEW(e, p, n, "assigned");
    vp_cover("end");
}
VP_ENTRY(h_access)
{
    const std::size_t n = vp_size(), i = vp_size();
    const char* const p = text<View>(n);
    const View        v(p, n);
    if (i < n)
    {
        vp_assert(&v[i] == p + i && &v.at(i) == p + i, "P22: indexing names the character");
        vp_assert(&v.front() == p && &v.back() == p + n - 1, "P22: front and back");
        vp_cover("in");
    }
    else
    {
        REFUSES(v.at(i), "P22: at refuses a position outside the text")
        vp_cover("out");
    }
}
VP_ENTRY(h_remove)
{
    const std::size_t n = vp_size(), k = vp_size_any();
    const char* const p = text<View>(n);
    View              v(p, n), w(p, n);
    v.remove_prefix(k);
    w.remove_suffix(k);
    const std::size_t r = k < n ? k : n;
    VIEW(v, p + r, n - r, "remove_prefix");
    VIEW(w, p, n - r, "remove_suffix");
    vp_cover("end");
}
VP_ENTRY(h_swap)
{
    const std::size_t n = vp_size(), k = vp_size();
    const char* const p = text<View>(n);
    const char* const q = text<View>(k);
    View              v(p, n), w(q, k);
    v.swap(w);
    VIEW(v, q, k, "swapped");
    VIEW(w, p, n, "swapped");
    swap(v, w);
    VIEW(v, p, n, "swapped");
    VIEW(w, q, k, "swapped");
    v.swap(v);
    VIEW(v, p, n, "swapped with itself");
    vp_cover("end");
}
VP_ENTRY(h_substr)
{
    const std::size_t n = vp_size(), o = vp_size_any(), c = vp_size_any();
    const char* const p = text<View>(n);
    const View        v(p, n);
    if (o <= n)
    {
        const View        s = v.substr(o, c), t = v.substr(o), u = v.substr();
        const std::size_t r = c < n - o ? c : n - o;
        VIEW(s, p + o, r, "substr(pos, count)");
        VIEW(t, p + o, n - o, "substr(pos)");
        VIEW(u, p, n, "substr()");
        vp_cover("in");
    }
    else
    {
        REFUSES(v.substr(o, c), "P22: substr refuses a position outside the text")
        vp_cover("out");
    }
}
VP_ENTRY(h_copy)
{
    const std::size_t n = vp_size(), o = vp_size(), c = vp_size(), d = vp_size();
    const char* const p = text<View>(n);
    char* const       q = const_cast<char*>(text<View>(d));
    const View        v(p, n);
    if (o <= n)
    {
        const std::size_t r = c < n - o ? c : n - o;
        vp_assume(r <= d);
        const std::size_t got = v.copy(q, c, o);
        vp_assert(got == r, "P22: copy reports the number of characters");
        const std::size_t i = vp_size();
        vp_assume(i < r);
        vp_assert(q[i] == p[o + i], "P22: copy copies the characters");
        if (o == 0)
        {
            vp_assert(v.copy(q, c) == r && q[i] == p[i], "P22: copy starts at the beginning");
        }
        vp_cover("in");
    }
    else
    {
        REFUSES(v.copy(q, c, o), "P22: copy refuses a position outside the text")
        vp_cover("out");
    }
}
VP_ENTRY(h_find_char)
{
    const std::size_t n = vp_size(), o = vp_size_any();
    const char* const p = text<View>(n);
    const View        v(p, n);
    const char        c = static_cast<char>(vp_int());
    const std::size_t r = v.find(c, o);
    if (r != NPOS)
    {
        vp_assert(r >= o && r < n && p[r] == c, "P22: find(char) returns a position of the character");
        vp_cover("found");
    }
    else
    {
        vp_cover("none");
    }
}
VP_ENTRY(h_find_text)
{
    const std::size_t n = vp_size(), o = vp_size_any(), k = vp_size();
    const char* const p = text<View>(n);
    const char* const q = text<View>(k);
    const View        v(p, n), w(q, k);
    const std::size_t r = v.find(w, o);
    if (r != NPOS)
    {
        vp_assert(r >= o && r <= n && k <= n - r, "P22: find(text) returns a position inside");
        vp_cover("found");
    }
    else
    {
        vp_assert(!(k == 0 && o <= n), "P22: the empty text is found at every position");
        vp_cover("none");
    }
}
VP_ENTRY(h_compare)
{
    const std::size_t n = vp_size(), k = vp_size();
    const char* const p = text<View>(n);
    const char* const q = text<View>(k);
    const View        v(p, n), w(q, k);
    const int         c = v.compare(w);
    const std::size_t m = n < k ? n : k;
    if (vp_compared(p, q, m) || m == 0)
    {
        vp_assert((n == k) == (c == 0) && (n < k) == (c < 0), "P22: compare orders a prefix first");
        vp_cover("prefix");
    }
    else
    {
        vp_assert(c != 0, "P22: different texts do not compare equal");
        vp_cover("differ");
    }
}
VP_ENTRY(h_operators)
{
    const std::size_t n = vp_size();
    const char* const p = text<View>(n);
    const std::size_t a = vp_size(), b = vp_size();
    vp_assume(a <= n && b <= n);
    const View v(p, a), w(p, b);
    vp_assert((v == w) == (a == b) && (v != w) == (a != b), "P22: equality");
    vp_assert((v < w) == (a < b) && (v <= w) == (a <= b) && (v > w) == (a > b) && (v >= w) == (a >= b), "P22: order");
    vp_cover("end");
}

// ------------------------------------------------------ short texts, every character decided by its own branch
template <std::size_t Max>
struct Short
{
    Ch          c[Max];
    std::size_t n;
    Short()
    {
        n = 0;
        for (std::size_t i = 0; i < Max; ++i)
        {
            c[i] = static_cast<Ch>(vp_int() & 0xFF);
        }
        while (n < Max && vp_bool())
        {
            ++n;
        }
    }
};
/// In the text, at its end, behind it, and so far behind it that the addition of a length wraps around.
static std::size_t position()
{
    return vp_bool() ? 0U : vp_bool() ? 1U : vp_bool() ? 3U : vp_bool() ? 4U : vp_bool() ? NPOS - 1U : NPOS;
}
VP_ENTRY(h_find_char_short)
{
    vp_bounded(8);
    const Short<4>    a;
    const S           v(a.c, a.n);
    const Ch          c = static_cast<Ch>(vp_int() & 0xFF);
    const std::size_t o = position();
    std::size_t       x = NPOS;
    for (std::size_t i = o; i < a.n; ++i)
    {
        if (a.c[i] == c)
        {
            x = i;
            break;
        }
    }
    vp_assert(v.find(c, o) == x, "P22: find(char) returns the first position");
    if (o == 0)
    {
        vp_assert(v.find(c) == x, "P22: find(char) starts at the beginning");
    }
    vp_cover("end");
}
VP_ENTRY(h_find_text_short)
{
    vp_bounded(8);
    const Short<4>    a;
    const Short<2>    b;
    const S           v(a.c, a.n), w(b.c, b.n);
    const std::size_t o = position();
    std::size_t       x = NPOS;
    for (std::size_t i = o; i <= a.n && b.n <= a.n - i; ++i)
    {
        bool same = true;
        for (std::size_t k = 0; k < b.n; ++k)
        {
            same = same && a.c[i + k] == b.c[k];
        }
        if (same)
        {
            x = i;
            break;
        }
    }
    vp_assert(v.find(w, o) == x, "P22: find(text) returns the first position");
    if (o == 0)
    {
        vp_assert(v.find(w) == x, "P22: find(text) starts at the beginning");
    }
    vp_cover("end");
}
VP_ENTRY(h_compare_short)
{
    vp_bounded(8);
    const Short<2> a;
    const Short<2> b;
    const S        v(a.c, a.n), w(b.c, b.n);
    int            x = 0;
    for (std::size_t i = 0; x == 0 && i < 2; ++i)
    {
        if (i >= a.n || i >= b.n)
        {
            x = (a.n < b.n) ? -1 : (a.n > b.n) ? 1 : 0;
            break;
        }
        x = Tr::lt(a.c[i], b.c[i]) ? -1 : Tr::lt(b.c[i], a.c[i]) ? 1 : 0;
    }
    const int r = v.compare(w);
    vp_assert((r < 0) == (x < 0) && (r > 0) == (x > 0), "P22: compare is lexicographic");
    vp_assert((v == w) == (x == 0) && (v != w) == (x != 0), "P22: equality");
    vp_assert((v < w) == (x < 0) && (v <= w) == (x <= 0) && (v > w) == (x > 0) && (v >= w) == (x >= 0), "P22: order");
    vp_cover("end");
}
VP_ENTRY(h_c_string)
{
    vp_bounded(8);
    Short<3> a;
    Ch       z[4];
    for (std::size_t i = 0; i < 4; ++i)
    {
        z[i] = i < a.n ? a.c[i] : static_cast<Ch>(0);
        vp_assume(i >= a.n || z[i] != static_cast<Ch>(0));
    }
    const S v(z);
    VIEW(v, z, a.n, "C string");
    vp_assert(v == S(z, a.n), "P22: C string");
    vp_cover("end");
}

// ------------------------------------------------------------------------------------------------ output
VP_ENTRY(h_output)
{
    const std::size_t            n = vp_size();
    const Ch* const              p = text<S>(n);
    const S                      v(p, n);
    std::basic_ostream<Ch, Tr>   os;
    os.good = vp_bool();
    os.wid  = static_cast<std::streamsize>(vp_size());
    os.fil  = static_cast<Ch>(vp_int() & 0xFF);
    os.fl   = vp_bool() ? std::ios_base::left : vp_bool() ? std::ios_base::right : vp_bool() ? std::ios_base::internal : std::ios_base::fmtflags();
    const std::streamsize w   = os.wid;
    const std::streamsize len = static_cast<std::streamsize>(n);
    auto&                 r   = (os << v);
    vp_assert(&r == &os, "P22: output returns the stream");
    vp_assert(os.wid == 0, "P22: output resets the width");
    if (os.good)
    {
        vp_assert(os.writes == 1 && os.from == p && os.text == len, "P22: output writes the text once");
        const std::streamsize pad = w > len ? w - len : 0;
        if (os.fl == std::ios_base::left)
        {
            vp_assert(os.before == 0 && os.after == pad, "P22: left adjustment pads after the text");
            vp_cover("left");
        }
        else
        {
            vp_assert(os.before == pad && os.after == 0, "P22: otherwise padding comes before the text");
            vp_cover("right");
        }
    }
    else
    {
        vp_assert(os.writes == 0 && os.before == 0 && os.after == 0, "P22: nothing is written to a bad stream");
        vp_cover("bad");
    }
}
VP_ENTRY(h_std_string)
{
    const std::string s;
    const View        v(s);
    vp_assert(v.data() == s.data() && v.size() == 0, "P22: view of a string");
    vp_cover("end");
}
