// Client programs of polymorphic_allocator, the deleters and the factories.
#include "res.hpp"
#include "cetl/pmr/interface_ptr.hpp"
#include "cetl/pmr/memory.hpp"
#include <cstring>
#include <limits>
#include <memory>
#include <tuple>
using vp::Calm;
using vp::Elem;
using vp::Src;
using vp::Thrower;
namespace pmr = cetl::pf17::pmr;

constexpr std::size_t MAX = std::numeric_limits<std::size_t>::max();
template <typename T>
using PA = pmr::polymorphic_allocator<T>;

struct alignas(64) Wide
{
    unsigned char bytes[192];
};

// ------------------------------------------------------------------------------------- polymorphic_allocator: storage
template <typename T>
static T* get(PA<T>& a, std::size_t n)
{
    VP_TRY
    {
        return a.allocate(n);
    }
    VP_CATCH
    {
        vp_cover("refused");
    }
    return nullptr;
}
template <typename T>
static void pa_allocate()
{
    Up                up(MAX);
    PA<T>             a(&up);
    const std::size_t n = vp_size_any();
    T* const          p = get(a, n);
    if (n > MAX / sizeof(T))
    {
        vp_assert(p == nullptr && up.asked == 0, "P25: a count whose size cannot be expressed is refused");
        vp_cover("overflow");
        return;
    }
    vp_assert(up.asked == 1 && up.bytes == n * sizeof(T) && up.align == alignof(T),
              "P25: allocate() asks for exactly the storage of the objects");
    if (p != nullptr)
    {
        vp_assert((reinterpret_cast<std::uintptr_t>(p) & (alignof(T) - 1U)) == 0U, "P25: storage is aligned for the objects");
        a.deallocate(p, n);
        vp_assert(up.given == 0, "P25: deallocate() returns the storage");
        vp_cover("got");
    }
}
VP_ENTRY(h_pa_allocate_byte)
{
    pa_allocate<unsigned char>();
}
VP_ENTRY(h_pa_allocate_elem)
{
    pa_allocate<Elem>();
}
VP_ENTRY(h_pa_allocate_wide)
{
    pa_allocate<Wide>();
}
template <typename T, typename U>
static void pa_copy()
{
    Up    up, other;
    PA<T> a(&up);
    PA<T> b(a);
    PA<U> c(a);
    PA<T> d = a.select_on_container_copy_construction();
    PA<T> e(&other);
    vp_assert(a.resource() == &up && b.resource() == &up && c.resource() == &up && d.resource() == &up &&
                  e.resource() == &other,
              "P25: copies use the same resource");
    vp_assert(a == b && b == a && a == c && c == a && !(a != b) && !(a != c), "P25: allocators of equal resources are equal");
    vp_assert(!(a == e) && a != e && c != e, "P25: allocators of different resources differ");
    vp_assert(a.max_size() == up.limit / sizeof(T), "P25: max_size() counts objects");
    vp_cover("end");
}
VP_ENTRY(h_pa_copy_elem)
{
    pa_copy<Elem, unsigned char>();
}
VP_ENTRY(h_pa_copy_byte)
{
    pa_copy<unsigned char, Elem>();
}
// equal by value, not by address
struct Twin final : public pmr::memory_resource
{
    int id;
    explicit Twin(int i)
        : id(i)
    {
    }

private:
    void* do_allocate(std::size_t, std::size_t) override
    {
        return nullptr;
    }
    void do_deallocate(void*, std::size_t, std::size_t) override {}
    bool do_is_equal(const pmr::memory_resource& o) const noexcept override
    {
        return id == static_cast<const Twin&>(o).id;
    }
};
VP_ENTRY(h_pa_equal)
{
    const int i = vp_int(), j = vp_int();
    Twin      x(i), y(j);
    PA<Elem>  a(&x);
    PA<Calm>  b(&y);
    vp_assert((a == b) == (i == j) && (a != b) == (i != j), "P25: allocators compare as their resources do");
    vp_assert((x == y) == (i == j) && (x != y) == (i != j) && x.is_equal(y) == (i == j),
              "P25: resources compare by is_equal");
    vp_assert(x == x && !(x != x), "P25: a resource equals itself");
    vp_assert(x.max_size() == MAX, "P25: a resource is unlimited by default");
    vp_assert(x.reallocate(&x, 1, 2) == nullptr, "P25: a resource does not resize by default");
    vp_cover("end");
}
template <typename R>
struct Resizes : std::false_type
{};
template <>
struct Resizes<UpRe> : std::true_type
{};
template <typename R, typename T>
static void pa_reallocate()
{
    R                 up;
    PA<T>             a(&up);
    const std::size_t n = vp_size(), m = vp_size_any();
    T* const          p = get(a, n);
    if (p == nullptr)
    {
        return;
    }
    T* q = nullptr;
    up.bytes = MAX;
    VP_TRY
    {
        q = a.reallocate(p, n, m);
    }
    VP_CATCH
    {
        vp_cover("refused");
    }
    vp_assert(!Resizes<R>::value || m > MAX / sizeof(T) || up.bytes == m * sizeof(T), "P25: every size that fits is asked for");
    if (q != nullptr)
    {
        vp_assert(m <= MAX / sizeof(T) && up.bytes == m * sizeof(T), "P25: reallocate() asks for the storage of the objects");
        a.deallocate(q, m);
        vp_cover("moved");
    }
    else
    {
        std::memset(static_cast<void*>(p), 0, n * sizeof(T));
        a.deallocate(p, n);
        vp_cover("kept");
    }
    vp_assert(up.given == 0, "P25: the storage is owned once");
}
VP_ENTRY(h_pa_reallocate_none)
{
    pa_reallocate<Up, std::uint32_t>();
}
VP_ENTRY(h_pa_reallocate)
{
    pa_reallocate<UpRe, std::uint32_t>();
}
VP_ENTRY(h_pa_reallocate_wide)
{
    pa_reallocate<UpRe, Wide>();
}
VP_ENTRY(h_pa_reallocate_throws)
{
    pa_reallocate<UpThrows, std::uint32_t>();
}
VP_ENTRY(h_pa_reallocate_other)
{
    UpRe                up;
    PA<Elem>            a(&up);
    PA<std::uint32_t>   b(a);
    const std::size_t   n = vp_size(), m = vp_size();
    std::uint32_t* const p = get(b, n);
    if (p != nullptr)
    {
        std::uint32_t* const q = a.reallocate(p, n, m);
        vp_assert(q == nullptr || up.bytes == m * sizeof(std::uint32_t), "P25: reallocate() asks for the storage of the objects");
        if (q != nullptr)
        {
            b.deallocate(q, m);
            vp_cover("moved");
        }
        else
        {
            b.deallocate(p, n);
        }
    }
}
VP_ENTRY(h_null_resource)
{
    pmr::memory_resource* const r = pmr::null_memory_resource();
    vp_assert(r == pmr::null_memory_resource(), "P25: there is one null resource");
    vp_assert(r->max_size() == 0 && *r == *r, "P25: nothing can be allocated from the null resource");
    Up up;
    vp_assert(r->is_equal(*r) && !r->is_equal(up) && *r != up, "P25: the null resource equals only itself");
    void* p = nullptr;
    VP_TRY
    {
        p = r->allocate(vp_size_any(), 1);
#if defined(__cpp_exceptions)
        vp_assert(false, "P25: the null resource refuses every request");
#endif
    }
    VP_CATCH
    {
        vp_cover("refused");
    }
    vp_assert(p == nullptr, "P25: the null resource refuses every request");
    r->deallocate(nullptr, 0, 1);
    vp_cover("end");
}

// -------------------------------------------------------------------------------- polymorphic_allocator: construction
template <typename T>
struct Room
{
    alignas(T) unsigned char bytes[sizeof(T)];
    T* at()
    {
        return reinterpret_cast<T*>(bytes);
    }
};
template <typename T, typename... A>
static bool build(PA<unsigned char>& a, T* p, A&&... args)
{
    VP_TRY
    {
        a.construct(p, std::forward<A>(args)...);
        return true;
    }
    VP_CATCH
    {
        vp_cover("threw");
    }
    return false;
}
// takes the allocator first
struct Lead
{
    using allocator_type = PA<unsigned char>;
    pmr::memory_resource* mr = nullptr;
    int                   n  = 0;
    Elem                  e;
    Lead() = delete;
    Lead(std::allocator_arg_t, const allocator_type& a)
        : mr(a.resource())
    {
    }
    Lead(std::allocator_arg_t, const allocator_type& a, int i)
        : mr(a.resource())
        , n(i)
    {
    }
    Lead(std::allocator_arg_t, const allocator_type& a, Src&& s)
        : mr(a.resource())
        , e(std::move(s))
    {
    }
    Lead(std::allocator_arg_t, const allocator_type& a, const Src& s)
        : mr(a.resource())
        , e(s)
    {
    }
};
// takes the allocator last
struct Trail
{
    using allocator_type = PA<unsigned char>;
    pmr::memory_resource* mr = nullptr;
    int                   n  = 0;
    Elem                  e;
    Trail() = delete;
    explicit Trail(const allocator_type& a)
        : mr(a.resource())
    {
    }
    Trail(int i, const allocator_type& a)
        : mr(a.resource())
        , n(i)
    {
    }
    Trail(Src&& s, const allocator_type& a)
        : mr(a.resource())
        , e(std::move(s))
    {
    }
    Trail(const Src& s, const allocator_type& a)
        : mr(a.resource())
        , e(s)
    {
    }
};
template <typename T>
static const T& elem(const T& x)
{
    return x;
}
static const Elem& elem(const Lead& x)
{
    return x.e;
}
static const Elem& elem(const Trail& x)
{
    return x.e;
}
template <typename T>
static bool told(const T&, const pmr::memory_resource&)
{
    return true;
}
static bool told(const Lead& x, const pmr::memory_resource& r)
{
    return x.mr == &r;
}
static bool told(const Trail& x, const pmr::memory_resource& r)
{
    return x.mr == &r;
}
#define BUILD                      \
    Up                up;          \
    PA<unsigned char> a(&up);      \
    Src               s = vp::object<Src>(), t = vp::object<Src>()
// the value of what is made from x
template <typename T>
static std::size_t made(const Src& x)
{
    const typename std::decay<decltype(elem(std::declval<const T&>()))>::type o{Src(x)};
    return val(o);
}

template <typename T>
static void construct_default()
{
    BUILD;
    Room<T> r;
    if (build(a, r.at()))
    {
        vp_assert(told(*r.at(), up), "P25: the allocator is passed to those who want it");
        a.destroy(r.at());
        vp_cover("end");
    }
}
template <typename T>
static void construct_move()
{
    BUILD;
    const std::size_t vs = made<T>(s);
    (void) t;
    Room<T> r;
    if (build(a, r.at(), std::move(s)))
    {
        vp_assert(val(elem(*r.at())) == vs && moved(s), "P25: rvalue arguments are forwarded");
        vp_assert(told(*r.at(), up), "P25: the allocator is passed to those who want it");
        a.destroy(r.at());
        vp_cover("end");
    }
}
template <typename T>
static void construct_copy()
{
    BUILD;
    const std::size_t vs = made<T>(s);
    (void) t;
    Room<T> r;
    if (build(a, r.at(), s))
    {
        vp_assert(val(elem(*r.at())) == vs && !moved(s), "P25: lvalue arguments are forwarded");
        vp_assert(told(*r.at(), up), "P25: the allocator is passed to those who want it");
        a.destroy(r.at());
        vp_cover("end");
    }
}
#define SINGLE(name, T)                \
    VP_ENTRY(h_construct_##name)       \
    {                                  \
        construct_default<T>();        \
    }                                  \
    VP_ENTRY(h_construct_move_##name)  \
    {                                  \
        construct_move<T>();           \
    }                                  \
    VP_ENTRY(h_construct_copy_##name)  \
    {                                  \
        construct_copy<T>();           \
    }
SINGLE(elem, Elem)
SINGLE(lead, Lead)
SINGLE(trail, Trail)

VP_ENTRY(h_destroy)
{
    Up                up;
    PA<unsigned char> a(&up);
    a.destroy(static_cast<Elem*>(nullptr));
    Room<Calm>  r;
    Calm* const p = ::new (static_cast<void*>(r.bytes)) Calm();
    a.destroy(p);
    vp_cover("end");
}

template <typename F, typename S>
static void pair_good(std::pair<F, S>& p, std::size_t vf, std::size_t vs, const pmr::memory_resource& r)
{
    vp_assert(val(elem(p.first)) == vf && val(elem(p.second)) == vs, "P25: both members of a pair get their arguments");
    vp_assert(told(p.first, r) && told(p.second, r), "P25: the allocator is passed to those who want it");
    vp_cover("end");
}
// a pair from nothing
template <typename F, typename S>
static void pair_default()
{
    BUILD;
    Room<std::pair<F, S>> r;
    if (build(a, r.at()))
    {
        vp_assert(told(r.at()->first, up) && told(r.at()->second, up), "P25: the allocator is passed to those who want it");
        a.destroy(r.at());
        vp_cover("end");
    }
}
// a pair from two values
template <typename F, typename S>
static void pair_values()
{
    BUILD;
    const std::size_t vs = made<F>(s), vt = made<S>(t);
    Room<std::pair<F, S>> r;
    if (build(a, r.at(), std::move(s), t))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(moved(s) && !moved(t), "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
// piecewise: by reference, and by value
template <typename F, typename S>
static void pair_pieces()
{
    BUILD;
    const std::size_t vs = made<F>(s), vt = made<S>(t);
    Room<std::pair<F, S>> r;
    if (build(a, r.at(), std::piecewise_construct, std::forward_as_tuple(s), std::forward_as_tuple(std::move(t))))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(!moved(s) && moved(t), "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
template <typename F, typename S>
static void pair_pieces_value()
{
    BUILD;
    const std::size_t vs = made<F>(s), vt = made<S>(t);
    Room<std::pair<F, S>> r;
    if (build(a, r.at(), std::piecewise_construct, std::tuple<Src>(s), std::tuple<Src>(std::move(t))))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(!moved(s) && moved(t), "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
// a pair from a pair
template <typename F, typename S>
static void pair_copy()
{
    BUILD;
    const std::size_t vs = made<F>(s), vt = made<S>(t);
    const std::pair<const Src&, const Src&> from(s, t);
    Room<std::pair<F, S>>                   r;
    if (build(a, r.at(), from))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(!moved(s) && !moved(t), "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
template <typename F, typename S>
static void pair_move()
{
    BUILD;
    const std::size_t vs = made<F>(s), vt = made<S>(t);
    std::pair<Src, Src>   from(std::move(s), std::move(t));
    Room<std::pair<F, S>> r;
    if (build(a, r.at(), std::move(from)))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(moved(from.first) && moved(from.second), "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
// a pair from a temporary pair of references: only what an rvalue reference names is moved
template <typename F, typename S>
static void pair_references()
{
    BUILD;
    const std::size_t     vs = made<F>(s), vt = made<S>(t);
    const bool            first = vp_bool();
    Room<std::pair<F, S>> r;
    if (first ? build(a, r.at(), std::pair<Src&&, Src&>(std::move(s), t)) : build(a, r.at(), std::pair<Src&, Src&&>(s, std::move(t))))
    {
        pair_good(*r.at(), vs, vt, up);
        vp_assert(moved(s) == first && moved(t) == !first, "P25: arguments are forwarded as given");
        a.destroy(r.at());
    }
}
#define PAIR(name, F, S)              \
    VP_ENTRY(h_pair_##name)           \
    {                                 \
        pair_default<F, S>();         \
    }                                 \
    VP_ENTRY(h_pair_values_##name)    \
    {                                 \
        pair_values<F, S>();          \
    }                                 \
    VP_ENTRY(h_pair_pieces_##name)    \
    {                                 \
        pair_pieces<F, S>();          \
    }                                 \
    VP_ENTRY(h_pair_by_value_##name)  \
    {                                 \
        pair_pieces_value<F, S>();    \
    }                                 \
    VP_ENTRY(h_pair_copy_##name)      \
    {                                 \
        pair_copy<F, S>();            \
    }                                 \
    VP_ENTRY(h_pair_move_##name)      \
    {                                 \
        pair_move<F, S>();            \
    }                                 \
    VP_ENTRY(h_pair_refs_##name)      \
    {                                 \
        pair_references<F, S>();      \
    }
PAIR(ee, Elem, Elem)
PAIR(et, Elem, Thrower)
PAIR(el, Elem, Lead)
PAIR(te, Trail, Elem)
PAIR(lt, Lead, Trail)

// ------------------------------------------------------------------------------------------------------------ deleters
using Del   = cetl::pmr::MemoryResourceDeleter<pmr::memory_resource>;
using Block = std::unique_ptr<unsigned char, Del>;

static Block block(Up& up, std::size_t n, std::size_t a)
{
    void* p = nullptr;
    VP_TRY
    {
        p = up.allocate(n, a);
    }
    VP_CATCH {}
    return Block(static_cast<unsigned char*>(p), Del(&up, n, a));
}
VP_ENTRY(h_del_scope)
{
    Up                up;
    const std::size_t n = vp_size(), a = vp_bool() ? 1 : 32;
    {
        Block b = block(up, n, a);
        vp_assert(b.get_deleter().size() == n && b.get_deleter().alignment() == a && b.get_deleter().resource() == &up,
                  "P26: the deleter knows the block");
        vp_cover(b ? "block" : "none");
    }
    vp_assert(up.given == 0, "P26: the block is returned");
    const Del d(&up, n);
    vp_assert(d.alignment() == alignof(std::max_align_t), "P26: the default alignment is that of max_align_t");
}
VP_ENTRY(h_del_move)
{
    Up                up;
    const std::size_t n = vp_size();
    {
        Block b = block(up, n, 8);
        Block c(std::move(b));
        vp_assert(!b && b.get_deleter().resource() == nullptr, "P26: a moved-from deleter has no resource");
        vp_assert(c.get_deleter().size() == n && c.get_deleter().alignment() == 8 && c.get_deleter().resource() == &up,
                  "P26: the deleter knows the block");
        vp_cover(c ? "block" : "none");
    }
    vp_assert(up.given == 0, "P26: the block is returned");
}
VP_ENTRY(h_del_assign)
{
    Up                up, other;
    const std::size_t n = vp_size(), m = vp_size();
    {
        Block b = block(up, n, 8);
        Block c = block(other, m, 16);
        c       = std::move(b);
        vp_assert(other.given == 0, "P26: the block is returned");
        vp_assert(!b && b.get_deleter().resource() == nullptr, "P26: a moved-from deleter has no resource");
        vp_assert(c.get_deleter().size() == n && c.get_deleter().alignment() == 8 && c.get_deleter().resource() == &up,
                  "P26: the deleter knows the block");
        b = block(up, m, 1);
        vp_cover(c ? "block" : "none");
    }
    vp_assert(up.given == 0, "P26: the block is returned");
}
VP_ENTRY(h_del_assign_self)
{
    Up up;
    {
        Block  b = block(up, vp_size(), 8);
        Block& c = b;
        b        = std::move(c);
        vp_assert(b.get_deleter().resource() == &up, "P26: self-assignment keeps the resource");
        vp_cover(b ? "block" : "none");
    }
    vp_assert(up.given == 0, "P26: the block is returned");
}
VP_ENTRY(h_del_swap)
{
    Up                up, other;
    const std::size_t n = vp_size(), m = vp_size();
    {
        Block b = block(up, n, 8);
        Block c = block(other, m, 16);
        std::swap(b, c);
        vp_assert(b.get_deleter().size() == m && c.get_deleter().size() == n && b.get_deleter().resource() == &other &&
                      c.get_deleter().resource() == &up,
                  "P26: the deleter knows the block");
        b.reset();
        vp_assert(other.given == 0, "P26: the block is returned");
        vp_cover("end");
    }
    vp_assert(up.given == 0, "P26: the block is returned");
}

// ----------------------------------------------------------------------------------------------------------- factories
template <typename T>
using Ptr = cetl::pmr::Factory::unique_ptr_t<PA<T>>;

template <typename T>
static void make()
{
    Up                up;
    Src               s  = vp::object<Src>();
    const std::size_t vs = made<T>(s);
    {
        PA<T> a(&up);
        VP_TRY
        {
            Ptr<T> p = cetl::pmr::Factory::make_unique(a, std::move(s));
            vp_assert((p != nullptr) == (up.given == 1), "P26: the pointer owns the object");
            if (p)
            {
                vp_assert(val(*p) == vs && moved(s), "P26: the object is made from the arguments");
                vp_assert(up.bytes == sizeof(T) && up.align == alignof(T), "P26: the object gets its storage");
                vp_cover("made");
            }
            else
            {
                vp_cover("no room");
            }
        }
        VP_CATCH
        {
            vp_cover("threw");
        }
    }
    vp_assert(up.given == 0, "P26: the object is released");
}
VP_ENTRY(h_make_elem)
{
    make<Elem>();
}
VP_ENTRY(h_make_thrower)
{
    make<Thrower>();
}
VP_ENTRY(h_make_move)
{
    Up       up;
    PA<Elem> a(&up);
    {
        VP_TRY
        {
            Ptr<Elem> p = cetl::pmr::Factory::make_unique(a, vp::object<Src>());
            Ptr<Elem> q(std::move(p));
            vp_assert(!p, "P26: a moved-from pointer is empty");
            if (q)
            {
                q.reset();
                vp_assert(up.given == 0, "P26: the object is released");
                vp_cover("reset");
            }
        }
        VP_CATCH
        {
            vp_cover("threw");
        }
    }
    vp_assert(up.given == 0, "P26: the object is released");
}
// the deleter of an allocator that can be assigned
VP_ENTRY(h_make_assign)
{
    using A   = vp::Al<Elem>;
    using D   = cetl::pmr::PolymorphicDeleter<A>;
    using Own = std::unique_ptr<Elem, D>;
    A a       = A::make();
    A b       = A::make();
    VP_TRY
    {
        Elem* const x = a.allocate(1);
        Own         p(nullptr, D(a, 1));
        if (x != nullptr)
        {
            VP_TRY
            {
                ::new (static_cast<void*>(x)) Elem();
                p.reset(x);
            }
            VP_CATCH
            {
                a.deallocate(x, 1);
            }
        }
        Own q(nullptr, D(b, 1));
        q = std::move(p);
        vp_assert(q.get() == nullptr || q.get() == x, "P26: assignment moves the object");
        Own r(std::move(q));
        D   e(r.get_deleter());
        D   f(b, 1);
        f = e;
        e = f;
        vp_cover(r ? "moved" : "none");
    }
    VP_CATCH
    {
        vp_cover("threw");
    }
}

template <bool Copy>
static void assigned_deleter()
{
    using A             = vp::Al<Elem>;
    using D             = cetl::pmr::PolymorphicDeleter<A>;
    using Own           = std::unique_ptr<Elem, D>;
    A                 a = A::make();
    A                 b = A::make();
    const std::size_t n = vp_size();
    vp_assume(n > 0);
    VP_TRY
    {
        Elem* const x = a.allocate(n);  // with a single object in it
        if (x == nullptr)
        {
            return;
        }
        VP_TRY
        {
            ::new (static_cast<void*>(x)) Elem();
        }
        VP_CATCH
        {
            a.deallocate(x, n);
            return;
        }
        D from(a, n), to(b, 1);
        if (Copy)
        {
            const D& c = from;
            to         = c;
        }
        else
        {
            to = std::move(from);
        }
        Own p(x, to);
        vp_cover("end");
    }
    VP_CATCH
    {
        vp_cover("threw");
    }
}
VP_ENTRY(h_deleter_copy)
{
    assigned_deleter<true>();
}
VP_ENTRY(h_deleter_move)
{
    assigned_deleter<false>();
}

struct Face
{
    virtual int ask() const = 0;

protected:
    Face() = default;
    Face(const Face&) = default;
    Face& operator=(const Face&) = default;
    ~Face() = default;  // not virtual: the deleter has to know the concrete type
};
struct Other
{
    std::uint64_t pad[3] = {};
    virtual ~Other()     = default;
};
struct Conc final : public Other, public Face
{
    Elem     e;
    int      n;
    Conc(Src&& s, int i)
        : e(std::move(s))
        , n(i)
    {
    }
    Conc(const Src& s, int i)
        : e(s)
        , n(i)
    {
    }
    int ask() const override
    {
        return n;
    }
};
using FacePtr = cetl::pmr::InterfacePtr<Face>;
VP_ENTRY(h_iface)
{
    Up        up;
    const int n = vp_int();
    Src       s = vp::object<Src>();
    {
        PA<Conc> a(&up);
        VP_TRY
        {
            FacePtr p = cetl::pmr::InterfaceFactory::make_unique<Face>(a, s, n);
            vp_assert((p != nullptr) == (up.given == 1), "P26: the pointer owns the object");
            if (p)
            {
                vp_assert(p->ask() == n, "P26: the object is made from the arguments");
                vp_assert(up.bytes == sizeof(Conc) && up.align == alignof(Conc), "P26: the object gets its storage");
                vp_cover("made");
            }
            else
            {
                vp_cover("no room");
            }
        }
        VP_CATCH
        {
            vp_cover("threw");
        }
    }
    vp_assert(up.given == 0, "P26: the object is released");
}
VP_ENTRY(h_iface_forwards)
{
    Up        up;
    const int n = vp_int();
    Src       s = vp::object<Src>();
    {
        PA<Conc> a(&up);
        VP_TRY
        {
            FacePtr p = cetl::pmr::InterfaceFactory::make_unique<Face>(a, std::move(s), n);
            vp_assert(moved(s) == (p != nullptr), "P26: the object is made from the arguments");
            vp_cover("end");
        }
        VP_CATCH {}
    }
    vp_assert(up.given == 0, "P26: the object is released");
}
VP_ENTRY(h_iface_move)
{
    Up        up;
    Up        other;
    const int n = vp_int(), m = vp_int();
    {
        PA<Conc> a(&up), b(&other);
        VP_TRY
        {
            FacePtr none;
            vp_assert(!none, "P26: a pointer is empty by default");
            FacePtr p = cetl::pmr::InterfaceFactory::make_unique<Face>(a, vp::object<Src>(), n);
            FacePtr q = cetl::pmr::InterfaceFactory::make_unique<Face>(b, vp::object<Src>(), m);
            if (p && q)
            {
                FacePtr r(std::move(p));
                vp_assert(!p && r->ask() == n, "P26: moving takes the object along");
                r = std::move(q);
                vp_assert(up.given == 0 && !q && r->ask() == m, "P26: assignment releases the old object");
                none = std::move(r);
                vp_assert(none->ask() == m && !r, "P26: moving takes the object along");
                none.reset();
                vp_assert(other.given == 0, "P26: the object is released");
                vp_cover("moved");
            }
        }
        VP_CATCH
        {
            vp_cover("threw");
        }
    }
    vp_assert(up.given == 0 && other.given == 0, "P26: the object is released");
}
VP_ENTRY(h_iface_swap)
{
    Up        up;
    const int n = vp_int(), m = vp_int();
    {
        PA<Conc> a(&up);
        VP_TRY
        {
            FacePtr p = cetl::pmr::InterfaceFactory::make_unique<Face>(a, vp::object<Src>(), n);
            FacePtr q = cetl::pmr::InterfaceFactory::make_unique<Face>(a, vp::object<Src>(), m);
            std::swap(p, q);
            if (p && q)
            {
                vp_assert(p->ask() == m && q->ask() == n, "P26: swap exchanges the objects");
                vp_cover("swapped");
            }
            FacePtr& self = p;
            p             = std::move(self);
            if (p && q)
            {
                vp_assert(p->ask() == m, "P26: self-assignment keeps the object");
            }
        }
        VP_CATCH
        {
            vp_cover("threw");
        }
    }
    vp_assert(up.given == 0, "P26: the object is released");
}
