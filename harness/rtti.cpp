// Client programs of the library's own run-time type information, alone and inside an unbounded_variant.
#include "vp.hpp"
#include "cetl/rtti.hpp"
#include "cetl/unbounded_variant.hpp"

using cetl::rtti_cast;
template <std::uint8_t... B>
using id = cetl::type_id_type<B...>;

struct Left : cetl::rtti_helper<id<1, 9>>
{
    int l = vp_int();
};
struct Right : cetl::rtti_helper<id<1, 9, 1>>
{
    int r = vp_int();
};
struct Third : cetl::rtti_helper<id<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>
{
    int t = vp_int();
};
struct Pair : cetl::rtti_helper<id<2>, Left, Right>
{
    int p = vp_int();
};
struct Deep : cetl::rtti_helper<id<3>, Third, Pair>
{
    int d = vp_int();
};
struct Other : cetl::rtti_helper<id<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 2>>
{
};
struct Plain
{
    static constexpr cetl::type_id _get_type_id_() noexcept
    {
        return cetl::type_id_type_value<id<7>>();
    }
    int q;
};
// private inheritance does not take part
struct Hidden : cetl::rtti_helper<id<8>, Left>, private Right
{
    using cetl::rtti_helper<id<8>, Left>::_cast_;
    void* _cast_(const cetl::type_id& i) & noexcept override { return cetl::rtti_helper<id<8>, Left>::_cast_(i); }
    const void* _cast_(const cetl::type_id& i) const& noexcept override { return cetl::rtti_helper<id<8>, Left>::_cast_(i); }
    static constexpr cetl::type_id _get_type_id_() noexcept { return cetl::rtti_helper<id<8>, Left>::_get_type_id_(); }
};

static_assert(cetl::has_type_id<Left> && cetl::has_type_id<const Deep&> && cetl::has_type_id<Plain>, "P20: has_type_id");
static_assert(!cetl::has_type_id<int> && !cetl::has_type_id<void*>, "P20: has_type_id");
static_assert(cetl::is_rtti_convertible<Pair> && !cetl::is_rtti_convertible<Plain> && !cetl::is_rtti_convertible<int>,
              "P20: is_rtti_convertible");
static_assert(cetl::type_id_type_value<id<1, 2, 3>>().size() == 16, "P20: type id size");

VP_ENTRY(h_ids)
{
    const auto a = cetl::type_id_value<Left>, b = cetl::type_id_value<Right>, c = cetl::type_id_value<void>,
               d = cetl::type_id_value<Third>, e = cetl::type_id_value<Other>;
    vp_cover("end");
    vp_assert(a[0] == 1 && a[1] == 9 && a[2] == 0 && a[15] == 0, "P20: bytes of an id are those given, then zeros");
    vp_assert(b[2] == 1 && d[15] == 1, "P20: bytes of an id are those given");
    vp_assert(a != b && a != c && d != e && d != c, "P20: different ids differ");
    vp_assert(c == cetl::type_id{}, "P20: the id of void is all zeros");
    vp_assert(cetl::type_id_value<Plain> == cetl::type_id_type_value<id<7>>(), "P20: id of a type with its own id");
}

template <typename T, typename From>
void up(From& f, T* expect)
{
    const From& c = f;
    T* const       p = rtti_cast<T*>(&f);
    const T* const q = rtti_cast<T*>(&c);
    vp_assert(p == expect, "P20: cast gives the subobject of that type");
    vp_assert(q == expect, "P20: const cast gives the subobject of that type");
    vp_assert(cetl::is_instance_of<T>(f) == (expect != nullptr), "P20: is_instance_of");
    vp_assert(cetl::is_instance_of(c, cetl::type_id_value<T>) == (expect != nullptr), "P20: is_instance_of by id");
}
template <typename From>
void deep_from(Deep& x, From& f)
{
    up<Deep>(f, &x);
    up<Pair>(f, &x);
    up<Left>(f, &x);
    up<Right>(f, &x);
    up<Third>(f, &x);
    up<Other, From>(f, nullptr);
    vp_assert(!cetl::is_instance_of<void>(f), "P20: nothing is an instance of void");
    vp_assert(rtti_cast<Plain*>(&f) == nullptr, "P20: unrelated type");
    vp_cover("end");
}
VP_ENTRY(h_deep_from_deep)
{
    Deep x;
    deep_from(x, x);
}
VP_ENTRY(h_deep_from_left)
{
    Deep x;
    deep_from<Left>(x, x);
}
VP_ENTRY(h_deep_from_right)
{
    Deep x;
    deep_from<Right>(x, x);
}
VP_ENTRY(h_deep_from_third)
{
    Deep x;
    deep_from<Third>(x, x);
}
VP_ENTRY(h_deep_from_pair)
{
    Deep x;
    deep_from<Pair>(x, x);
}
VP_ENTRY(h_deep_from_rtti)
{
    Deep x;
    deep_from<cetl::rtti>(x, x);
}
VP_ENTRY(h_down)
{
    Pair  x;
    Left  y;
    Right z;
    up<Deep, Left>(x, nullptr);
    up<Pair, Right>(x, &x);
    up<Third, Left>(x, nullptr);
    up<Pair, Left>(y, nullptr);
    up<Right, Left>(y, nullptr);
    up<Left, Right>(z, nullptr);
    up<Right, cetl::rtti>(z, &z);
    vp_cover("end");
}
VP_ENTRY(h_null)
{
    Left* const             a = nullptr;
    const Deep* const       b = nullptr;
    const cetl::rtti* const c = nullptr;
    vp_assert(rtti_cast<Pair*>(a) == nullptr, "P20: cast of null is null");
    vp_assert(rtti_cast<Left*>(b) == nullptr, "P20: cast of null is null");
    vp_assert(rtti_cast<Left*>(c) == nullptr, "P20: cast of null is null");
    vp_cover("end");
}
VP_ENTRY(h_hidden)
{
    Hidden x;
    up<Left, Hidden>(x, &x);
    up<Hidden, Hidden>(x, &x);
    up<Right, Hidden>(x, nullptr);
    vp_cover("end");
}

// ------------------------------------------------------------------------- polymorphic access to a stored value
template <typename V>
void stored(V& v)
{
    const V& c = v;
    Deep* const d = cetl::get_if<Deep>(&v);
    if (d == nullptr)
    {
        vp_assert(!v.has_value(), "P20: the stored type is found");
        return;
    }
    vp_cover("stored");
    vp_assert(cetl::get_if<const Deep>(&v) == d && cetl::get_if<Deep>(&c) == d, "P17: get_if of the stored type");
    vp_assert(cetl::get_if<Left>(&v) == d && cetl::get_if<Left>(&c) == d, "P17: get_if of a base");
    vp_assert(cetl::get_if<Right>(&v) == d && cetl::get_if<const Right>(&c) == d, "P17: get_if of a base");
    vp_assert(cetl::get_if<Pair>(&v) == d && cetl::get_if<Pair>(&c) == d, "P17: get_if of a base");
    vp_assert(&cetl::get<Right&>(v) == d && &cetl::get<const Third&>(c) == d, "P17: get of a base");
    vp_assert(cetl::get_if<Other>(&v) == nullptr && cetl::get_if<Other>(&c) == nullptr, "P17: get_if of an unrelated type");
    vp_assert(cetl::get_if<Plain>(&v) == nullptr && cetl::get_if<Plain>(&c) == nullptr, "P17: get_if of an unrelated type");
    vp_assert(v.type_id() == cetl::type_id_value<Deep>, "P17: type_id is that of the stored type");
    vp_assert(v.type_size() == sizeof(Deep), "P17: type_size is that of the stored type");
}
VP_ENTRY(h_variant_inplace)
{
    using V = cetl::unbounded_variant<sizeof(Deep)>;
    Deep      x;
    const int r = x.r, t = x.t;
    V         v{x};
    stored(v);
    vp_assert(cetl::get<Right&>(v).r == r && cetl::get<Third&>(v).t == t, "P17: value of a base");
    V w{v};
    stored(w);
    vp_assert(cetl::get<Right&>(w).r == r && cetl::get<Third&>(w).t == t, "P17: value of a base");
    w = Pair{};
    vp_assert(cetl::get_if<Deep>(&w) == nullptr && cetl::get_if<Third>(&w) == nullptr, "P17: get_if of a derived type");
    vp_assert(cetl::get_if<Right>(&w) == cetl::get_if<Pair>(&w), "P17: get_if of a base");
    v = Plain{3};
    vp_assert(cetl::get_if<Left>(&v) == nullptr && cetl::get_if<Plain>(&v)->q == 3, "P17: a type that does not convert");
    vp_cover("end");
}
VP_ENTRY(h_variant_pmr)
{
    using V = cetl::unbounded_variant<0, true, true, alignof(std::max_align_t), vp::Mr>;
    vp::Mr* const m = vp::Mr::make();
    VP_TRY
    {
        V v{m, Deep{}};
        stored(v);
        V w{std::move(v)};
        stored(w);
        vp_assert(cetl::get_if<Right>(&v) == nullptr, "P17: nothing is left after a move");
        vp_cover("end");
    }
    VP_CATCH {}
}

struct Unnamed
{};
template <typename T, typename F, typename = void>
struct CanCast : std::false_type
{};
template <typename T, typename F>
struct CanCast<T, F, decltype(static_cast<void>(rtti_cast<T>(std::declval<F*>())))> : std::true_type
{};
VP_ENTRY(h_cast_constraints)
{
    vp_assert(CanCast<Left*, Pair>::value && CanCast<Left*, const Pair>::value && CanCast<Plain*, Pair>::value,
              "P20: any type with an id can be cast to");
    vp_assert(!CanCast<Unnamed*, Pair>::value && !CanCast<Unnamed*, const Pair>::value,
              "P20: a type without an id cannot be cast to");
    vp_assert(!CanCast<Left, Pair>::value && !CanCast<Left, const Pair>::value, "P20: only pointers are cast to");
    vp_assert(!CanCast<Left*, Unnamed>::value && !CanCast<Left*, const Plain>::value, "P20: only polymorphic objects with ids are cast");
    vp_cover("end");
}
