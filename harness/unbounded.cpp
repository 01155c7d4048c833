// Client programs of cetl::unbounded_variant.
#include "vp.hpp"
#include "cetl/unbounded_variant.hpp"

using cetl::get;
using cetl::get_if;
using cetl::unbounded_variant;

#define TYPE_ID(T, n)                                         \
    template <>                                               \
    constexpr cetl::type_id cetl::type_id_getter<T>() noexcept \
    {                                                         \
        return {{n, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, n + 1}}; \
    }
TYPE_ID(vp::Elem, 1)
TYPE_ID(vp::Big, 2)
TYPE_ID(vp::Calm, 3)
TYPE_ID(vp::Thrower, 4)
TYPE_ID(std::uint32_t, 5)

template <std::size_t Foot, bool C, bool M, typename P = void>
using UV = unbounded_variant<Foot, C, M, alignof(std::max_align_t), P>;
// N: in place only; Q: allocated only; B: small values in place, larger ones allocated.
// Suffix C: copyable only; M: movable only; X: neither.
using N  = UV<64, true, true>;
using NC = UV<64, true, false>;
using NM = UV<64, false, true>;
using NX = UV<64, false, false>;
using Q  = UV<0, true, true, vp::Mr>;
using QC = UV<0, true, false, vp::Mr>;
using QM = UV<0, false, true, vp::Mr>;
using QX = UV<0, false, false, vp::Mr>;
using B  = UV<24, true, true, vp::Mr>;
using BC = UV<24, true, false, vp::Mr>;
using BM = UV<24, false, true, vp::Mr>;
using BX = UV<24, false, false, vp::Mr>;

constexpr int EMPTY = 0;
constexpr int ELEM  = 1;
constexpr int BIG   = 2;
constexpr int CALM  = 3;
constexpr int LOST  = 4;

template <typename V>
using Ip = typename V::template in_place_type_t<vp::Elem>;

// with or without a memory resource
template <typename V, typename P>
struct Kit
{
    static constexpr bool has_mr = true;
    template <typename... A>
    static V make(P* m, A&&... a)
    {
        return V(m, std::forward<A>(a)...);
    }
    static P* mr(const V& v)
    {
        return v.get_memory_resource();
    }
    static void reset(V& v, P* m)
    {
        v.reset(m);
    }
};
template <typename V>
struct Kit<V, void>
{
    static constexpr bool has_mr = false;
};
template <typename V>
using kit = Kit<V, typename V::pmr_type>;

// storage for a variant that is destroyed by hand, so that non-movable ones can be built by every constructor
template <typename V>
std::enable_if_t<kit<V>::has_mr, const vp::Mr*> mr_of(const V& v)
{
    return v.get_memory_resource();
}
template <typename V>
std::enable_if_t<!kit<V>::has_mr, const vp::Mr*> mr_of(const V&)
{
    return nullptr;
}

#define IS(w, k_, x_, msg)                                                                                       \
    vp_assert((w).has_value() == ((k_) != EMPTY && (k_) != LOST), "P18: has_value: " msg);                       \
    vp_assert((w).valueless_by_exception() == ((k_) == LOST), "P18: valueless_by_exception: " msg);              \
    vp_assert((get_if<vp::Elem>(&(w)) != nullptr) == ((k_) == ELEM), "P17: get_if tells an Elem: " msg);         \
    vp_assert((get_if<const vp::Big>(&(w)) != nullptr) == ((k_) == BIG), "P17: get_if tells a Big: " msg);       \
    vp_assert((get_if<vp::Calm>(&(w)) != nullptr) == ((k_) == CALM), "P17: get_if tells a Calm: " msg);          \
    vp_assert((w).type_size() == ((k_) == ELEM ? sizeof(vp::Elem) : (k_) == BIG ? sizeof(vp::Big) : (k_) == CALM ? sizeof(vp::Calm) : 0U), \
              "P17: type_size: " msg);                                                                           \
    vp_assert(((w).type_id() == cetl::type_id_value<vp::Elem>) == ((k_) == ELEM), "P17: type_id of an Elem: " msg); \
    vp_assert(((w).type_id() == cetl::type_id_value<void>) == ((k_) == EMPTY || (k_) == LOST), "P17: type_id of nothing: " msg); \
    if (get_if<vp::Elem>(&(w)) != nullptr)                                                                       \
    {                                                                                                            \
        vp_assert(vp::val(*get_if<vp::Elem>(&(w))) == (x_), "P17: value: " msg);                                 \
    }                                                                                                            \
    if (get_if<vp::Big>(&(w)) != nullptr)                                                                        \
    {                                                                                                            \
        vp_assert(vp::val(*get_if<vp::Big>(&(w))) == (x_), "P17: value: " msg);                                  \
    }                                                                                                            \
    if (get_if<vp::Calm>(&(w)) != nullptr)                                                                       \
    {                                                                                                            \
        vp_assert(vp::val(*get_if<vp::Calm>(&(w))) == (x_), "P17: value: " msg);                                 \
    }
#define USES(w, m_, msg) vp_assert(!kit<std::decay_t<decltype(w)>>::has_mr || mr_of(w) == (m_), "P16: memory resource: " msg)

// a value that fits the footprint lives inside the variant
template <typename T, typename V>
bool inside(const V& v)
{
    const auto* const p = reinterpret_cast<const unsigned char*>(get_if<T>(&v));
    const auto* const q = reinterpret_cast<const unsigned char*>(&v);
    return p >= q && p + sizeof(T) <= q + sizeof(V);
}
template <typename V>
struct Foot;
template <std::size_t F, bool C, bool M, std::size_t A, typename P>
struct Foot<unbounded_variant<F, C, M, A, P>>
{
    static constexpr std::size_t value = F;
};
#define PLACED(w)                                                                                \
    if (sizeof(vp::Elem) <= Foot<std::decay_t<decltype(w)>>::value && get_if<vp::Elem>(&(w)))    \
    {                                                                                            \
        vp_assert(inside<vp::Elem>(w), "P16: a value that fits is stored in place");             \
    }                                                                                            \
    if (sizeof(vp::Big) <= Foot<std::decay_t<decltype(w)>>::value && get_if<vp::Big>(&(w)))      \
    {                                                                                            \
        vp_assert(inside<vp::Big>(w), "P16: a value that fits is stored in place");              \
    }

// a default-constructed variant with a fresh resource
template <typename V, bool = kit<V>::has_mr>
struct Fresh
{
    vp::Mr* m;
    V       v;
    Fresh()
        : m(vp::Mr::make())
        , v(m)
    {
    }
};
template <typename V>
struct Fresh<V, false>
{
    vp::Mr* m;
    V       v;
    Fresh()
        : m(nullptr)
        , v()
    {
    }
};

template <typename T>
struct Num;
template <>
struct Num<vp::Elem>
{
    static constexpr int value = ELEM;
};
template <>
struct Num<vp::Big>
{
    static constexpr int value = BIG;
};
template <>
struct Num<vp::Calm>
{
    static constexpr int value = CALM;
};

// any variant: empty, holding a value, or without one after a failure
template <typename V>
struct Any : Fresh<V>
{
    int         k = EMPTY;
    std::size_t x = 0;
    using Fresh<V>::v;
    Any()
    {
        if (vp_bool())
        {
            put(vp::object<vp::Elem>());
        }
        else if (vp_bool())
        {
            put(vp::object<vp::Big>());
        }
        else if (vp_bool())
        {
            put(vp::object<vp::Calm>());
        }
    }
    template <typename T>
    void put(const T& s)
    {
        x = vp::val(s);
        VP_TRY
        {
            T* const p = v.template emplace<T>(s);
            k          = (p != nullptr) ? Num<T>::value : LOST;
        }
        VP_CATCH
        {
            k = LOST;
        }
    }
};
#define SAME(a, msg) \
    IS((a).v, (a).k, (a).x, msg) \
    USES((a).v, (a).m, msg);

#define EACH(X) X(N) X(NC) X(NM) X(NX) X(Q) X(QC) X(QM) X(QX) X(B) X(BC) X(BM) X(BX)
#define EACH_COPY(X) X(N) X(NC) X(Q) X(QC) X(B) X(BC)
#define EACH_MOVE(X) X(N) X(NM) X(Q) X(QM) X(B) X(BM)
#define EACH_MR(X) X(Q) X(QC) X(QM) X(QX) X(B) X(BC) X(BM) X(BX)
#define EACH_NOMR(X) X(N) X(NC) X(NM) X(NX)

// ---------------------------------------------------------------------------------------------- construction
#define E(V)                              \
    VP_ENTRY(h_empty_##V)                   \
    {                                     \
        Fresh<V> f;                       \
        vp_cover("end");                  \
        IS(f.v, EMPTY, 0U, "constructed empty") \
        USES(f.v, f.m, "constructed empty"); \
    }
EACH(E)
#undef E
#define E(V)                                                       \
    VP_ENTRY(h_states_##V)                                           \
    {                                                              \
        Any<V> a;                                                  \
        vp_cover("end");                                           \
        if (a.k == LOST) { vp_cover("lost"); }                     \
        SAME(a, "after emplace")                                   \
        PLACED(a.v)                                                \
        a.v.reset();                                               \
        IS(a.v, EMPTY, 0U, "after reset")                          \
        USES(a.v, a.m, "after reset");                             \
        a.v.reset();                                               \
        IS(a.v, EMPTY, 0U, "after a second reset")                 \
    }
EACH(E)
#undef E

// construction from a value, with the object built where the constructor may throw
template <typename V, typename T, typename Made>
void made(Made&& make, std::size_t x, const vp::Mr* m)
{
    VP_TRY
    {
        const V v(make());
        vp_cover("end");
        const int k = v.has_value() ? Num<T>::value : LOST;
        IS(v, k, x, "constructed from a value")
        USES(v, m, "constructed from a value");
#if defined(__cpp_exceptions)
        vp_assert(v.has_value(), "P18: a constructor that returns has stored the value");
#endif
    }
    VP_CATCH
    {
        vp_cover("fails");
    }
}
template <typename V, typename T, typename Made>
void made(Made&& make, const vp::Mr* m, const vp::Src& r)
{
    VP_TRY
    {
        const V v(make());
        vp_cover("end");
        const T* const p = get_if<T>(&v);
        const int      k = (p != nullptr) ? Num<T>::value : LOST;
        IS(v, k, vp::val(*p), "constructed from a list")
        USES(v, m, "constructed from a list");
        vp_assert((p != nullptr) == vp::moved(r), "P17: arguments are forwarded");
    }
    VP_CATCH
    {
        vp_cover("fails");
    }
}
#if __cplusplus >= 201703L
#    define EACH_MADE_MR(X) EACH_MR(X)
#    define EACH_MADE_NOMR(X) EACH_NOMR(X)
#else
#    define EACH_MADE_MR(X) X(Q) X(QM) X(B) X(BM)
#    define EACH_MADE_NOMR(X) X(N) X(NM)
#endif
#define E(V)                                                                                                    \
    VP_ENTRY(h_ctor_copy_elem_##V)                                                                                \
    {                                                                                                           \
        const vp::Elem& s = vp::object<vp::Elem>();                                                             \
        vp::Mr* const   m = vp::Mr::make();                                                                     \
        made<V, vp::Elem>([&]() { return V(m, s); }, vp::val(s), m);                                            \
    }                                                                                                           \
    VP_ENTRY(h_ctor_move_elem_##V)                                                                                \
    {                                                                                                           \
        vp::Elem&         s = vp::object<vp::Elem>();                                                           \
        const std::size_t x = vp::val(s);                                                                       \
        vp::Mr* const     m = vp::Mr::make();                                                                   \
        made<V, vp::Elem>([&]() { return V(m, std::move(s)); }, x, m);                                          \
    }                                                                                                           \
    VP_ENTRY(h_ctor_copy_big_##V)                                                                                 \
    {                                                                                                           \
        const vp::Big& s = vp::object<vp::Big>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Big>([&]() { return V(m, s); }, vp::val(s), m);                                             \
    }                                                                                                           \
    VP_ENTRY(h_ctor_inplace_elem_##V)                                                                             \
    {                                                                                                           \
        const vp::Elem& s = vp::object<vp::Elem>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Elem>([&]() { return V(m, V::in_place_type_t<vp::Elem>{}, s); }, vp::val(s), m);            \
    }                                                                                                           \
    VP_ENTRY(h_ctor_inplace_big_##V)                                                                              \
    {                                                                                                           \
        const vp::Big& s = vp::object<vp::Big>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Big>([&]() { return V(m, V::in_place_type_t<vp::Big>{}, s); }, vp::val(s), m);              \
    }                                                                                                           \
    VP_ENTRY(h_ctor_list_big_##V)                                                                                 \
    {                                                                                                           \
        const vp::Src& s = vp::object<vp::Src>();                                                               \
        vp::Src&       r = vp::object<vp::Src>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Big>([&]() { return V(m, V::in_place_type_t<vp::Big>{}, {1, 2}, s, std::move(r)); }, m, r); \
    }                                                                                                           \
    VP_ENTRY(h_make_big_##V)                                                                                      \
    {                                                                                                           \
        const vp::Big& s = vp::object<vp::Big>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Big>([&]() { return cetl::make_unbounded_variant<vp::Big, V>(m, s); }, vp::val(s), m);      \
    }                                                                                                           \
    VP_ENTRY(h_make_list_big_##V)                                                                                 \
    {                                                                                                           \
        const vp::Src& s = vp::object<vp::Src>();                                                               \
        vp::Src&       r = vp::object<vp::Src>();                                                               \
        vp::Mr* const  m = vp::Mr::make();                                                                      \
        made<V, vp::Big>([&]() { return cetl::make_unbounded_variant<vp::Big, V>(m, {1, 2}, s, std::move(r)); }, m, r); \
    }
EACH_MADE_MR(E)
#undef E
#define E(V)                                                                                                    \
    VP_ENTRY(h_ctor_copy_elem_##V)                                                                                \
    {                                                                                                           \
        const vp::Elem& s = vp::object<vp::Elem>();                                                             \
        made<V, vp::Elem>([&]() { return V(s); }, vp::val(s), nullptr);                                         \
    }                                                                                                           \
    VP_ENTRY(h_ctor_move_elem_##V)                                                                                \
    {                                                                                                           \
        vp::Elem&         s = vp::object<vp::Elem>();                                                           \
        const std::size_t x = vp::val(s);                                                                       \
        made<V, vp::Elem>([&]() { return V(std::move(s)); }, x, nullptr);                                       \
    }                                                                                                           \
    VP_ENTRY(h_ctor_inplace_big_##V)                                                                              \
    {                                                                                                           \
        const vp::Big& s = vp::object<vp::Big>();                                                               \
        made<V, vp::Big>([&]() { return V(V::in_place_type_t<vp::Big>{}, s); }, vp::val(s), nullptr);           \
    }                                                                                                           \
    VP_ENTRY(h_ctor_list_big_##V)                                                                                 \
    {                                                                                                           \
        const vp::Src& s = vp::object<vp::Src>();                                                               \
        vp::Src&       r = vp::object<vp::Src>();                                                               \
        made<V, vp::Big>([&]() { return V(V::in_place_type_t<vp::Big>{}, {1, 2}, s, std::move(r)); }, nullptr, r); \
    }                                                                                                           \
    VP_ENTRY(h_make_big_##V)                                                                                      \
    {                                                                                                           \
        const vp::Big& s = vp::object<vp::Big>();                                                               \
        made<V, vp::Big>([&]() { return cetl::make_unbounded_variant<vp::Big, V>(s); }, vp::val(s), nullptr);   \
    }                                                                                                           \
    VP_ENTRY(h_make_list_big_##V)                                                                                 \
    {                                                                                                           \
        const vp::Src& s = vp::object<vp::Src>();                                                               \
        vp::Src&       r = vp::object<vp::Src>();                                                               \
        made<V, vp::Big>([&]() { return cetl::make_unbounded_variant<vp::Big, V>({1, 2}, s, std::move(r)); }, nullptr, r); \
    }
EACH_MADE_NOMR(E)
#undef E

// ------------------------------------------------------------------------------------------- copies and moves
#define E(V)                                                                        \
    VP_ENTRY(h_copy_ctor_##V)                                                         \
    {                                                                               \
        Any<V> a;                                                                   \
        VP_TRY                                                                      \
        {                                                                           \
            const V w(a.v);                                                         \
            vp_cover("end");                                                        \
            const int k = w.has_value() || (a.k == EMPTY) ? a.k : LOST;             \
            IS(w, k, a.x, "copy")                                                   \
            USES(w, a.m, "copy");                                                   \
        }                                                                           \
        VP_CATCH                                                                    \
        {                                                                           \
            vp_cover("fails");                                                      \
        }                                                                           \
        SAME(a, "source of a copy")                                                 \
    }                                                                               \
    VP_ENTRY(h_copy_assign_##V)                                                       \
    {                                                                               \
        Any<V> a;                                                                   \
        Any<V> b;                                                                   \
        VP_TRY                                                                      \
        {                                                                           \
            V& r = (b.v = a.v);                                                     \
            vp_cover("end");                                                        \
            vp_assert(&r == &b.v, "P17: assignment returns the variant");           \
            const int k = b.v.has_value() || (a.k == EMPTY) ? a.k : LOST;           \
            IS(b.v, k, a.x, "copy assigned")                                        \
            USES(b.v, a.m, "copy assigned");                                        \
        }                                                                           \
        VP_CATCH                                                                    \
        {                                                                           \
            vp_cover("fails");                                                      \
            IS(b.v, LOST, 0U, "failed copy assignment")                             \
        }                                                                           \
        SAME(a, "source of a copy")                                                 \
    }                                                                               \
    VP_ENTRY(h_copy_outlives_##V)                                                     \
    {                                                                               \
        Any<V> a;                                                                   \
        VP_TRY                                                                      \
        {                                                                           \
            const V w(a.v);                                                         \
            const int k = w.has_value() || (a.k == EMPTY) ? a.k : LOST;             \
            a.v.reset();                                                            \
            IS(w, k, a.x, "copy whose source is gone")                              \
        }                                                                           \
        VP_CATCH                                                                    \
        {                                                                           \
        }                                                                           \
    }                                                                               \
    VP_ENTRY(h_copy_assign_self_##V)                                                  \
    {                                                                               \
        Any<V> a;                                                                   \
        V&     r = a.v;                                                             \
        a.v      = r;                                                               \
        vp_cover("end");                                                            \
        SAME(a, "self assigned")                                                    \
    }
EACH_COPY(E)
#undef E
#define E(V)                                                                        \
    VP_ENTRY(h_move_ctor_##V)                                                         \
    {                                                                               \
        Any<V>  a;                                                                  \
        const V w(std::move(a.v));                                                  \
        vp_cover("end");                                                            \
        IS(w, a.k, a.x, "moved to")                                                 \
        USES(w, a.m, "moved to");                                                   \
        IS(a.v, EMPTY, 0U, "moved from")                                            \
        USES(a.v, a.m, "moved from");                                               \
    }                                                                               \
    VP_ENTRY(h_move_assign_##V)                                                       \
    {                                                                               \
        Any<V> a;                                                                   \
        Any<V> b;                                                                   \
        V&     r = (b.v = std::move(a.v));                                          \
        vp_cover("end");                                                            \
        vp_assert(&r == &b.v, "P17: assignment returns the variant");               \
        IS(b.v, a.k, a.x, "move assigned")                                          \
        USES(b.v, a.m, "move assigned");                                            \
        IS(a.v, EMPTY, 0U, "moved from")                                            \
        USES(a.v, a.m, "moved from");                                               \
    }                                                                               \
    VP_ENTRY(h_move_assign_self_##V)                                                  \
    {                                                                               \
        Any<V> a;                                                                   \
        V&     r = a.v;                                                             \
        a.v      = std::move(r);                                                    \
        vp_cover("end");                                                            \
        SAME(a, "self move assigned")                                               \
    }                                                                               \
    VP_ENTRY(h_move_reuse_##V)                                                        \
    {                                                                               \
        Any<V>         a;                                                           \
        const V        w(std::move(a.v));                                           \
        a.put(vp::object<vp::Big>());                                               \
        vp_cover("end");                                                            \
        SAME(a, "reused after a move")                                              \
    }
EACH_MOVE(E)
#undef E

// swap of copyable-only variants copies, so it may fail
#define E(V)                                                                        \
    VP_ENTRY(h_swap_##V)                                                              \
    {                                                                               \
        Any<V> a;                                                                   \
        Any<V> b;                                                                   \
        a.v.swap(b.v);                                                              \
        vp_cover("end");                                                            \
        if ((a.k != LOST) && (b.k != LOST))                                         \
        {                                                                           \
            IS(a.v, b.k, b.x, "swapped")                                            \
            IS(b.v, a.k, a.x, "swapped")                                            \
        }                                                                           \
        else                                                                        \
        {                                                                           \
            vp_cover("lost");                                                       \
            /* which of the variants without a value tells so is not specified */   \
            const int ka = (b.k == LOST || b.k == EMPTY) ? (a.v.valueless_by_exception() ? LOST : EMPTY) : b.k; \
            const int kb = (a.k == LOST || a.k == EMPTY) ? (b.v.valueless_by_exception() ? LOST : EMPTY) : a.k; \
            IS(a.v, ka, b.x, "swapped with a lost value")                           \
            IS(b.v, kb, a.x, "swapped with a lost value")                           \
        }                                                                           \
        USES(a.v, b.m, "swapped");                                                  \
        USES(b.v, a.m, "swapped");                                                  \
    }                                                                               \
    VP_ENTRY(h_swap_self_##V)                                                         \
    {                                                                               \
        Any<V> a;                                                                   \
        a.v.swap(a.v);                                                              \
        vp_cover("end");                                                            \
        SAME(a, "swapped with itself")                                              \
    }
EACH_MOVE(E)
#undef E
#define E(V)                                                                        \
    VP_ENTRY(h_swap_##V)                                                              \
    {                                                                               \
        Any<V> a;                                                                   \
        Any<V> b;                                                                   \
        VP_TRY                                                                      \
        {                                                                           \
            a.v.swap(b.v);                                                          \
            vp_cover("end");                                                        \
            if (((a.v.has_value() || (b.k == EMPTY)) && (b.v.has_value() || (a.k == EMPTY)))) \
            {                                                                       \
                IS(a.v, b.k, b.x, "swapped")                                        \
                IS(b.v, a.k, a.x, "swapped")                                        \
                USES(a.v, b.m, "swapped");                                          \
                USES(b.v, a.m, "swapped");                                          \
            }                                                                       \
        }                                                                           \
        VP_CATCH                                                                    \
        {                                                                           \
            vp_cover("fails");                                                      \
        }                                                                           \
    }                                                                               \
    VP_ENTRY(h_swap_self_##V)                                                         \
    {                                                                               \
        Any<V> a;                                                                   \
        a.v.swap(a.v);                                                              \
        vp_cover("end");                                                            \
        SAME(a, "swapped with itself")                                              \
    }
E(NC) E(QC) E(BC)
#undef E

// -------------------------------------------------------------------------------------------- assigning values
template <typename V, typename T>
void assign_copy()
{
    Any<V>   a;
    const T& s = vp::object<T>();
    VP_TRY
    {
        V& r = (a.v = s);
        vp_cover("end");
        vp_assert(&r == &a.v, "P17: assignment returns the variant");
        const int k = a.v.has_value() ? Num<T>::value : LOST;
        IS(a.v, k, vp::val(s), "assigned a value")
    }
    VP_CATCH
    {
        vp_cover("fails");
        IS(a.v, LOST, 0U, "failed assignment of a value")
    }
    USES(a.v, a.m, "assigned a value");
}
template <typename V, typename T>
void assign_move()
{
    Any<V>            a;
    T&                s = vp::object<T>();
    const std::size_t x = vp::val(s);
    VP_TRY
    {
        V& r = (a.v = std::move(s));
        vp_cover("end");
        vp_assert(&r == &a.v, "P17: assignment returns the variant");
        const int k = a.v.has_value() ? Num<T>::value : LOST;
        IS(a.v, k, x, "assigned an rvalue")
        vp_assert(vp::moved(s) == a.v.has_value(), "P17: an rvalue is moved in");
    }
    VP_CATCH
    {
        vp_cover("fails");
        IS(a.v, LOST, 0U, "failed assignment of a value")
    }
    USES(a.v, a.m, "assigned an rvalue");
}
template <typename V, typename T>
void emplace()
{
    Any<V>   a;
    const T& s = vp::object<T>();
    VP_TRY
    {
        T* const p = a.v.template emplace<T>(s);
        vp_cover("end");
        const int k = (p != nullptr) ? Num<T>::value : LOST;
        IS(a.v, k, vp::val(s), "emplaced")
        vp_assert(p == get_if<T>(&a.v), "P17: emplace returns the value");
#if defined(__cpp_exceptions)
        vp_assert(p != nullptr, "P18: emplace that returns has stored the value");
#endif
    }
    VP_CATCH
    {
        vp_cover("fails");
        IS(a.v, LOST, 0U, "failed emplace")
    }
    USES(a.v, a.m, "emplaced");
}
template <typename V, typename T>
void emplace_list()
{
    Any<V>         a;
    const vp::Src& s = vp::object<vp::Src>();
    vp::Src&       q = vp::object<vp::Src>();
    VP_TRY
    {
        T* const p = a.v.template emplace<T>({1, 2}, s, std::move(q));
        vp_cover("end");
        const int k = (p != nullptr) ? Num<T>::value : LOST;
        IS(a.v, k, vp::val(*p), "emplaced from a list")
        vp_assert((p != nullptr) == vp::moved(q), "P17: arguments are forwarded");
        vp_assert(p == get_if<T>(&a.v), "P17: emplace returns the value");
    }
    VP_CATCH
    {
        vp_cover("fails");
        IS(a.v, LOST, 0U, "failed emplace")
    }
    USES(a.v, a.m, "emplaced from a list");
}
#define E(V)                                                      \
    VP_ENTRY(h_assign_copy_elem_##V) { assign_copy<V, vp::Elem>(); } \
    VP_ENTRY(h_assign_copy_big_##V) { assign_copy<V, vp::Big>(); }  \
    VP_ENTRY(h_assign_move_elem_##V) { assign_move<V, vp::Elem>(); } \
    VP_ENTRY(h_assign_move_big_##V) { assign_move<V, vp::Big>(); }  \
    VP_ENTRY(h_emplace_elem_##V) { emplace<V, vp::Elem>(); }        \
    VP_ENTRY(h_emplace_big_##V) { emplace<V, vp::Big>(); }          \
    VP_ENTRY(h_emplace_list_big_##V) { emplace_list<V, vp::Big>(); }
EACH(E)
#undef E

#define E(V)                                      \
    VP_ENTRY(h_reset_mr_##V)                        \
    {                                             \
        Any<V>        a;                          \
        vp::Mr* const m = vp::Mr::make();         \
        a.v.reset(m);                             \
        vp_cover("end");                          \
        IS(a.v, EMPTY, 0U, "reset")               \
        USES(a.v, m, "reset to another resource"); \
        a.m = m;                                  \
        a.put(vp::object<vp::Big>());       \
        SAME(a, "reused after a reset")           \
    }
EACH_MR(E)
#undef E

// -------------------------------------------------------------------------------------------------- access
#if defined(__cpp_exceptions)
#    define REFUSES(expr, msg)                                  \
        {                                                       \
            bool refused = false;                               \
            try                                                 \
            {                                                   \
                (void) (expr);                                  \
            } catch (const cetl::bad_unbounded_variant_access&) \
            {                                                   \
                refused = true;                                 \
            }                                                   \
            vp_assert(refused, msg);                            \
        }
#else
#    define REFUSES(expr, msg)
#endif
template <typename V>
void access()
{
    Any<V>   a;
    const V& c = a.v;
    if (a.k == ELEM)
    {
        vp_cover("elem");
        vp_assert(&get<vp::Elem&>(a.v) == get_if<vp::Elem>(&a.v), "P17: get refers to the stored value");
        vp_assert(&get<const vp::Elem&>(c) == get_if<vp::Elem>(&a.v), "P17: get refers to the stored value");
        vp_assert(&get<const vp::Elem&>(a.v) == get_if<vp::Elem>(&c), "P17: get refers to the stored value");
        vp::Elem&& r = get<vp::Elem&&>(std::move(a.v));
        vp_assert(&r == get_if<vp::Elem>(&c), "P17: get refers to the stored value");
    }
    else
    {
        vp_cover("other");
        REFUSES(get<vp::Elem&>(a.v), "P17: get of another type is refused")
        REFUSES(get<const vp::Elem&>(c), "P17: get of another type is refused")
        REFUSES(get<vp::Elem&&>(std::move(a.v)), "P17: get of another type is refused")
        REFUSES(get<vp::Thrower&>(a.v), "P17: get of another type is refused")
        vp_assert(get_if<vp::Thrower>(&a.v) == nullptr, "P17: get_if of another type is null");
        vp_assert(get_if<const vp::Thrower>(&c) == nullptr, "P17: get_if of another type is null");
    }
    V* const       nv = nullptr;
    const V* const nc = nullptr;
    vp_assert(get_if<vp::Elem>(nv) == nullptr, "P17: get_if of no variant is null");
    vp_assert(get_if<vp::Elem>(nc) == nullptr, "P17: get_if of no variant is null");
    SAME(a, "after access")
}
template <typename V>
void by_value()
{
    Any<V>   a;
    const V& c = a.v;
    vp_assume(a.k == BIG);
    VP_TRY
    {
        const vp::Big s = get<vp::Big>(c);
        vp_assert(vp::val(s) == a.x, "P17: get copies the value");
        const vp::Big t = get<vp::Big>(a.v);
        vp_assert(vp::val(t) == a.x, "P17: get copies the value");
        SAME(a, "after get by value")
        const vp::Big u = get<vp::Big>(std::move(a.v));
        vp_assert(vp::val(u) == a.x, "P17: get moves the value out");
        vp_assert(vp::moved(*get_if<vp::Big>(&a.v)), "P17: get of an rvalue moves");
        vp_cover("end");
    }
    VP_CATCH
    {
        vp_cover("fails");
        SAME(a, "after a failed get")
    }
}
#define E(V)                               \
    VP_ENTRY(h_access_##V) { access<V>(); }  \
    VP_ENTRY(h_by_value_##V) { by_value<V>(); }
E(N) E(NX) E(Q) E(QC) E(B) E(BM)
#undef E
