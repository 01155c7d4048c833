// Element types that have exactly one special member of their own; the others are trivial.  A value remembers how it came
// about, so that an operation that bypasses the type's own member shows.
#ifndef VP_FLAT_HPP
#define VP_FLAT_HPP
#include "vp.hpp"

namespace vp
{
enum How : std::uint32_t
{
    MADE    = 1,
    COPIED  = 2,
    MOVED   = 3,
    COPYSET = 4,
    MOVESET = 5
};
// K: 0 none, 1 copy construction, 2 move construction, 3 copy assignment, 4 move assignment, 5 destruction, 6 move construction
// that cannot fail
struct FlatData
{
    std::uint32_t v;
    std::uint32_t how;
};
#define VP_FLAT(K, CC, MC, CA, MA, DT)                          \
    template <>                                                 \
    struct Flat<K> : FlatData                                   \
    {                                                           \
        explicit Flat(std::uint32_t x)                          \
            : FlatData{x, MADE}                                 \
        {                                                       \
            vp_may_throw();                                     \
        }                                                       \
        Flat(const Flat& o) CC                                  \
        Flat(Flat&& o) MC                                       \
        Flat& operator=(const Flat& o) CA                       \
        Flat& operator=(Flat&& o) MA                            \
        ~Flat() DT                                              \
    }
#define VP_FLAT_MAKES(HOW) : FlatData{o.v, HOW} { vp_may_throw(); }
#define VP_FLAT_MOVES noexcept : FlatData{o.v, MOVED} {}
#define VP_FLAT_SETS(HOW) { vp_may_throw(); v = o.v; how = HOW; return *this; }
template <int K>
struct Flat;
VP_FLAT(0, = default;, = default;, = default;, = default;, = default;);
VP_FLAT(1, VP_FLAT_MAKES(COPIED), = default;, = default;, = default;, = default;);
VP_FLAT(2, = default;, VP_FLAT_MAKES(MOVED), = default;, = default;, = default;);
VP_FLAT(3, = default;, = default;, VP_FLAT_SETS(COPYSET), = default;, = default;);
VP_FLAT(4, = default;, = default;, = default;, VP_FLAT_SETS(MOVESET), = default;);
VP_FLAT(5, = default;, = default;, = default;, = default;, {});
VP_FLAT(6, = default;, VP_FLAT_MOVES, = default;, = default;, = default;);

// how a value is marked after each operation, given the mark of its source
template <int K>
constexpr std::uint32_t copied(std::uint32_t h) { return (K == 1) ? static_cast<std::uint32_t>(COPIED) : h; }
template <int K>
constexpr std::uint32_t moved_to(std::uint32_t h) { return (K == 2 || K == 6) ? static_cast<std::uint32_t>(MOVED) : h; }
template <int K>
constexpr std::uint32_t copy_set(std::uint32_t h) { return (K == 3) ? static_cast<std::uint32_t>(COPYSET) : h; }
template <int K>
constexpr std::uint32_t move_set(std::uint32_t h) { return (K == 4) ? static_cast<std::uint32_t>(MOVESET) : h; }
}  // namespace vp
#endif
