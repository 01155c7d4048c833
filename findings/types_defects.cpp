// Type-level defects that the checks found; each was repaired by a "fix:" commit.
// g++ -std=c++14 -I <include> types_defects.cpp && ./a.out   (prints FAIL for what is wrong)
#include "cetl/visit_helpers.hpp"  // first: it did not compile on its own
#include "cetl/pf17/type_traits.hpp"
#include "cetl/pf20/span.hpp"
#include <cstdio>
namespace n
{
struct S
{};
int swap(S&, S&);
}  // namespace n
int main()
{
    std::printf("%s span<int, 2> from int[1]\n",
                std::is_constructible<cetl::pf20::span<int, 2>, int (&)[1]>::value ? "FAIL" : "ok");
    std::printf("%s is_swappable with a swap that returns int\n", cetl::pf17::is_swappable<n::S>::value ? "ok" : "FAIL");
}
