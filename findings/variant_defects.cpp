// Demonstrations of defects found in cetl::pf17::variant at d3ef4d0 (all repaired in /repo by "fix:" commits).
// g++ -std=c++17 -I/repo/include variant_defects.cpp -o /tmp/d && /tmp/d
#include "cetl/pf17/variant.hpp"
#include <cassert>
#include <cstdio>
#include <initializer_list>

struct Source
{
    Source() = default;
    Source(Source&&) {}  // may throw
};
struct Target
{
    Target(Source&&) {}
    Target& operator=(Source&&) { return *this; }
    Target(std::initializer_list<int>, int) {}
    Target(Target&&) noexcept {}
    Target& operator=(Target&&) noexcept { return *this; }
};

int main()
{
    using cetl::pf17::variant;
    variant<int, Target> v{1};
    v = Source{};                      // did not compile
    v.emplace<1>({1, 2}, 3);           // did not compile
    variant<int, long> w{1};
    int                i   = 0;
    auto&&             res = cetl::pf17::visit([&i](auto) -> int& { return i; }, w);
    assert(&res == &i);                // was a copy
    std::puts("ok");
}
