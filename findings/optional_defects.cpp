// Demonstrations of defects found in cetl::pf17::optional at d3ef4d0 (all repaired in /repo by "fix:" commits).
// g++ -std=c++17 -I/repo/include optional_defects.cpp -o /tmp/d && /tmp/d
#include "cetl/pf17/optional.hpp"
#include <cassert>
#include <cmath>
#include <cstdio>

struct Thrower
{
    Thrower() = default;
    Thrower(const Thrower&) { throw 1; }
    Thrower& operator=(const Thrower&) { throw 1; }
    ~Thrower() {}
};

int main()
{
    // <= of two optionals used !(rhs < lhs): true for NaN
    const cetl::pf17::optional<double> nan{std::nan("")}, one{1.0};
    assert(!(nan <= one) && !(nan >= one));
    // an lvalue of the contained type did not convert implicitly
    cetl::pf17::optional<int> o;
    const int                 i = 5;
    o                           = i;
    assert(o == 5);
    // exceptions of the contained type ended the program
    cetl::pf17::optional<Thrower> a{cetl::pf17::in_place_t{}};
    bool                          caught = false;
    try
    {
        cetl::pf17::optional<Thrower> b(a);
    } catch (int)
    {
        caught = true;
    }
    assert(caught);
    std::puts("ok");
}
