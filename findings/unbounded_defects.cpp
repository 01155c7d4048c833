// Demonstrations of defects found in cetl::unbounded_variant at d3ef4d0 (all repaired in /repo by "fix:" commits).
// g++ -std=c++17 -I/repo/include unbounded_defects.cpp -o /tmp/d && /tmp/d
#include "cetl/unbounded_variant.hpp"
#include <cassert>
#include <cstdio>
#include <cstdlib>

struct Mr
{
    int   blocks = 0;
    void* allocate(std::size_t n, std::size_t)
    {
        ++blocks;
        return std::malloc(n);
    }
    void deallocate(void* p, std::size_t, std::size_t)
    {
        --blocks;
        std::free(p);
    }
};
struct Bad
{
    Bad() = default;
    explicit Bad(int) { throw 1; }
    static constexpr cetl::type_id _get_type_id_() { return {{1}}; }
    char c[100];
};
using V = cetl::unbounded_variant<0, true, true, 16, Mr>;
using W = cetl::unbounded_variant<100>;
template <typename U>
void lose(U& u)
{
    try
    {
        u.template emplace<Bad>(1);
    } catch (int)
    {
    }
    assert(u.valueless_by_exception());
}

int main()
{
    Mr a, b;
    try
    {
        V v{&a, V::in_place_type_t<Bad>{}, 1};
    } catch (int)
    {
    }
    assert(a.blocks == 0);  // the block was lost
    {
        V v{&a}, w{&b};
        lose(v);
        lose(w);
        v.swap(w);
    }
    assert(a.blocks == 0 && b.blocks == 0);  // blocks went to the other resource
    {
        V v{&a}, w{&b, Bad{}};
        lose(v);
        v.swap(w);
    }
    assert(a.blocks == 0 && b.blocks == 0);  // the block of v was lost
    W x;
    lose(x);
    W y{x};             // crashed
    W z{std::move(x)};  // crashed
    assert(y.valueless_by_exception() && z.valueless_by_exception());
    std::puts("ok");
}
