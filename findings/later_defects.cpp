// Defects found by the constant expression, allocator selection and realignment client programs; repaired by "fix:" commits.
// g++ -std=c++17 -I <include> later_defects.cpp && ./a.out   (prints FAIL for what is wrong; -DCONSTANT must compile)
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pf17/optional.hpp"
#include "cetl/variable_length_array.hpp"
#include <cstdio>
#include <cstring>
namespace pmr = cetl::pf17::pmr;
#if defined(CONSTANT)
constexpr cetl::pf17::optional<int> full{7};
static_assert(full.value() == 7, "value() of a constant");
#endif
template <typename T>
struct Al : std::allocator<T>
{
    int id;
    template <typename U>
    struct rebind
    {
        using other = Al<U>;
    };
    explicit Al(int i) : id(i) {}
    template <typename U>
    Al(const Al<U>& o) : id(o.id) {}
    Al select_on_container_copy_construction() const { return Al(0); }
    using is_always_equal = std::false_type;
};
int main()
{
    {
        // an array copied with a given allocator used what the allocator selects for copies instead
        cetl::VariableLengthArray<int, Al<int>> a{Al<int>(1)};
        cetl::VariableLengthArray<int, Al<int>> b(a, Al<int>(5));
        std::printf("%s allocator-extended copy\n", b.get_allocator().id == 5 ? "ok" : "FAIL");
    }
    {
        // moving a block inside the buffer to a stricter alignment lost its content
        alignas(64) unsigned char               room[256];
        pmr::UnsynchronizedBufferMemoryResource r(room + 8, sizeof(room) - 8);
        char*                                   p = static_cast<char*>(r.allocate(4, 8));
        std::memcpy(p, "abc", 4);
        char* q = static_cast<char*>(r.reallocate(p, 4, 16, 64));
        std::printf("%s realignment\n", q != nullptr && std::memcmp(q, "abc", 4) == 0 ? "ok" : "FAIL");
    }
    return 0;
}
