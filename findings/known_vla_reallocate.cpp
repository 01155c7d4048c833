// Known finding (P01): an allocator that reallocates by moving the block, such as polymorphic_allocator with the new/delete
// resource, moves the bytes of elements that are not trivially copyable.  Not repaired: the existing tests rely on
// reallocation of such elements (in place, by a buffer resource), and the interface does not tell the two cases apart.
// g++ -std=c++17 -fsanitize=address -I <include> known_vla_reallocate.cpp && ./a.out
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/variable_length_array.hpp"
#include <cstdio>
#include <cstdlib>
#include <string>
int main()
{
    using A = cetl::pf17::pmr::polymorphic_allocator<std::string>;
    cetl::VariableLengthArray<std::string, A> v{A{cetl::pf17::pmr::new_delete_resource()}};
    for (int i = 0; i < 100; ++i)
    {
        v.push_back("s" + std::to_string(i));
        void* volatile gap = std::malloc(static_cast<std::size_t>(100 + i));
        (void) gap;
    }
    int bad = 0;
    for (std::size_t i = 0; i < 100; ++i)
    {
        bad += v[i] != "s" + std::to_string(i);
    }
    std::printf("%s strings lost when the array grew: %d\n", bad == 0 ? "ok  " : "FAIL", bad);
}
