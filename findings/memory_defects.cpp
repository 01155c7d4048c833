// Defects of the memory resources that the checks found; each was repaired by a "fix:" commit.
// g++ -std=c++17 -I <include> memory_defects.cpp && ./a.out   (prints FAIL for what is wrong)
#include "cetl/pf17/buffer_memory_resource.hpp"
#include "cetl/pf17/memory_resource.hpp"
#include <cstdio>
#include <cstdlib>
#include <new>
namespace pmr = cetl::pf17::pmr;
struct Up : pmr::memory_resource
{
    int         asked   = 0;
    int         foreign = 0;
    std::size_t align   = 0;
    void*       last    = nullptr;
    void*       do_allocate(std::size_t n, std::size_t a) override
    {
        align = a;
        if (++asked > 20 || n > (std::size_t(1) << 30))
        {
            throw std::bad_alloc();
        }
        return last = std::aligned_alloc(64, (n + 63) / 64 * 64);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override
    {
        if (p != last)
        {
            ++foreign;
            return;
        }
        std::free(p);
    }
    bool do_is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};
int main()
{
    {
        Up            up;
        unsigned char b[64];
        pmr::UnsynchronizedBufferMemoryResource r(b, sizeof b, &up, 1000);
        void* const   p = r.allocate(16, 1);
        try
        {
            (void) r.reallocate(p, 16, 128, 1);
        } catch (const std::bad_alloc&)
        {
        }
        r.deallocate(p, 16, 1);
        std::printf("%s block of the buffer given to the upstream resource after a failed reallocation\n",
                    up.foreign == 0 ? "ok  " : "FAIL");
    }
    {
        Up                            up;
        pmr::deviant::basic_monotonic_buffer_resource m(&up);
        (void) m.allocate(10, 1);
        std::printf("%s alignment of the control block: %zu\n", up.align >= alignof(void*) ? "ok  " : "FAIL", up.align);
    }
    {
        Up                            up;
        pmr::deviant::basic_monotonic_buffer_resource m(&up);
        try
        {
            (void) m.allocate(static_cast<std::size_t>(-8), 16);
            std::printf("FAIL allocation of almost the whole address space succeeds\n");
        } catch (const std::bad_alloc&)
        {
        }
        std::printf("%s upstream allocations for an impossible request: %d\n", up.asked == 0 ? "ok  " : "FAIL", up.asked);
    }
}
