// Defects of polymorphic_allocator, the deleters and the factory that the checks found; each was repaired by a "fix:"
// commit.   g++ -std=c++17 -I <include> pmr_defects.cpp && ./a.out   (prints FAIL for what is wrong)
#include "cetl/pf17/sys/memory_resource.hpp"
#include "cetl/pmr/memory.hpp"
#include <cstdio>
#include <cstdlib>
#include <stdexcept>
#include <string>
namespace pmr = cetl::pf17::pmr;
template <typename T>
using PA = pmr::polymorphic_allocator<T>;
struct Mr : pmr::memory_resource
{
    int         live  = 0;
    std::size_t bytes = 0;
    void*       do_allocate(std::size_t n, std::size_t) override
    {
        ++live;
        return std::malloc(n);
    }
    void do_deallocate(void* p, std::size_t, std::size_t) override
    {
        --live;
        std::free(p);
    }
    void* do_reallocate(void*, std::size_t, std::size_t n, std::size_t) override
    {
        bytes = n;
        return nullptr;
    }
    bool do_is_equal(const memory_resource& o) const noexcept override
    {
        return this == &o;
    }
};
struct Bad
{
    static int destroyed;
    Bad()
    {
        throw std::runtime_error("no");
    }
    ~Bad()
    {
        ++destroyed;
    }
};
int Bad::destroyed = 0;
struct Uses
{
    using allocator_type = PA<unsigned char>;
    std::string text;
    Uses(std::string&& s, const allocator_type&)
        : text(std::move(s))
    {
    }
};
int main()
{
    std::setvbuf(stdout, nullptr, _IONBF, 0);
    Mr mr;
    {
        PA<int> a(&mr);
        try
        {
            (void) a.reallocate(static_cast<int*>(nullptr), 0, static_cast<std::size_t>(-1) / 4 + 2);
            std::printf("FAIL reallocation of too many objects asks for %zu bytes\n", mr.bytes);
        } catch (const std::bad_array_new_length&)
        {
        }
    }
    {
        PA<std::pair<std::string, int>> a(&mr);
        auto*                           p = a.allocate(1);
        std::pair<std::string, int>     from(std::string(100, 'x'), 1);
        a.construct(p, std::move(from));
        std::printf("%s rvalue pairs are moved from\n", from.first.empty() ? "ok  " : "FAIL");
        a.destroy(p);
        a.deallocate(p, 1);
    }
    {
        PA<unsigned char>     a(&mr);
        PA<std::pair<Uses, int>> b(&mr);
        auto*                 p = b.allocate(1);
        a.construct(p, std::piecewise_construct, std::tuple<std::string>(std::string(100, 'x')), std::tuple<int>(1));
        std::printf("%s piecewise construction from values\n", p->first.text == std::string(100, 'x') ? "ok  " : "FAIL");
        a.destroy(p);
        b.deallocate(p, 1);
    }
    {
        using D = cetl::pmr::MemoryResourceDeleter<pmr::memory_resource>;
        {
            std::unique_ptr<unsigned char, D>  p(static_cast<unsigned char*>(mr.allocate(8)), D(&mr, 8));
            std::unique_ptr<unsigned char, D>& q = p;
            p                                    = std::move(q);
        }
        std::printf("%s block of a self-assigned pointer is returned\n", mr.live == 0 ? "ok  " : "FAIL");
    }
    {
        PA<Bad> a(&mr);
        try
        {
            (void) cetl::pmr::Factory::make_unique(a);
        } catch (const std::runtime_error&)
        {
        }
        std::printf("%s objects destroyed that were never made: %d\n", Bad::destroyed == 0 ? "ok  " : "FAIL", Bad::destroyed);
    }
}
