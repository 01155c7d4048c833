// A memory resource for the client programs of the memory resources.
#ifndef RES_HPP
#define RES_HPP
#include "vp.hpp"
#include "cetl/pf17/memory_resource.hpp"

constexpr std::size_t ROOM = static_cast<std::size_t>(1) << 40;  // more than this is never available

// A resource that fails whenever it likes, by throwing or with a null pointer.
struct Up : public cetl::pf17::pmr::memory_resource
{
    std::size_t limit;
    std::size_t asked = 0;
    std::size_t given = 0;
    std::size_t bytes = 0;
    std::size_t align = 0;
    explicit Up(std::size_t l = vp_size_any())
        : limit(l)
    {
    }

private:
    void* do_allocate(std::size_t n, std::size_t a) override
    {
        ++asked;
        bytes = n;
        align = a;
        if (n > ROOM || vp_bool())
        {
#if defined(__cpp_exceptions)
            if (vp_bool())
            {
                throw std::bad_alloc();
            }
#endif
            return nullptr;
        }
        ++given;
        return vp_alloc(this, n, a, 0);
    }
    void do_deallocate(void* p, std::size_t n, std::size_t a) override
    {
        --given;
        vp_dealloc(this, p, n, a);
    }
    bool do_is_equal(const cetl::pf17::pmr::memory_resource& o) const noexcept override
    {
        return this == &o;
    }
    std::size_t do_max_size() const noexcept override
    {
        return limit;
    }
};
// ... that can also resize its blocks
struct UpRe final : public Up
{
    std::size_t resized = 0;

private:
    void* do_reallocate(void* p, std::size_t n, std::size_t m, std::size_t a) override
    {
        ++resized;
        bytes = m;
        if (m > ROOM)
        {
            return nullptr;
        }
        return vp_realloc(this, p, n, m, a);
    }
};
// ... whose attempt to resize fails with an exception
struct UpThrows final : public Up
{
private:
    void* do_reallocate(void* p, std::size_t n, std::size_t m, std::size_t a) override
    {
        bytes = m;
        vp_may_throw();
        if (m > ROOM)
        {
            return nullptr;
        }
        return vp_realloc(this, p, n, m, a);
    }
};
#endif
