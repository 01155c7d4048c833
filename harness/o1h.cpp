// Client programs of the o1heap resource delegate, with a stand-in for the heap itself.
#include "vp.hpp"
#include "cetl/pmr/o1heap_memory_resource_delegate.hpp"
namespace pmr = cetl::pmr;

static void*       heap_base;
static std::size_t heap_size;
static int         inits, frees;
static char        instance;
static void*       freed;
static std::size_t requested;

extern "C" O1HeapInstance* o1heapInit(void* base, size_t size)
{
    heap_base = base;
    heap_size = size;
    ++inits;
    return reinterpret_cast<O1HeapInstance*>(&instance);
}
extern "C" void* o1heapAllocate(O1HeapInstance* handle, size_t amount)
{
    vp_assert(reinterpret_cast<char*>(handle) == &instance, "P24: blocks come from the heap that was set up");
    requested = amount;
    return amount == 0 ? nullptr : vp_alloc(handle, amount, O1HEAP_ALIGNMENT, 0);
}
extern "C" void o1heapFree(O1HeapInstance* handle, void* pointer)
{
    vp_assert(reinterpret_cast<char*>(handle) == &instance, "P24: blocks go back to the heap they came from");
    ++frees;
    freed = pointer;
    if (pointer != nullptr)
    {
        vp_dealloc(handle, pointer, vp_block_size(pointer), O1HEAP_ALIGNMENT);
    }
}

VP_ENTRY(h_o1_make)
{
    const std::size_t n = vp_size();
    void* const       b = vp_buffer(n);
    pmr::UnsynchronizedO1HeapMemoryResourceDelegate d(b, n);
    vp_assert(inits == 1 && heap_base == b && heap_size == n, "P24: the heap manages exactly the given buffer");
    vp_assert(d.max_size() == n, "P24: max_size is the size of the buffer");
    vp_cover("end");
}
VP_ENTRY(h_o1_storage)
{
    using S = pmr::O1HeapAlignedStorage<4096>;
    S                                               s;
    pmr::UnsynchronizedO1HeapMemoryResourceDelegate d(s);
    vp_assert(inits == 1 && heap_base == static_cast<void*>(&s) && heap_size <= sizeof(s) && heap_size >= 4096,
              "P24: the heap manages the given storage and nothing past it");
    vp_assert(alignof(S) % O1HEAP_ALIGNMENT == 0, "P24: the storage is aligned as the heap needs it");
    vp_assert(d.max_size() <= sizeof(s), "P24: max_size is within the storage");
    vp_cover("end");
}
VP_ENTRY(h_o1_block)
{
    const std::size_t n = vp_size();
    void* const       b = vp_buffer(n);
    pmr::UnsynchronizedO1HeapMemoryResourceDelegate d(b, n);
    const std::size_t                               want = vp_size();
    void*                                           p    = nullptr;
    VP_TRY
    {
        p = vp_bool() ? d.allocate(want) : d.allocate(want, 8);
#if defined(__cpp_exceptions)
        vp_assert(p != nullptr, "P24: a full heap is reported by an exception");
#endif
    }
    VP_CATCH
    {
        vp_cover("full");
    }
    vp_assert(requested == want, "P24: the heap is asked for the requested number of bytes");
    if (p != nullptr)
    {
        vp_assert((reinterpret_cast<std::uintptr_t>(p) % alignof(std::max_align_t)) == 0,
                  "P24: blocks are aligned for any type");
        vp_bool() ? d.deallocate(p, want) : d.deallocate(p, want, 8);
        vp_assert(frees == 1 && freed == p, "P24: a block is given back to the heap");
        vp_cover("block");
    }
}
