// Stand-in for the o1heap allocator: the documented interface, with the behaviour the client programs need to see.
#pragma once
#include <stddef.h>
#define O1HEAP_ALIGNMENT (sizeof(void*) * 4U)
typedef struct O1HeapInstance O1HeapInstance;
extern "C" {
O1HeapInstance* o1heapInit(void* base, size_t size);
void*           o1heapAllocate(O1HeapInstance* handle, size_t amount);
void            o1heapFree(O1HeapInstance* handle, void* pointer);
}
