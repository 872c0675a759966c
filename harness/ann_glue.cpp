// The search of examples/ann as the back end of the drivers: its C++ allocations go through the same counted
// (and, on request, failing) malloc as those of the library.
#include <cstdlib>
#include <new>
#include <ann_wrapper.h>
extern "C" int use_ann(void) { return scc_set_ann_dist_search() ? 1 : 0; }
static void* get(std::size_t s) { void* p = std::malloc(s ? s : 1); if (p == NULL) throw std::bad_alloc(); return p; }
void* operator new(std::size_t s) { return get(s); }
void* operator new[](std::size_t s) { return get(s); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
