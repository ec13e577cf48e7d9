// Observes the default stack allocator, which uses malloc and free (linked with -Wl,--wrap=malloc,--wrap=free).
#include "ledger.hpp"
#include <boost/context/stack_traits.hpp>

extern "C" void* __real_malloc(std::size_t);
extern "C" void __real_free(void*);

namespace hv { bool g_wrap_malloc = true; }
using namespace hv;

extern "C" void* __wrap_malloc(std::size_t n) {
    int k = g_stacks.next_k;
    if (k <= 0 || n < 32768) return __real_malloc(n);
    if (g_stacks.fail) { g_stacks.fail = false; return nullptr; }
    if (n != boost::context::stack_traits::default_size())
        finding("STACK", "stack of coroutine %d: %zu bytes instead of the default size", k, n);
    void* p = __real_malloc(n);
    memset(p, 0xA5, n);
    Region* r = new Region();
    r->base = static_cast<char*>(p); r->size = n; r->k = k; r->alloc = k;
    note_alloc(r, k);
    return p;
}

extern "C" void __wrap_free(void* p) {
    if (p)
        for (int k = 1; k <= g_stacks.top; ++k) {
            Region* r = g_stacks.of[k];
            if (!r || r->base != p) continue;
            if (!r->live) continue;
            char probe;
            if (&probe >= r->base && &probe < r->base + r->size) fatal("LEDGER", "stack of coroutine %d released while in use", k);
            check_empty(r);
            note_free(r);
            memset(p, 0x5C, r->size);
        }
    __real_free(p);
}
