#include "ledger.hpp"
#include <cxxabi.h>
#include <cstring>
#include <cstdarg>

namespace hv {

Where g_where = { -1, -1 };
long g_findings = 0;
Stacks g_stacks;
ObjStats g_pay = { "transferred object", {}, 0, 0, 0, false };
ObjStats g_fn = { "function object", {}, 0, 0, 0, false };
long g_fn_k[MAXCO + 1];
long g_exc_live = 0;

static void vreport(char const* cls, char const* fmt, va_list ap) {
    char buf[1024];
    int n = snprintf(buf, sizeof buf, "FINDING %s test=%ld pos=%ld ", cls, g_where.test, g_where.pos);
    n += vsnprintf(buf + n, sizeof buf - n - 2, fmt, ap);
    if (n > (int)sizeof buf - 2) n = sizeof buf - 2;
    buf[n++] = '\n';
    ssize_t r = write(1, buf, n); (void)r;
    ++g_findings;
}

void finding(char const* cls, char const* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    if (g_findings < 200) vreport(cls, fmt, ap);
    va_end(ap);
}

void fatal(char const* cls, char const* fmt, ...) {
    va_list ap; va_start(ap, fmt);
    vreport(cls, fmt, ap);
    va_end(ap);
    extern void flush_log();
    flush_log();
    _exit(3);
}

// geometry of the stacks: distance of the stack's upper end to the guard page
static std::size_t const kOff[] = { 0, 16, 8, 64, 1, 48, 4096 - 64, 24, 100, 128, 1024, 3, 0, 192, 32, 511 };
static int const kFill[] = { 0xFF, 0x00, 0x01, 0xA5 };

boost::context::stack_context HAlloc::allocate() {
    if (id < 0) fatal("LEDGER", "allocation from a moved-from allocator");
    if (g_stacks.fail) { g_stacks.fail = false; throw alloc_error(); }
    Region* r = nullptr;
    for (std::size_t i = 0; i < g_stacks.pool.size(); ++i) {
        Region* q = g_stacks.pool[(i + g_stacks.count) % g_stacks.pool.size()];
        if (!q->live) { r = q; break; }
    }
    if (!r || g_stacks.pool.size() < 8) {
        r = new Region();
        // most are small, some so large that their size does not fit into 24 or 32 bits (only the upper end can be accessed)
        static std::size_t const more[] = { 0, 0, (std::size_t)1 << 24, 0, 0, (std::size_t)5 << 30, 0, (std::size_t)3 << 20 };
        r->more = more[g_stacks.pool.size() % 8];
        if (g_stacks.pool.size() > 64) r->more = 0;
        r->maplen = r->more + kStack + 2 * kPage;
        void* m = mmap(nullptr, r->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED && r->more) { r->more = 0; r->maplen = kStack + 2 * kPage; m = mmap(nullptr, r->maplen, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); }
        if (m == MAP_FAILED) { perror("mmap"); _exit(4); }
        r->map = static_cast<char*>(m) + r->more;
        g_stacks.pool.push_back(r);
    }
    if (mprotect(r->map + kPage, kStack, PROT_READ | PROT_WRITE)) { perror("mprotect"); _exit(4); }
    unsigned n = g_stacks.count++;
    int fill = kFill[(n / 3) % 4];
    memset(r->map + kPage + kStack - 3 * kPage, fill, 3 * kPage);
    std::size_t off = kOff[n % (sizeof kOff / sizeof kOff[0])];
    if (off) memset(r->map + kPage + kStack - off, 0x5C, off);
    r->base = r->map + kPage - r->more; r->size = r->more + kStack - off; r->alloc = id;
    note_alloc(r, g_stacks.next_k);
    boost::context::stack_context s;
    s.size = r->size;
    s.sp = r->base + r->size;
    return s;
}

void HAlloc::deallocate(boost::context::stack_context& s) noexcept {
    char* base = static_cast<char*>(s.sp) - s.size;
    Region* r = nullptr;
    for (Region* q : g_stacks.pool) if (q->live && q->base + q->size == static_cast<char*>(s.sp)) r = q;
    if (!r) fatal("LEDGER", "stack with upper end %p released, but it is not allocated", s.sp);
    if (r->base != base) finding("LEDGER", "stack of coroutine %d released with wrong size %zu", r->k, s.size);
    if (id < 0) finding("LEDGER", "stack of coroutine %d released through a moved-from allocator", r->k);
    else if (r->alloc != id) finding("LEDGER", "stack of coroutine %d released through allocator %d instead of %d", r->k, id, r->alloc);
    char probe;
    if (&probe >= r->base && &probe < r->base + r->size) fatal("LEDGER", "stack of coroutine %d released while in use", r->k);
    for (char* p = r->base + r->size; p < r->map + kPage + kStack; ++p)
        if (*p != 0x5C) { finding("WHERE", "memory above the stack of coroutine %d was overwritten", r->k); break; }
    check_empty(r);
    note_free(r);
    if (mprotect(r->map + kPage, kStack, PROT_NONE)) { perror("mprotect"); _exit(4); }
}

void check_empty(Region* r) {
    std::set<void const*>* sets[2] = { &g_pay.live, &g_fn.live };
    for (int i = 0; i < 2; ++i)
        for (std::set<void const*>::iterator it = sets[i]->lower_bound(r->base); it != sets[i]->end() && *it < (void*)(r->base + r->size); ) {
            finding("LEDGER", "%s at %p was not destroyed before the stack of coroutine %d was released", i ? "function object" : "transferred object", *it, r->k);
            it = sets[i]->erase(it);
        }
}

bool readable(void const* p) {
    static int fd[2] = { -1, -1 };
    if (fd[0] < 0 && pipe(fd)) { perror("pipe"); _exit(4); }
    if (write(fd[1], p, 1) != 1) return false;
    char c;
    if (read(fd[0], &c, 1) != 1) { perror("read"); _exit(4); }
    return true;
}

void note_alloc(Region* r, int k) {
    if (k <= 0 || k > MAXCO) fatal("LEDGER", "unexpected stack allocation");
    if (g_stacks.of[k]) finding("LEDGER", "second stack allocated for coroutine %d", k);
    r->k = k; r->live = true;
    g_stacks.of[k] = r;
    if (k <= 31) g_stacks.live_mask |= 1u << (k - 1);
    if (k > g_stacks.top) g_stacks.top = k;
    ++g_stacks.nlive;
    g_stacks.next_k = 0;
    ++g_stacks.allocs;
}

void note_free(Region* r) {
    r->live = false;
    if (r->k <= 31) g_stacks.live_mask &= ~(1u << (r->k - 1));
    --g_stacks.nlive;
    ++g_stacks.frees;
}

void throw_user(int type, int x, long cookie) {
    switch (type) {
    case 0: throw X0(x, cookie);
    case 1: throw X1(x, cookie);
    case 2: throw X2(x, cookie);
    case 3: { X3 e = { x, cookie }; throw e; }
    case 4: throw X4(x, cookie);
    case 6: throw X6(x, cookie);
    case 7: throw (X7)(cookie * 1000 + x);
    default: throw (long)(cookie * 1000 + x);
    }
}

unsigned exceptions_in_flight() {
    unsigned n;
    memcpy(&n, reinterpret_cast<char const*>(abi::__cxa_get_globals()) + sizeof(void*), sizeof n);
    return n;
}

Caught classify() {
    Caught r = { -1, -1, -1 };
    try { throw; }
    catch (X0 const& e) { r.type = 0; r.x = e.x; r.cookie = e.cookie; }
    catch (X2 const& e) { r.type = 2; r.x = e.x; r.cookie = e.cookie; if (e.text != "a text that does not fit into the small buffer") r.type = -1; }
    catch (X1 const& e) { r.type = 1; r.x = e.x; r.cookie = e.cookie; if (strcmp(e.what(), "x1")) r.type = -1; }
    catch (X3 const& e) { r.type = 3; r.x = e.x; r.cookie = e.cookie; }
    catch (X4 const& e) { r.type = 4; r.x = e.x; r.cookie = e.cookie; if (strcmp(e.what(), "x4")) r.type = -1; }
    catch (long e) { r.type = 5; r.x = (int)(e % 1000); r.cookie = e / 1000; }
    catch (X6 const& e) { r.type = 6; r.x = e.x; r.cookie = e.cookie; }
    catch (X7 e) { r.type = 7; r.x = (int)((long)e % 1000); r.cookie = (long)e / 1000; }
    catch (copy_error const& e) { r.type = r.x = 101; if (e.tag != 4711) r.type = -1; }
    catch (std::bad_alloc const&) { r.type = r.x = 102; }
    catch (fn_error const& e) { r.type = r.x = 103; if (e.tag != 4712) r.type = -1; }
    catch (...) { }
    return r;
}

} // namespace hv
