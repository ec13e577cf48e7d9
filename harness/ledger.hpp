// Instruments everything the library touches: stacks, transferred objects, function objects, exceptions.
#ifndef VERIF_LEDGER_HPP
#define VERIF_LEDGER_HPP

#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>

#include <boost/context/stack_context.hpp>
#include <boost/context/stack_traits.hpp>

namespace hv {

// ---------------------------------------------------------------- findings

struct Where { long test; long pos; };
extern Where g_where;
extern long g_findings;
void finding(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void fatal(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));

// ---------------------------------------------------------------- stacks

struct Region {
    char* map; std::size_t maplen;       // whole mapping incl. guard pages (own allocator only)
    std::size_t more;                    // ... inaccessible part at the lower end of a large stack
    char* base; std::size_t size;        // the stack handed out: [base, base+size)
    int   k;                             // coroutine it belongs to
    int   alloc;                         // identity of the allocator
    bool  live;
};

enum { MAXCO = 320 };

struct Stacks {
    std::vector<Region*> pool;
    Region*  of[MAXCO + 1];
    unsigned live_mask;                  // bit k-1 (the first 31)
    int      top, nlive;                 // highest k so far; allocated stacks
    int      next_k;                     // coroutine under construction
    bool     fail;                       // next allocation throws
    unsigned count;                      // allocations so far (rotates geometry)
    long     allocs, frees;
    int      fill;
    void reset() {
        for (int i = 0; i <= MAXCO; ++i) of[i] = nullptr;
        top = nlive = 0; live_mask = 0; next_k = 0; fail = false;
    }
    bool inside(int k, void const* p) const {
        Region* r = of[k];
        return r && r->k == k && (char const*)p >= r->base && (char const*)p < r->base + r->size;
    }
    int owner(void const* p) const {
        for (int k = 1; k <= top; ++k) if (of[k] && of[k]->k == k && of[k]->live && inside(k, p)) return k;
        return 0;
    }
};
extern Stacks g_stacks;

std::size_t const kPage = 4096;
std::size_t const kStack = 96 * 1024;

struct alloc_error : std::bad_alloc { };


void note_alloc(Region* r, int k);
void note_free(Region* r);
void check_empty(Region* r);     // no object of the ledger is left in a stack that is released

// stack allocator with guard pages on both sides, varying geometry and garbage content
class HAlloc {
public:
    int id;
    explicit HAlloc(int k) noexcept : id(k) { }
    HAlloc(HAlloc const& o) noexcept : id(o.id) { }
    HAlloc(HAlloc&& o) noexcept : id(o.id) { o.id = -1; }
    HAlloc& operator=(HAlloc const&) = delete;

    boost::context::stack_context allocate();
    void deallocate(boost::context::stack_context& s) noexcept;
};

// is the memory at p readable?
bool readable(void const* p);

// wraps one of the library's allocators; Guard: the lowest page of its stacks must not be accessible
template< class A, bool Guard >
class Spy {
    A a_;
    std::size_t want_;
    static void guard(char* base, int k, char const* when) {
        if (readable(base) == Guard) finding("STACK", "lowest page of the stack of coroutine %d is %sprotected %s", k, Guard ? "not " : "", when);
    }
public:
    int id;
    template< class... Args >
    Spy(int k, std::size_t want, Args... args) : a_(args...), want_(want), id(k) { }
    boost::context::stack_context allocate() {
        if (g_stacks.fail) { g_stacks.fail = false; throw alloc_error(); }
        boost::context::stack_context s = a_.allocate();
        Region* r = new Region();
        r->size = s.size; r->base = static_cast<char*>(s.sp) - s.size;
        r->k = g_stacks.next_k; r->alloc = id;
        if (s.size < want_ || s.size > want_ + 2 * kPage) finding("STACK", "stack of %zu bytes instead of %zu", s.size, want_);
        guard(r->base, r->k, "at the beginning");
        note_alloc(r, g_stacks.next_k);
        return s;
    }
    void deallocate(boost::context::stack_context& s) noexcept {
        char* base = static_cast<char*>(s.sp) - s.size;
        Region* r = nullptr;
        for (int k = 1; k <= g_stacks.top; ++k)
            if (g_stacks.of[k] && g_stacks.of[k]->live && g_stacks.of[k]->base == base) r = g_stacks.of[k];
        if (!r) fatal("LEDGER", "stack %p returned that was not handed out", (void*)base);
        if (r->size != s.size) finding("LEDGER", "stack returned with size %zu instead of %zu", s.size, r->size);
        if (r->alloc != id) finding("LEDGER", "stack of coroutine %d returned to allocator %d instead of %d", r->k, id, r->alloc);
        char probe;
        if (&probe >= r->base && &probe < r->base + r->size) fatal("LEDGER", "stack of coroutine %d released while in use", r->k);
        guard(r->base, r->k, "at the end");
        check_empty(r);
        note_free(r);
        a_.deallocate(s);
    }
};

// ---------------------------------------------------------------- objects with observable lifetime

struct ObjStats {
    char const* what;
    std::set<void const*> live;
    long lib;            // live objects created by the library (copies / moves)
    long copies, moves;
    bool throw_next;     // next copy / move construction throws
    void born(void const* p, bool mine) {
        if (!live.insert(p).second) finding("LEDGER", "%s constructed at %p over a living one", what, p);
        if (!mine) ++lib;
    }
    void died(void const* p, bool mine) {
        if (!live.erase(p)) finding("LEDGER", "%s at %p destroyed, but does not exist", what, p);
        else if (!mine) --lib;
    }
    void check(void const* p) const {
        if (!live.count(p)) finding("LEDGER", "%s at %p used, but does not exist", what, p);
    }
    void reset() { live.clear(); lib = 0; copies = moves = 0; throw_next = false; }
};
extern ObjStats g_pay;      // transferred objects
extern ObjStats g_fn;       // function objects
extern long g_fn_k[MAXCO + 1];   // library's copies per coroutine
extern long g_exc_live;

struct copy_error { int tag; copy_error() : tag(4711) { ++g_exc_live; } copy_error(copy_error const&) : tag(4711) { ++g_exc_live; } ~copy_error() { --g_exc_live; tag = 0; } };
struct fn_error { int tag; fn_error() : tag(4712) { ++g_exc_live; } fn_error(fn_error const&) : tag(4712) { ++g_exc_live; } ~fn_error() { --g_exc_live; tag = 0; } };

// user exceptions: unrelated types, one hierarchy, one trivially copyable
struct X0 { int x; long cookie; X0(int x_, long c) : x(x_), cookie(c) { ++g_exc_live; } X0(X0 const& o) : x(o.x), cookie(o.cookie) { ++g_exc_live; } ~X0() { --g_exc_live; x = -1; cookie = -1; } };
struct X1 : std::runtime_error { int x; long cookie; X1(int x_, long c) : std::runtime_error("x1"), x(x_), cookie(c) { ++g_exc_live; } X1(X1 const& o) : std::runtime_error(o), x(o.x), cookie(o.cookie) { ++g_exc_live; } ~X1() noexcept { --g_exc_live; x = -1; } };
struct X2 : X1 { std::string text; X2(int x_, long c) : X1(x_, c), text("a text that does not fit into the small buffer") { } };
struct X3 { int x; long cookie; };
struct X4base { virtual ~X4base() { } };
struct X4 : virtual X4base, std::logic_error { int x; long cookie; X4(int x_, long c) : std::logic_error("x4"), x(x_), cookie(c) { ++g_exc_live; } X4(X4 const& o) : X4base(o), std::logic_error(o), x(o.x), cookie(o.cookie) { ++g_exc_live; } ~X4() noexcept { --g_exc_live; } };
struct X6 { int x; long cookie; X6(int x_, long c) : x(x_), cookie(c) { ++g_exc_live; } X6(X6 const&) = delete; X6(X6&& o) : x(o.x), cookie(o.cookie) { ++g_exc_live; o.x = -1; } ~X6() { --g_exc_live; x = -1; } };
enum class X7 : long { };
enum { NXTYPES = 8 };       // the sixth is long

void throw_user(int type, int x, long cookie);
// inside a handler: which exception is it?  type -1: unknown; injected ones: x = 101.. and type = x
struct Caught { int type; int x; long cookie; };
Caught classify();
unsigned exceptions_in_flight();     // std::uncaught_exceptions(), which C++11 does not have

} // namespace hv

#endif
