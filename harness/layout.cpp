// layout --log FILE [--seed N] [--dense]: places coroutines of many element types and function types in stacks of many
// geometries, logs where things lie (checked against Layout.tla by LayoutTrace.tla) and checks that nothing else is touched.
#include "policy.hpp"
#include <fcntl.h>
#include <random>

namespace hv { void setup_process(); extern int g_logfd; extern std::string g_log; void flush_log(); void progress(long); }
using namespace hv;
namespace c2 = boost::coroutines2;

namespace {

std::size_t const kArea = 1 << 20;          // accessible part of the region
char* g_area;                               // multiple of 1 MiB; guard pages in front and behind
struct Geo { std::size_t base, top; int fill; } g_geo;
std::size_t g_extra;                        // the stack extends this far below the area (then g_geo.base == 0)
int g_live; long g_cases;
unsigned g_fill;
void const* g_payload; std::size_t g_payload_size, g_payload_align;

unsigned char canary(std::size_t i) { return (unsigned char)(i * 131 + 17); }
std::size_t const kMargin = 8192;           // this much around the stack is looked at

void prepare() {
    for (std::size_t i = g_geo.base > kMargin ? g_geo.base - kMargin : 0; i < g_geo.base; ++i) g_area[i] = (char)canary(i);
    for (std::size_t i = g_geo.top; i < kArea && i < g_geo.top + kMargin; ++i) g_area[i] = (char)canary(i);
    switch (g_geo.fill) {
    case 0: memset(g_area + g_geo.base, 0x00, g_geo.top - g_geo.base); break;
    case 1: memset(g_area + g_geo.base, 0xFF, g_geo.top - g_geo.base); break;
    case 2: memset(g_area + g_geo.base, 0x01, g_geo.top - g_geo.base); break;
    default: for (std::size_t i = g_geo.base; i < g_geo.top; ++i) g_area[i] = (char)(g_fill = g_fill * 1664525u + 1013904223u, g_fill >> 24);
    }
}
void inspect() {
    for (std::size_t i = g_geo.base > kMargin ? g_geo.base - kMargin : 0; i < g_geo.base; ++i)
        if ((unsigned char)g_area[i] != canary(i)) { finding("WHERE", "memory below the stack was overwritten"); return; }
    for (std::size_t i = g_geo.top; i < kArea && i < g_geo.top + kMargin; ++i)
        if ((unsigned char)g_area[i] != canary(i)) { finding("WHERE", "memory above the stack was overwritten (%zu bytes behind)", i - g_geo.top); return; }
}

template< std::size_t A >
struct alignas(A) LAlloc {
    int id;
    LAlloc() : id(77) { }
    boost::context::stack_context allocate() {
        if (g_live++) finding("STACK", "more than one stack allocated");
        prepare();
        boost::context::stack_context s;
        s.sp = g_area + g_geo.top; s.size = g_geo.top - g_geo.base + g_extra;
        return s;
    }
    void deallocate(boost::context::stack_context& s) noexcept {
        if (reinterpret_cast<std::uintptr_t>(this) % A) finding("ALIGN", "stack allocator misplaced");
        --g_live;
        if (s.sp != g_area + g_geo.top || s.size != g_geo.top - g_geo.base + g_extra) finding("LEDGER", "another stack released");
    }
};

template< std::size_t A, std::size_t N >
struct alignas(A) Blob {
    unsigned char b[N];
    explicit Blob(int c) { for (std::size_t i = 0; i < N; ++i) b[i] = (unsigned char)(c * 37 + i); }
    bool is(int c) const {
        if (!aligned_ok(this)) finding("ALIGN", "object with alignment %zu at %p", A, (void const*)this);
        for (std::size_t i = 0; i < N; ++i) if (b[i] != (unsigned char)(c * 37 + i)) return false;
        return true;
    }
};
template< std::size_t A, std::size_t N > bool is(Blob<A, N> const& b, int c) { return b.is(c); }
template< Copyability C, std::size_t A, std::size_t P > bool is(Obj<C, A, P> const& o, int c) { return o.code() == c; }

struct Seen { std::size_t lo, hi, al; };
struct Log { Seen o[8]; int n; std::size_t sp; } g_seen;

void note(void const* p, std::size_t size, std::size_t al) {
    std::ptrdiff_t lo = (char const*)p - g_area;
    if (lo < 0 || lo > (1 << 30)) lo = 1 << 30;          // far outside
    Seen s = { (std::size_t)lo, (std::size_t)lo + size, al };
    if (g_seen.n < 8) g_seen.o[g_seen.n++] = s;
}
void write_log() {
    char buf[512];
    int n = snprintf(buf, sizeof buf, "{\"b\":%zu,\"t\":%zu,\"s\":%zu,\"o\":[", g_geo.base, g_geo.top, g_seen.sp);
    for (int i = 0; i < g_seen.n; ++i) n += snprintf(buf + n, sizeof buf - n, "%s[%zu,%zu,%zu]", i ? "," : "", g_seen.o[i].lo, g_seen.o[i].hi, g_seen.o[i].al);
    n += snprintf(buf + n, sizeof buf - n, "]}\n");
    g_log.append(buf, n);
    if (g_log.size() > (1 << 20)) flush_log();
}

// uses all of the stack that is left but a reserve for calls
template< class F >
__attribute__((noinline)) void fill_stack(std::size_t reserve, F f) {
    char* here = static_cast<char*>(__builtin_frame_address(0));
    std::ptrdiff_t n = here - (g_area + g_geo.base) - (std::ptrdiff_t)reserve;
    if (n <= 0) { f(); return; }
    volatile unsigned char* p = static_cast<volatile unsigned char*>(__builtin_alloca((std::size_t)n));
    for (std::ptrdiff_t i = 0; i < n; ++i) p[i] = (unsigned char)(i * 7);
    f();
    for (std::ptrdiff_t i = 0; i < n; ++i) if (p[i] != (unsigned char)(i * 7)) { finding("FRAME", "local data of the coroutine-function is damaged"); break; }
}

template< class V > struct Elem {          // values
    typedef typename c2::coroutine<V>::pull_type pull;
    typedef typename c2::coroutine<V>::push_type push;
    static std::size_t const reserve = 4096 + 4 * sizeof(V) + 4 * alignof(V);
    static void give(push& h, int c) { V v(c); h(v); }
    static void look(pull& h, int c, bool log) {
        if (log) note(std::addressof(*begin(h)), sizeof(V), alignof(V));
        if (!is(*begin(h), c)) finding("VAL", "value is wrong");
        if (!is(h.get(), c)) finding("VAL", "value is wrong");
    }
};
template< class V > struct Elem< V& > {
    typedef typename c2::coroutine<V&>::pull_type pull;
    typedef typename c2::coroutine<V&>::push_type push;
    static std::size_t const reserve = 4096;
    static V& obj(int c) { static V v1(1), v2(2), v3(3); return c == 1 ? v1 : c == 2 ? v2 : v3; }
    static void give(push& h, int c) { h(obj(c)); }
    static void look(pull& h, int c, bool) { if (std::addressof(h.get()) != &obj(c)) finding("VAL", "reference to another object"); }
};
template<> struct Elem< void > {
    typedef c2::coroutine<void>::pull_type pull;
    typedef c2::coroutine<void>::push_type push;
    static std::size_t const reserve = 4096;
    static void give(push& h, int) { h(); }
    static void look(pull&, int, bool) { }
};

int g_stage;
template< class E, std::size_t FA, std::size_t FS >
struct alignas(FA) Fun {
    unsigned char pad[FS];
    Fun() { for (std::size_t i = 0; i < FS; ++i) pad[i] = (unsigned char)(i * 3); }
    void check() const {
        if (!aligned_ok(this)) finding("ALIGN", "function object with alignment %zu at %p", FA, (void const*)this);
        for (std::size_t i = 0; i < FS; ++i) if (pad[i] != (unsigned char)(i * 3)) { finding("FN", "function object is damaged"); break; }
    }
    void common(void const* own, std::size_t size, std::size_t al) {
        char* here = static_cast<char*>(__builtin_frame_address(0));
        std::ptrdiff_t d = here - g_area;
        g_seen.sp = d < 0 || d > (1 << 30) ? (1 << 30) : (std::size_t)d;
        note(this, sizeof *this, alignof(Fun));
        note(own, size, al);
        check();
        g_stage = 1;
    }
    void operator()(typename E::push& y) {       // of a pull_type
        double local[4] = { 1, 2, 3, 4 };
        common(&y, sizeof y, alignof(typename E::push));
        note(local, sizeof local, alignof(double));
        E::give(y, 1);
        fill_stack(E::reserve, [&] { E::give(y, 2); });
        check();
        if (local[0] + local[3] != 5) finding("FRAME", "local variables are damaged");
        E::give(y, 3);
        if (g_stage == 2) return;
        finding("UNW", "continued after its destruction");
    }
    void operator()(typename E::pull& p) {       // of a push_type
        double local[4] = { 1, 2, 3, 4 };
        common(&p, sizeof p, alignof(typename E::pull));
        note(local, sizeof local, alignof(double));
        E::look(p, 1, true);
        p();
        fill_stack(E::reserve, [&] { E::look(p, 2, false); p(); });
        check();
        if (local[0] + local[3] != 5) finding("FRAME", "local variables are damaged");
        E::look(p, 3, false);
        p();
        if (g_stage == 2) return;
        finding("UNW", "continued after its destruction");
    }
};

// kind 1 pull, 2 push; how: 0 destroyed while suspended, 1 completed, 2 (push) never entered
template< class T, std::size_t FA, std::size_t FS, std::size_t AA >
void one(int kind, int how) {
    typedef Elem<T> E;
    g_where.test = ++g_cases;
    progress(g_cases);
    g_seen.n = 0; g_stage = 0;
    if (kind == 1) {
        {
            LAlloc<AA> al;
            typename E::pull h(al, Fun<E, FA, FS>());
            if (!h) { finding("BOOL", "handle is false"); return; }
            E::look(h, 1, true);
            h(); E::look(h, 2, false);
            typename E::pull g(std::move(h));
            g(); E::look(g, 3, false);
            if (how == 1) { g_stage = 2; g(); if (g) finding("BOOL", "handle is true"); }
        }
    } else {
        Fun<E, FA, FS> fn;
        LAlloc<AA> al;
        {
            typename E::push h(al, fn);
            if (!h) { finding("BOOL", "handle is false"); return; }
            if (how != 2) {
                E::give(h, 1); E::give(h, 2);
                typename E::push g(std::move(h));
                E::give(g, 3);
                if (how == 1) { g_stage = 2; E::give(g, 1); if (g) finding("BOOL", "handle is true"); }
            } else if (g_stage) finding("CTRL", "function entered");
        }
        if (how == 2 && g_stage) finding("CTRL", "function entered");
    }
    if (g_live) { finding("STACK", "the stack was not released"); g_live = 0; }
    inspect();
    if (g_seen.n) write_log();
}

std::vector<Geo> g_geos;
template< class T, std::size_t FA, std::size_t FS, std::size_t AA >
void all(std::size_t minimum) {
    int i = 0;
    for (Geo const& g : g_geos) {
        if (g.top - g.base < minimum) continue;
        for (int kind = 1; kind <= 2; ++kind) {
            g_geo = g;
            one<T, FA, FS, AA>(kind, kind == 2 && i % 7 == 0 ? 2 : i & 1);
            if (g_findings > 20) return;
        }
        ++i;
    }
}
}

// very large stacks (hardly any of it is touched)
template< class T >
void huge() {
    static std::size_t const total[] = { (std::size_t)3 << 20, ((std::size_t)1 << 24) + 48, ((std::size_t)1 << 31) - 4096, (std::size_t)1 << 31, ((std::size_t)1 << 32) - 16,
                                         (std::size_t)1 << 32, ((std::size_t)1 << 32) + 65536, ((std::size_t)5 << 30) + 123456 };
    static std::size_t const top[] = { kArea, kArea - 8, kArea - 4096, kArea - 100000 - 3 };
    std::size_t const all_ = (std::size_t)6 << 30;
    static char* m = static_cast<char*>(mmap(nullptr, all_, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    if (m == MAP_FAILED) return;
    char* area = g_area;
    g_area = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(m) + all_ - kArea) & ~(std::uintptr_t)(kArea - 1));
    int i = 0;
    for (std::size_t n : total) for (std::size_t t : top) {
        Geo g = { 0, t, i++ % 4 };
        g_geo = g; g_extra = n - t;
        one<T, 8, 8, 8>(1 + i % 2, i % 3);
        if (g_findings > 20) break;
    }
    g_extra = 0; g_area = area;
}

int main(int argc, char** argv) {
    bool dense = false; unsigned seed = 1;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--dense") dense = true;
        else if (a == "--log" && i + 1 < argc) g_logfd = open(argv[++i], O_WRONLY | O_CREAT | O_TRUNC, 0644);
        else if (a == "--seed" && i + 1 < argc) seed = (unsigned)atol(argv[++i]);
        else return 2;
    }
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    setup_process();
    char* m = static_cast<char*>(mmap(nullptr, 3 * kArea, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
    if (m == MAP_FAILED) { perror("mmap"); return 4; }
    g_area = reinterpret_cast<char*>((reinterpret_cast<std::uintptr_t>(m) + kArea) & ~(std::uintptr_t)(kArea - 1));
    if (g_area == m) g_area += kArea;
    if (mprotect(g_area, kArea, PROT_READ | PROT_WRITE)) { perror("mprotect"); return 4; }
    g_fill = seed;
    std::mt19937 rng(seed);
    // upper ends: just below the inaccessible page, and everywhere; lower ends likewise
    std::size_t const big = 160 * 1024, small = 24 * 1024;
    int f = 0;
    for (std::size_t r = 0; r < 64; ++r) { Geo g = { 700000 + (r * 13) % 97, kArea - r, f++ % 4 }; if (g.top - g.base > big) g.base = g.top - big - (r * 5) % 17; g_geos.push_back(g); }
    for (std::size_t r = 0; r < 4096; r += dense ? 16 : 112) { Geo g = { 0, 0, f++ % 4 }; g.top = kArea - r; g.base = g.top - small - r % 23; g_geos.push_back(g); }
    for (std::size_t r = 0; r < 32; ++r) { Geo g = { r % 5, 0, f++ % 4 }; g.top = (r & 1 ? small : big) + r * 3; g_geos.push_back(g); }     // at the lower inaccessible page
    for (int i = 0; i < (dense ? 400 : 60); ++i) { Geo g; g.fill = f++ % 4; g.base = rng() % 100000; g.top = g.base + small + rng() % (i & 1 ? big : small); g_geos.push_back(g); }
    std::size_t const S = 16384;
#define T_(...) __VA_ARGS__
#define CASES(T, min) all< T, 8, 8, 8 >(min)
    CASES(T_(Blob<1, 1>), S); CASES(T_(Blob<1, 3>), S); CASES(T_(Blob<2, 6>), S); CASES(T_(Blob<4, 12>), S); CASES(T_(Blob<8, 8>), S);
    CASES(T_(Blob<16, 48>), S); CASES(T_(Blob<32, 32>), S); CASES(T_(Blob<64, 1>), S); CASES(T_(Blob<128, 100>), S); CASES(T_(Blob<256, 1>), S);
    CASES(T_(Blob<512, 7>), S); CASES(T_(Blob<1024, 1>), S + 8192); CASES(T_(Blob<4096, 4096>), S + 65536); CASES(T_(Blob<8, 5000>), S + 40000); CASES(T_(Blob<1, 20001>), 150000);
    CASES(T_(Obj<COPY_AND_MOVE, 8, 24>), S); CASES(T_(Obj<COPY_AND_MOVE, 64, 1>), S); CASES(T_(Obj<COPY_AND_MOVE, 256, 1>), S);
    CASES(T_(Blob<8, 8>&), S); CASES(T_(Blob<64, 8> const&), S); CASES(void, S);
    all< void, 64, 100, 8 >(S); all< Blob<4, 4>, 64, 3000, 8 >(S + 20000); all< Blob<4, 4>&, 64, 1, 8 >(S);
    all< void, 256, 1, 8 >(S); all< Blob<4, 4>, 256, 1, 64 >(S); all< Blob<4, 4>&, 128, 1, 64 >(S); all< Blob<128, 4>, 16, 40, 64 >(S);
    huge< Blob<8, 8> >(); huge< Blob<64, 1> >(); huge< Blob<8, 8>& >(); huge< void >(); huge< Blob<8, 5000> >();
    flush_log();
    printf("PLACED cases=%ld geometries=%zu findings=%ld\n", g_cases, g_geos.size(), g_findings);
    return g_findings ? 1 : 0;
}
