// conform <suite> [--hop] [--seed N] [--from N] [--to N] [--stride N] [--nval N]
// conform --record N --steps N --log FILE --nslot N --nco N --depth N --nval N --nexc N [--hop] [--seed N]
#include "interp.hpp"
#include <fcntl.h>

namespace hv { void setup_process(); extern int g_logfd; bool headers_alone(); }

#ifndef HV_POLICY
# define HV_POLICY Tracked
#endif

using namespace hv;

typedef Interp< HV_POLICY > I;

template< class H, class Other >
static void traits(char const* name) {
#define REQ(cond) do { if (!(cond)) finding("TRAIT", "%s: %s does not hold", name, #cond); } while (0)
    REQ(!std::is_copy_constructible<H>::value);
    REQ((!std::is_constructible<H, H&>::value));
    REQ((!std::is_constructible<H, H const&&>::value));
    REQ((!std::is_assignable<H&, H&>::value));
    REQ(!std::is_copy_assignable<H>::value);
    REQ(std::is_nothrow_move_constructible<H>::value);
    REQ(std::is_nothrow_move_assignable<H>::value);
    REQ(std::is_nothrow_destructible<H>::value);
    REQ((std::is_constructible<bool, H const&>::value));
    REQ((!std::is_convertible<H const&, bool>::value));
    REQ((!std::is_convertible<H const&, int>::value));
    REQ(!std::is_default_constructible<H>::value);
    REQ(noexcept(static_cast<bool>(std::declval<H const&>())));
    REQ(noexcept(!std::declval<H const&>()));
    REQ((!std::is_constructible<H, Other&&>::value) || true);
}

template< class P, class H >
static void pull_it_traits(P*, H*, typename std::enable_if<P::has_value>::type* = nullptr) {
    typedef typename H::iterator It;
    typedef typename std::remove_reference<typename P::type>::type V;
    char const* name = "input iterator";
    REQ((std::is_same<typename std::iterator_traits<It>::iterator_category, std::input_iterator_tag>::value));
    REQ((std::is_same<typename std::iterator_traits<It>::value_type, V>::value));
    REQ((std::is_same<typename std::iterator_traits<It>::reference, V&>::value));
    REQ((std::is_same<typename std::iterator_traits<It>::pointer, V*>::value));
    REQ((std::is_same<decltype(*std::declval<It&>()), V&>::value));
    REQ((std::is_same<decltype(std::declval<H&>().get()), typename P::type>::value));
    REQ(std::is_copy_constructible<It>::value);
    REQ(std::is_default_constructible<It>::value);
}
inline void pull_it_traits(...) { }
template< class P, class H >
static void push_it_traits(P*, H*, typename std::enable_if<P::has_value>::type* = nullptr) {
    typedef typename H::iterator It;
    char const* name = "output iterator";
    REQ((std::is_same<typename std::iterator_traits<It>::iterator_category, std::output_iterator_tag>::value));
    REQ(std::is_copy_constructible<It>::value);
    REQ(std::is_default_constructible<It>::value);
}
inline void push_it_traits(...) { }

template< class A, class B > static void same(char const* name) {
    if (!std::is_same<A, B>::value) finding("TRAIT", "%s is not what it should be", name);
}
static void allocator_traits() {
    namespace c2 = boost::coroutines2; namespace ctx = boost::context;
    same<c2::default_stack, ctx::default_stack>("default_stack");
    same<c2::fixedsize_stack, ctx::fixedsize_stack>("fixedsize_stack");
    same<c2::protected_fixedsize_stack, ctx::protected_fixedsize_stack>("protected_fixedsize_stack");
    same<c2::coroutine<int>, c2::asymmetric_coroutine<int> >("asymmetric_coroutine");
    same<c2::pooled_fixedsize_stack, ctx::pooled_fixedsize_stack>("pooled_fixedsize_stack");
}

int main(int argc, char** argv) {
    char const* suite = nullptr; char const* log = nullptr;
    long from = 0, to = 1L << 60, stride = 1, rec = 0, steps = 200;
    g_opt.seed = 1; g_opt.nslot = 4; g_opt.nco = 4; g_opt.depth = 3; g_opt.nval = 3; g_opt.nexc = 3; g_opt.hop = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        long v = i + 1 < argc ? atol(argv[i + 1]) : 0;
        if (a == "--hop") { g_opt.hop = true; continue; }
        if (a == "--deep") { g_opt.deep = true; continue; }
        if (a == "--verbose") { g_opt.verbose = true; continue; }
        if (a[0] != '-') { suite = argv[i]; continue; }
        ++i;
        if (a == "--seed") g_opt.seed = (unsigned)v;
        else if (a == "--from") from = v;
        else if (a == "--to") to = v;
        else if (a == "--stride") stride = v;
        else if (a == "--cap") g_opt.cap = v;
        else if (a == "--nval") g_opt.nval = (int)v;
        else if (a == "--nslot") g_opt.nslot = (int)v;
        else if (a == "--nco") g_opt.nco = (int)v;
        else if (a == "--depth") g_opt.depth = (int)v;
        else if (a == "--nexc") g_opt.nexc = (int)v;
        else if (a == "--record") rec = v;
        else if (a == "--steps") steps = v;
        else if (a == "--log") log = argv[i];
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    setvbuf(stdout, nullptr, _IOLBF, 4096);
    setup_process();
    allocator_traits();
    traits<I::pull, I::push>("pull_type");
    traits<I::push, I::pull>("push_type");
    pull_it_traits((HV_POLICY*)nullptr, (I::pull*)nullptr);
    push_it_traits((HV_POLICY*)nullptr, (I::push*)nullptr);
    I* in = new I();
#ifdef HV_ALONE
    if (!headers_alone()) finding("CTRL", "behaviour differs in another translation unit");
#endif
#ifdef HV_NOISE
    noise_crowd();
    g_opt.noise = noise_new();
    noise_threads(HV_NOISE);
#endif
    if (rec) {
        if (log) g_logfd = open(log, O_WRONLY | O_CREAT | O_TRUNC, 0644);
        long n = in->record(rec, steps);
        flush_log();
        printf("RECORDED behaviours=%ld events=%ld findings=%ld\n", rec, n, g_findings);
    } else {
        Suite s;
        if (!suite || !load_suite(suite, s)) { fprintf(stderr, "cannot load %s\n", suite ? suite : "suite"); return 2; }
        long events = 0;
        long n = in->play(s, from, to, stride, events);
        printf("PLAYED tests=%ld events=%ld findings=%ld stacks=%ld\n", n, events, g_findings, g_stacks.allocs);
    }
    delete in;
#ifdef HV_NOISE
    noise_threads_stop();
    noise_delete(g_opt.noise);
#endif
    g_hopper.stop();
    return g_findings ? 1 : 0;
}
