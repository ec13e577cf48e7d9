// Independent clients of the library: coroutines of other element types, created, resumed, finished, unwound and
// destroyed between the steps of the behaviour that is replayed (any execution context) and on other threads at the
// same time.  Each of them is a fixed behaviour of the specification with one or two coroutines; it must neither
// be disturbed nor disturb.  Second translation unit of the program.
#include <boost/coroutine2/coroutine.hpp>
#include "noise.hpp"
#include "ledger.hpp"
#include <atomic>
#include <memory>
#include <thread>
#include <vector>
#include <boost/context/fixedsize_stack.hpp>

namespace hv {

namespace {
template< class T > using co = boost::coroutines2::coroutine< T >;
struct Pod { long a, b, c; };
struct Count { long& n; explicit Count(long& x) : n(x) { ++n; } ~Count() { --n; } };
struct oops { int v; };
std::string word(long n) { return (n & 1 ? "w" : "a rather long word for the string ") + std::to_string(n); }
#define WANT(cond) do { if (!(cond)) finding("INDEP", "independent coroutine: %s does not hold", #cond); } while (0)
}

struct Noise {
    long n, alive;
    long ints, words, pods, refs, ticks, tocks, target;
    long got_word, got_pod, got_tock;
    long cell[4];
    std::unique_ptr< co<long>::pull_type > gen;             // yields 1, 2, 3, ...
    std::unique_ptr< co<std::string>::push_type > sink;
    std::unique_ptr< co<Pod>::push_type > podsink;
    std::unique_ptr< co<long&>::pull_type > ref;
    std::unique_ptr< co<void>::pull_type > tick;
    std::unique_ptr< co<void>::push_type > tock;

    Noise() : n(0), alive(0), ints(0), words(0), pods(0), refs(0), ticks(0), tocks(0), target(0), got_word(0), got_pod(0), got_tock(0) {
        for (long& c : cell) c = 0;
    }
    void start() {
        gen.reset(new co<long>::pull_type([this](co<long>::push_type& y) { Count c(alive); for (long i = 1; ; ++i) y(i); }));
        sink.reset(new co<std::string>::push_type([this](co<std::string>::pull_type& p) {
            Count c(alive);
            for (;;) { ++got_word; WANT(p.get() == word(got_word)); p(); }
        }));
        podsink.reset(new co<Pod>::push_type([this](co<Pod>::pull_type& p) {
            Count c(alive);
            for (auto& v : p) { ++got_pod; WANT(v.a == got_pod && v.b == got_pod * 2 && v.c == got_pod * 3); }
        }));
        ref.reset(new co<long&>::pull_type([this](co<long&>::push_type& y) { Count c(alive); for (long i = 0; ; ++i) y(cell[i % 4]); }));
        tick.reset(new co<void>::pull_type([this](co<void>::push_type& y) { Count c(alive); for (;;) { ++ticks; y(); } }));
        tock.reset(new co<void>::push_type([this](co<void>::pull_type& p) { Count c(alive); for (;;) { ++got_tock; p(); } }));
    }
    void step() {
        ++n;
        if (!gen) start();
        switch (n % 11) {
        case 0: ++ints; WANT(*gen && gen->get() == ints); (*gen)(); break;
        case 1: ++words; (*sink)(word(words)); WANT(*sink && got_word == words); break;
        case 2: { ++pods; Pod v = { pods, pods * 2, pods * 3 }; (*podsink)(v); WANT(*podsink && got_pod == pods); break; }
        case 3: WANT(*ref && &ref->get() == &cell[refs % 4]); ++ref->get(); (*ref)(); ++refs; break;
        case 4: { long t = ticks; (*tick)(); WANT(*tick && ticks == t + 1); break; }
        case 5: { long t = got_tock; (*tock)(); WANT(*tock && got_tock == t + 1); break; }
        case 6: {       // throws
            bool hit = false; int v = (int)(n & 0xffff); long a = alive;
            try {
                co<int>::pull_type p([&](co<int>::push_type& y) { Count c(alive); y(v); throw oops{ v }; });
                WANT(p && p.get() == v);
                p();
            } catch (oops const& e) { hit = e.v == v; }
            WANT(hit); WANT(alive == a);
            break;
        }
        case 7: {       // unwound, with a nested one
            long a = alive;
            {
                co<double>::pull_type p([&](co<double>::push_type& y) {
                    Count c(alive);
                    co<void>::pull_type q([&](co<void>::push_type& z) { Count d(alive); z(); z(); WANT(false); });
                    WANT(q && alive == a + 2);
                    y(1.5); y(2.5);
                    WANT(false);
                });
                WANT(p && p.get() == 1.5); p(); WANT(p && p.get() == 2.5);
            }
            WANT(alive == a);
            break;
        }
        case 8: {       // completes; chain of two
            long sum = 0, a = alive;
            co<int>::push_type add([&](co<int>::pull_type& p) { Count c(alive); for (int v : p) sum += v; });
            co<int>::pull_type src([&](co<int>::push_type& y) { Count c(alive); for (int i = 1; i <= 3; ++i) y(i); });
            WANT(alive == a + 1);
            for (int v : src) add(v);
            WANT(!src && add && sum == 6 && alive == a + 1);
            break;
        }
        case 9: {       // never entered
            bool ran = false;
            { co<std::string>::push_type never([&](co<std::string>::pull_type&) { ran = true; }); WANT(never); }
            WANT(!ran);
            break;
        }
        case 10: {      // thrown by the constructor; done in the constructor
            bool hit = false;
            try { co<void>::pull_type p([&](co<void>::push_type&) { throw oops{ 5 }; }); WANT(false); }
            catch (oops const& e) { hit = e.v == 5; }
            WANT(hit);
            co<long>::pull_type q([&](co<long>::push_type&) { });
            WANT(!q);
            break;
        }
        }
    }
    void stop() {
        long want = 0;
        if (gen) { want = 4 + (got_word ? 1 : 0) + (got_pod ? 1 : 0) + (got_tock ? 1 : 0) - 1; WANT(alive == want); }
        gen.reset(); sink.reset(); podsink.reset(); ref.reset(); tick.reset(); tock.reset();
        WANT(alive == 0);
    }
};

Noise* noise_new() { return new Noise(); }
void noise_step(Noise* p) { p->step(); }
void noise_delete(Noise* p) { if (p) { p->stop(); delete p; } }

namespace {
std::vector<std::thread> g_threads;
std::atomic<bool> g_stop(false);
}
void setup_thread();
void noise_threads(int n) {
    for (int i = 0; i < n; ++i)
        g_threads.emplace_back([] {
            setup_thread();
            while (!g_stop) {
                Noise* p = noise_new();
                for (int j = 0; j < 500 && !g_stop; ++j) noise_step(p);
                noise_delete(p);
            }
        });
}
void noise_threads_stop() {
    g_stop = true;
    for (std::thread& t : g_threads) t.join();
    g_threads.clear();
}

// many coroutines at once, and long chains of them
namespace {
template< class T > struct Val;
template<> struct Val< long > { static long make(long n) { return n; } static bool is(long v, long n) { return v == n; } };
template<> struct Val< std::string > { static std::string make(long n) { return word(n); } static bool is(std::string const& s, long n) { return s == word(n); } };

template< class T > void crowd(int n) {
    typedef typename co<T>::pull_type pull; typedef typename co<T>::push_type push;
    long alive = 0;
    boost::context::fixedsize_stack st(16 * 1024);
    {
        std::vector< std::unique_ptr< pull > > a; std::vector< std::unique_ptr< push > > b;
        std::vector< long > got(n, 0);
        for (int i = 0; i < n; ++i) {
            a.emplace_back(new pull(st, [&alive, i](push& y) { Count c(alive); for (long j = 0; j < 6; ++j) y(Val<T>::make(i * 10 + j)); }));
            b.emplace_back(new push(st, [&alive, &got, i](pull& p) { Count c(alive); for (long j = 0; ; ++j) { if (Val<T>::is(p.get(), i * 10 + j)) ++got[i]; p(); } }));
        }
        WANT(alive == n);
        for (int r = 0; r < 6; ++r)
            for (int i = 0; i < n; ++i) {
                WANT(*a[i] && *b[i] && Val<T>::is(*begin(*a[i]), i * 10 + r));
                (*b[i])(a[i]->get());
                WANT(got[i] == r + 1);
                (*a[i])();
                WANT(!*a[i] == (r == 5));
            }
        WANT(alive == n);
        for (int i = 0; i < n; i += 2) { b[i].reset(); a[n - 1 - i].reset(); }
        WANT(alive == n - (n + 1) / 2);
    }
    WANT(alive == 0);
}

long g_chain_sum;
void chain_pull(co<long>::push_type& y, int depth, int how, long& alive) {
    Count c(alive);
    if (depth == 0) { for (long j = 0; j < 3; ++j) y(j); if (how == 1) throw oops{ 77 }; return; }
    boost::context::fixedsize_stack st(16 * 1024);
    co<long>::pull_type next(st, [=, &alive](co<long>::push_type& z) { chain_pull(z, depth - 1, how, alive); });
    for (long v : next) y(v + 1);
}
void chain_push(co<long>::pull_type& p, int depth, int how, long& alive) {
    Count c(alive);
    if (depth == 0) { for (long v : p) { g_chain_sum += v; if (how == 1 && v >= 3) throw oops{ 78 }; } return; }
    boost::context::fixedsize_stack st(16 * 1024);
    co<long>::push_type next(st, [=, &alive](co<long>::pull_type& z) { chain_push(z, depth - 1, how, alive); });
    for (long v : p) next(v);
}
void chains(int depth) {
    long alive = 0;
    for (int how = 0; how < 3; ++how) {          // completes, throws at the far end, destroyed
        bool hit = false; long n = 0;
        try {
            co<long>::pull_type p([&](co<long>::push_type& y) { chain_pull(y, depth, how, alive); });
            WANT(p && alive == depth + 1);
            for (long v : p) { WANT(v == depth + n); ++n; if (how == 2 && n == 2) break; }
            WANT(how == 2 || !p);
        } catch (oops const& e) { hit = e.v == 77; }
        WANT(hit == (how == 1)); WANT(n == (how == 2 ? 2 : 3)); WANT(alive == 0);
        hit = false; g_chain_sum = 0;
        try {
            co<long>::push_type p([&](co<long>::pull_type& q) { chain_push(q, depth, how, alive); });
            WANT(alive == 0);
            p(1); WANT(p && alive == depth + 1 && g_chain_sum == 1);
            p(2); WANT(p && g_chain_sum == 3);
            p(3); WANT(p && how != 1 && g_chain_sum == 6);
        } catch (oops const& e) { hit = e.v == 78; }
        WANT(hit == (how == 1)); WANT(alive == 0);
    }
}
}
void noise_crowd() { crowd< long >(1100); crowd< std::string >(300); chains(1100); }

} // namespace hv
