#include "interp.hpp"
#include <csignal>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/time.h>

namespace hv {
int g_expect;

char const* const g_opname[] = {
#define OP(n) #n,
#include "ops.inc"
#undef OP
};
Options g_opt;
std::string g_log;
int g_logfd = -1;
Hopper g_hopper;
int g_objects[8192];
Referent g_referents[8192];
static volatile long g_progress = -1;

void flush_log() {
    if (g_logfd < 0) return;
    char const* p = g_log.data(); std::size_t n = g_log.size();
    while (n) { ssize_t r = write(g_logfd, p, n); if (r <= 0) break; p += r; n -= (std::size_t)r; }
    g_log.clear();
}

static void arm() {
    struct itimerval t; memset(&t, 0, sizeof t);
    t.it_value.tv_sec = 100;
    setitimer(ITIMER_REAL, &t, nullptr);
    t.it_value.tv_sec = 20;             // of processor time: other processes do not matter
    setitimer(ITIMER_PROF, &t, nullptr);
}
void progress(long test) {
    g_progress = test;
    if ((test & 7) == 0 || g_opt.verbose) arm();
}
void alive() { arm(); }

static void on_signal(int sig, siginfo_t*, void*) {
    char buf[200];
    int n = snprintf(buf, sizeof buf, "FINDING %s test=%ld pos=%ld signal %d\n", sig == SIGALRM || sig == SIGPROF ? "HANG" : "CRASH", g_where.test, g_where.pos, sig);
    ssize_t r = write(1, buf, n); (void)r;
    flush_log();
    _exit(3);
}
static void on_terminate() {
    fatal("CRASH", "std::terminate was called");
}

void setup_thread() {
    stack_t ss; memset(&ss, 0, sizeof ss);
    ss.ss_size = 65536; ss.ss_sp = malloc(ss.ss_size);
    sigaltstack(&ss, nullptr);
}
void setup_process() {
    setup_thread();
    std::set_terminate(on_terminate);
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    int sigs[] = { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM, SIGPROF, SIGTRAP };
    for (int s : sigs) sigaction(s, &sa, nullptr);
    arm();
}

void Hopper::loop(Worker* w) {
    setup_thread();
    std::unique_lock<std::mutex> l(w->m);
    for (;;) {
        while (!w->job && !w->stop) w->cv.wait(l);
        if (w->stop) return;
        (*w->job)();
        w->job = nullptr;
        w->cv.notify_all();
    }
}
void Hopper::run(std::function<void()> f) {
    Worker* w = nullptr;
    {
        std::lock_guard<std::mutex> g(m_);
        if (idle_.size() < 3 && all_.size() < 64) {
            w = new Worker(); all_.push_back(w);
            w->th = std::thread(&Hopper::loop, w);
        } else { w = idle_.front(); idle_.pop_front(); }
    }
    {
        std::unique_lock<std::mutex> l(w->m);
        w->job = &f;
        w->cv.notify_all();
        while (w->job) w->cv.wait(l);
    }
    std::lock_guard<std::mutex> g(m_);
    idle_.push_back(w);
}
void Hopper::stop() {
    for (Worker* w : all_) {
        { std::lock_guard<std::mutex> l(w->m); w->stop = true; w->cv.notify_all(); }
        w->th.join();
        delete w;
    }
    all_.clear(); idle_.clear();
}

// suite files: "H nslot nco ntrans ntests", one line per transition, one line per test
namespace {
struct Reader {
    std::vector<char> buf; char const* p;
    bool open(char const* path) {
        FILE* f = fopen(path, "rb"); if (!f) return false;
        fseek(f, 0, SEEK_END); long n = ftell(f); fseek(f, 0, SEEK_SET);
        buf.resize((std::size_t)n + 1); if (fread(buf.data(), 1, (std::size_t)n, f) != (std::size_t)n) { fclose(f); return false; }
        buf[(std::size_t)n] = 0; fclose(f); p = buf.data(); return true;
    }
    long num() {
        while (*p && *p != '-' && (*p < '0' || *p > '9')) ++p;
        bool neg = *p == '-'; if (neg) ++p;
        long v = 0;
        while (*p >= '0' && *p <= '9') v = v * 10 + (*p++ - '0');
        return neg ? -v : v;
    }
};
}
bool load_suite(char const* path, Suite& s) {
    Reader r;
    if (!r.open(path)) return false;
    s.nslot = (int)r.num(); s.nco = (int)r.num();
    long nt = r.num(), ns = r.num();
    s.tr.resize((std::size_t)nt);
    for (Ev& e : s.tr) {
        e.op = (int)r.num(); e.c = (int)r.num(); e.a = (int)r.num(); e.b = (int)r.num(); e.d = (int)r.num(); e.x = (int)r.num();
        e.hb = (unsigned)r.num(); e.must = (int)r.num(); e.may = (int)r.num(); e.plo = (int)r.num(); e.phi = (int)r.num(); e.exs = (int)r.num();
    }
    s.tests.resize((std::size_t)ns);
    for (std::vector<int>& t : s.tests) {
        // -n l x1..xl: the events x1..xl n times
        for (long n = r.num(); n > 0; --n) {
            int i = (int)r.num();
            if (i >= 0) { t.push_back(i); continue; }
            std::size_t l = (std::size_t)r.num(), b = t.size();
            for (std::size_t j = 0; j < l; ++j) t.push_back((int)r.num());
            long m = -(long)i; if (g_opt.cap && m > g_opt.cap) m = g_opt.cap;
            for (long k = 1; k < m; ++k) for (std::size_t j = 0; j < l; ++j) t.push_back(t[b + j]);
            n -= 1 + (long)l;
        }
    }
    return true;
}

} // namespace hv
