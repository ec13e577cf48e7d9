// Interpreter: executes commands of the specification Coroutine2.tla with the real library and
// compares (script mode) or records (record mode) everything that can be observed.
#ifndef VERIF_INTERP_HPP
#define VERIF_INTERP_HPP

#include "ledger.hpp"
#include "policy.hpp"
#include "noise.hpp"
#include <algorithm>
#include <condition_variable>
#include <deque>
#include <functional>
#include <iterator>
#include <mutex>
#include <random>
#include <thread>
#include <boost/context/detail/exception.hpp>

namespace hv {

enum Op {
#define OP(n) OP_##n,
#include "ops.inc"
#undef OP
    OP_COUNT
};
extern char const* const g_opname[];

enum { PULL = 1, PUSH = 2, HEAP = 0, STACK = 1 };
enum { R_NEW = 1, R_RES, R_PUSH, R_INC, R_OASG, R_YIELD, R_NEXT, R_WINC, R_WASG, R_DESTROY, R_MASG, R_HD, R_EACH, R_WEACH };

struct Ev {
    int op, c, a, b, d, x;
    unsigned hb;               // expected booleans of the handles, two bits each (script mode)
    int must, may, plo, phi, exs;
};

struct Suite {
    int nslot, nco;
    std::vector<Ev> tr;
    std::vector< std::vector<int> > tests;
};
bool load_suite(char const* path, Suite& s);

struct Options {
    bool hop; unsigned seed; long steps; int nslot, nco, depth, nval, nexc; unsigned feat; bool verbose, deep; long cap; Noise* noise;
};
extern Options g_opt;
extern std::string g_log;
void flush_log();
void progress(long test);
void alive();

inline bool is_command(int op) { return op >= OP_enter && op <= OP_reraise; }
inline bool observed(int op, int c, int a) {
    switch (op) {
    case OP_enter: case OP_cont: case OP_get: case OP_mnew: case OP_begin: case OP_deref: case OP_ownget: case OP_omove:
    case OP_wbegin: case OP_wderef: case OP_start: case OP_ret: case OP_exc: case OP_catch_: case OP_fin: case OP_dtor: case OP_item: return true;
    case OP_gd: return a > 1 || c == 0;
    default: return false;
    }
}

// ---------------------------------------------------------------- other threads

class Hopper {
    struct Worker {
        std::thread th; std::mutex m; std::condition_variable cv; std::function<void()>* job; bool stop;
        Worker() : job(nullptr), stop(false) { }
    };
    std::vector<Worker*> all_; std::deque<Worker*> idle_; std::mutex m_;
    static void loop(Worker* w);
public:
    void run(std::function<void()> f);
    void stop();
};
extern Hopper g_hopper;

template< class F >
void hop(F f) {
    if (!g_opt.hop) { f(); return; }
    std::exception_ptr ep;
    g_hopper.run([&] {
        try { f(); }
        catch (...) { ep = std::current_exception(); }
    });
    if (ep) std::rethrow_exception(ep);
}

// ---------------------------------------------------------------- iterators (void coroutines have none)

template< class H, bool Has >
struct ItBox {
    typename H::iterator it;
    void begin(H& h, int form) { it = form & 1 ? pick(h, 0) : free_begin(h); }
    static typename H::iterator free_begin(H& h) { return boost::coroutines2::detail::begin(h); }
    // push-coroutines have no member begin() / end()
    template< class G > static auto pick(G& h, int) -> decltype(h.begin()) {
        if (!(h.end() == typename G::iterator())) finding("ITER", "end() is not the end iterator");
        return h.begin();
    }
    template< class G > static typename G::iterator pick(G& h, long) { return free_begin(h); }
    bool at_end(H& h, int form) {
        typename H::iterator e = end(h), z;
        bool r1 = form & 1 ? it == e : it == z, r2 = !(it != e);
        if (r1 != r2) finding("ITER", "== and != of iterators disagree");
        if (!(e == z) || e != z || !(z == z)) finding("ITER", "end iterators are not equal");
        // equality is symmetric and reflexive, a copy is equal
        if ((e == it) != r1 || (z != it) == r1) finding("ITER", "comparison of iterators is not symmetric");
        typename H::iterator copy(it);
        if (!(copy == it) || copy != it || !(it == it) || it != it) finding("ITER", "an iterator differs from itself or from a copy");
        if (r1 != (copy == z)) finding("ITER", "a copied iterator compares differently");
        return r1;
    }
};
template< class H > struct ItBox< H, false > {
    void begin(H&, int) { fatal("HARNESS", "iterator of void coroutine"); }
    bool at_end(H&, int) { return false; }
};

// ---------------------------------------------------------------- allocator selection

#ifndef HV_ALLOC
# define HV_ALLOC 0
#endif
#if HV_ALLOC == 0       // own allocator
typedef HAlloc Alloc;
inline Alloc make_alloc(int k) { return HAlloc(k); }
#elif HV_ALLOC == 1     // no allocator given: the default one, observed through malloc (wrapmalloc.cpp)
#elif HV_ALLOC == 2
typedef Spy< boost::coroutines2::fixedsize_stack, false > Alloc;
inline std::size_t alloc_size(int k) { static std::size_t const s[] = { 65536, 64000 + 7, 100000, (3 << 20) + 40 }; return s[k % 4]; }
inline Alloc make_alloc(int k) { return Alloc(k, alloc_size(k), alloc_size(k)); }
#elif HV_ALLOC == 3
typedef Spy< boost::coroutines2::protected_fixedsize_stack, true > Alloc;
inline std::size_t alloc_size(int k) { static std::size_t const s[] = { 65536, 64000 + 7, 100000, (3 << 20) + 40 }; return s[k % 4]; }
inline Alloc make_alloc(int k) { return Alloc(k, alloc_size(k), alloc_size(k)); }
#elif HV_ALLOC == 4
typedef Spy< boost::coroutines2::pooled_fixedsize_stack, false > Alloc;
inline Alloc make_alloc(int k) { static boost::coroutines2::pooled_fixedsize_stack pool(65536); return Alloc(k, 65536, pool); }
#endif

// ---------------------------------------------------------------- the interpreter

template< class P >
class Interp {
public:
    typedef boost::coroutines2::coroutine< typename P::type > coro;
    typedef typename coro::pull_type pull;
    typedef typename coro::push_type push;

private:
    // what an iterator referred to, which is there unchanged until the next transfer
    typedef typename std::conditional< P::has_value, typename std::remove_reference< typename P::type >::type, char >::type Elem;
    struct Seen {
        Elem* p; int code;
        Seen() : p(nullptr), code(0) { }
        void check() {
            if (p) look((P*)nullptr);
            p = nullptr;
        }
        template< class Q > typename std::enable_if< Q::has_value && !Q::lossy >::type look(Q*) {
            if (Q::decode(*p) != code) finding("VAL", "the value that an iterator referred to has changed before the next transfer");
        }
        template< class Q > typename std::enable_if< !(Q::has_value && !Q::lossy) >::type look(Q*) { }
    };
    struct Slot {
        bool ex; int p; int home; bool busy; int use; bool got; int k;
        Seen seen;
        void* mem; bool heap;
        ItBox< pull, P::has_value > pit; ItBox< push, P::has_value > sit;
        int it;                      // 0 no, 1 at, 2 end  (record mode)
        pull* pl() const { return static_cast<pull*>(mem); }
        push* ps() const { return static_cast<push*>(mem); }
    };
    struct Locals;
    struct Ctx {
        int id, kind, depth, tries, dtors;
        struct Hand { int depth; long cookie; int type, xcode; };
        std::vector<Hand> hands;     // catch-blocks
        pull* opull; push* opush;    // the coroutine-function's end
        pull* oldpull; push* oldpush;
        ItBox< pull, P::has_value > pit; ItBox< push, P::has_value > sit;
        bool got, moved; int oit;
        Seen seen;
        std::vector<Locals*> frames;
        std::vector<unsigned long> cookies;
        void* ownmem;
        int invoked;
    };
    static std::size_t const kHandle = sizeof(pull) > sizeof(push) ? sizeof(pull) : sizeof(push);
    struct alignas(16) Cell { unsigned char b[(kHandle + 15) / 16 * 16]; };

    Suite const* suite_;
    long test_; std::size_t pos_;
    bool record_;
    std::vector<Slot> slot_;
    std::vector<Ctx> ctx_;
    int nco_;
    std::vector<int> nv_;
    long serial_, cookie_; int ctype_;
    unsigned flip_;
    std::mt19937 rng_;
    long budget_; int dive_, divekind_, phase_, bottom_;
    bool cpy_armed_; long cpy_snap_, cpy_max_;
    unsigned rot_;

    unsigned flip() {        // variation of the C++ code that is used; the same if a test is run again
        unsigned x = ++flip_ * 2654435761u;
        x ^= x >> 15; x *= 2246822519u; x ^= x >> 13;
        return x;
    }
    static int enc(int k, int v) { return k * 16 + v; }

    // ------------------------------------------------------------ script

    Ev const& expected() const { return suite_->tr[suite_->tests[test_][pos_]]; }
    bool more() const { return pos_ < suite_->tests[test_].size(); }

    static std::string text(int op, int c, int a, int b, int d, int x) {
        char buf[160];
        snprintf(buf, sizeof buf, "%s(ctx=%d %d %d %d x=%d)", op >= 0 && op < OP_COUNT ? g_opname[op] : "?", c, a, b, d, x);
        return buf;
    }

    static char const* deviation(Ev const& e, int op) {
        bool unw = e.op == OP_gd || e.op == OP_hdbeg || op == OP_gd || op == OP_hdbeg
                   || (e.op == OP_ret && (e.a == R_DESTROY || e.a == R_MASG || e.a == R_HD));
        if (e.op == OP_exc || op == OP_exc || e.op == OP_catch_ || op == OP_catch_) return "EXC";
        return unw ? "UNW" : "CTRL";
    }

    std::vector<char> hbs_;       // handles' booleans, for the log
    void observe(int op, int c, int a, unsigned& hb, bool script, unsigned want) {
        (void)op; (void)c; (void)a;
        hb = 0;
        for (int s = 1; s <= (int)slot_.size() - 1; ++s) {
            Slot& sl = slot_[s];
            unsigned v;
            if (!sl.ex) v = 3;
            else if (sl.busy || sl.use) v = 2;
            else {
                bool t, f;
                if (sl.p == PULL) { t = static_cast<bool>(*sl.pl()); f = !*sl.pl(); }
                else { t = static_cast<bool>(*sl.ps()); f = !*sl.ps(); }
                if (t == f) finding("BOOL", "handle in slot %d: operator bool %d, operator! %d", s, (int)t, (int)f);
                v = t ? 1 : 0;
            }
            if (script) {
                unsigned w = (want >> (2 * (s - 1))) & 3;
                if (w == 2) v = 2;
                if (w != v) finding("BOOL", "handle in slot %d: expected %u, is %u (0 false, 1 true, 3 none)", s, w, v);
            }
            if (s <= 16) hb |= v << (2 * (s - 1));
            if (!script) hbs_[s] = (char)('0' + v);
        }
    }

    // exceptions in flight and being handled (ExcState of the specification)
    static int exc_state(int op) {
        if (g_opt.hop || (op != OP_start && op != OP_ret && op != OP_exc && op != OP_dtor && op != OP_item)) return 0;
        return 1 + 2 * (int)exceptions_in_flight() + (std::current_exception() ? 1 : 0);
    }

    void check_here(int c) {
        char here;
        int o = g_stacks.owner(&here);
        if (o != c) fatal("WHERE", "context %d runs on the stack of %d", c, o);
    }

    void check_fn(int must, int may) {
        for (int k = 1; k <= nco_ && k <= 31; ++k) {
            if ((must >> (k - 1)) & 1) {
                if (ctx_[k].invoked >= 0 && fnform_[k] != 3 && g_fn_k[k] < 1) finding("FN", "no function object of coroutine %d is alive", k);
            } else if (!((may >> (k - 1)) & 1)) {
                if (g_fn_k[k] != 0) finding("FN", "%ld function objects of coroutine %d are left", g_fn_k[k], k);
            }
        }
    }

public:
    int fnform_[MAXCO + 1];

private:
    void own_check(int c) {
        if (c == 0) return;
        Ctx& x = ctx_[c];
        if (x.opush && (!*x.opush || !static_cast<bool>(*x.opush))) finding("BOOL", "the end given to the function of coroutine %d is false", c);
        if (x.opull && (!*x.opull || !static_cast<bool>(*x.opull))) finding("BOOL", "the end given to the function of coroutine %d is false", c);
        if (x.oldpush && static_cast<bool>(*x.oldpush)) finding("BOOL", "moved-from end of coroutine %d is true", c);
        if (x.oldpull && static_cast<bool>(*x.oldpull)) finding("BOOL", "moved-from end of coroutine %d is true", c);
    }

    // an observation (or a command) happened
    void emit(int op, int c, int a = 0, int b = 0, int d = 0, int x = 0) {
        g_where.pos = (long)pos_;
        if ((pos_ & 0x3fff) == 0x3fff) alive();
        if (cpy_armed_) {
            cpy_armed_ = false;
            if (P::counted && g_pay.copies - cpy_snap_ > cpy_max_)
                finding("CPY", "transfer made %ld copies, at most %ld allowed", g_pay.copies - cpy_snap_, cpy_max_);
        }
        check_here(c);
        bool obs = observed(op, c, a);
        int exs = exc_state(op);
        if (!record_) {
            if (exs && more() && expected().op == op && expected().exs && expected().exs != exs)
                finding("EXC", "%s: %d exceptions in flight%s, expected %d%s", text(op, c, a, b, d, x).c_str(), (exs - 1) / 2, (exs - 1) % 2 ? ", one is being handled" : "",
                        (expected().exs - 1) / 2, (expected().exs - 1) % 2 ? ", one being handled" : "");
            if (!more()) fatal("CTRL", "unexpected %s behind the end", text(op, c, a, b, d, x).c_str());
            Ev const& e = expected();
            if (e.op != op || e.c != c || (op != OP_get && op != OP_ownget && op != OP_deref && op != OP_wderef && op != OP_item && (e.a != a)))
                fatal(deviation(e, op), "expected %s, observed %s", text(e.op, e.c, e.a, e.b, e.d, e.x).c_str(), text(op, c, a, b, d, x).c_str());
            if (e.b != b || e.d != d || e.x != x || e.a != a) {
                char const* cls = op == OP_exc || op == OP_catch_ ? "EXC"
                                : op == OP_get || op == OP_ownget || op == OP_deref || op == OP_wderef || op == OP_item ? (rereading_ ? "REREAD" : "VAL")
                                : op == OP_begin || op == OP_wbegin || op == OP_ret ? "ITER" : "CTRL";
                if (P::has_value || (op != OP_get && op != OP_ownget))
                    finding(cls, "expected %s, observed %s", text(e.op, e.c, e.a, e.b, e.d, e.x).c_str(), text(op, c, a, b, d, x).c_str());
            }
            if (obs) {
                unsigned hb;
                observe(op, c, a, hb, true, e.hb);
                int live = (int)g_stacks.live_mask;
                if ((e.must & ~live) != 0) finding("STACK", "stacks allocated: %x, but %x are needed", live, e.must);
                if ((live & ~e.may) != 0) finding("STACK", "stacks allocated: %x, only %x may be", live, e.may);
                if (P::counted) {
                    if (g_pay.lib < e.plo || g_pay.lib > e.phi) finding("LIFE", "%ld transferred objects exist, expected %d..%d", g_pay.lib, e.plo, e.phi);
                }
                check_fn(e.must, e.may);
                if (op == OP_start || (op == OP_ret && a >= R_YIELD && a <= R_WASG)) own_check(c);
            }
            rereading_ = false;
            ++pos_;
            if (P::lossy && more()) {
                Ev const& n = expected();
                g_expect = n.op == OP_get || n.op == OP_deref || (n.op == OP_item && n.a) ? enc(n.b, n.x) : enc(n.c, n.x);
            }
        } else {
            unsigned hb = 0;
            hbs_.assign(slot_.size(), '2');
            if (obs) { observe(op, c, a, hb, false, 0); if (op == OP_start || (op == OP_ret && a >= R_YIELD && a <= R_WASG)) own_check(c); }
            char buf[256];
            int n = snprintf(buf, sizeof buf, "{\"e\":\"%s\",\"v\":[%d,%d,%d,%d,%d],\"u\":%d,\"l\":%ld,\"o\":%d,\"m\":[", opname(op).c_str(), c, a, b, d, x,
                             exs, obs && P::counted ? g_pay.lib : -1L, (int)obs);
            g_log.append(buf, n);
            bool first = true;
            for (int k = 1; obs && k <= g_stacks.top; ++k) if (g_stacks.of[k] && g_stacks.of[k]->k == k && g_stacks.of[k]->live) { g_log += first ? "" : ","; g_log += std::to_string(k); first = false; }
            g_log += "],\"h\":[";
            for (std::size_t s = 1; s < slot_.size(); ++s) { if (s > 1) g_log += ','; g_log += hbs_[s]; }
            g_log += "]}\n";
            ++pos_;
        }
    }
    // names as in the specification (ops.inc has an underscore where C++ has a keyword)
    static std::string opname(int op) { std::string n = g_opname[op]; while (!n.empty() && n.back() == '_') n.pop_back(); return n; }
    void emit(Ev const& e) { emit(e.op, e.c, e.a, e.b, e.d, e.x); }

    bool rereading_;

    // where the value is that was transferred last (an iterator refers to it)
    std::vector<Elem*> at_; std::vector<int> cv_; bool again_;
    template< class Q > typename std::enable_if< Q::has_value && !Q::is_ref >::type mark(int k, pull* h, Q*) { if (again_ && k > 0 && h && *h) { typename pull::iterator i = begin(*h); at_[k] = i.operator->(); } }
    template< class Q > typename std::enable_if< !(Q::has_value && !Q::is_ref) >::type mark(int, pull*, Q*) { }
    void mark(Slot& sl) { if (sl.p == PULL) mark(sl.k, sl.pl(), (P*)nullptr); }
    void mark(Ctx& c) { mark(c.id, c.opull, (P*)nullptr); }
    template< class Call, class Q > typename std::enable_if< Q::has_value && !Q::is_ref && Q::lvalue >::type give_again(Call const& call, int k, int how, unsigned form, Q*) {
        Elem& v = *at_[k];
        if (how) call(std::move(v)); else if (form & 1) call(const_cast< Elem const& >(v)); else call(v);
    }
    template< class Call, class Q > typename std::enable_if< Q::has_value && !Q::is_ref && !Q::lvalue >::type give_again(Call const& call, int k, int, unsigned, Q*) { call(std::move(*at_[k])); }
    template< class Call, class Q > typename std::enable_if< !(Q::has_value && !Q::is_ref) >::type give_again(Call const&, int, int, unsigned, Q*) { fatal("HARNESS", "nothing to transfer again"); }

    // mode: 0 user code, 1 in a handler, 2 in the body of a loop
    static int mode_of(int op) { return op == OP_cont || op == OP_rethrow || op == OP_handle ? 1 : op == OP_goon || op == OP_brk ? 2 : 0; }
    Ev fetch(Ctx& c, int mode = 0) {
#ifdef HV_NOISE
        if (g_opt.noise && mode == 0 && (flip_ + pos_) % 3 == 0) noise_step(g_opt.noise);
#endif
        if (record_) return choose(c, mode);
        if (!more()) fatal("CTRL", "behaviour continues in context %d behind the end", c.id);
        Ev const& e = expected();
        if (!is_command(e.op) || e.c != c.id || mode != mode_of(e.op))
            fatal(deviation(e, -1), "context %d continues with user code, expected %s", c.id, text(e.op, e.c, e.a, e.b, e.d, e.x).c_str());
        return e;
    }

    // ------------------------------------------------------------ record mode: any legal client

    unsigned rnd(unsigned n) { return rng_() % n; }
    bool feat(int bit) const { return (g_opt.feat >> bit) & 1; }
    bool usable(Ctx const& c, int s) const {
        Slot const& sl = slot_[s];
        return sl.ex && (sl.home == -1 || sl.home == c.id) && !sl.busy && !sl.use;
    }
    bool valid(int s) const { return slot_[s].p == PULL ? static_cast<bool>(*slot_[s].pl()) : static_cast<bool>(*slot_[s].ps()); }
    int free_slot() const { for (std::size_t s = 1; s < slot_.size(); ++s) if (!slot_[s].ex && !slot_[s].busy) return (int)s; return 0; }
    int next_val(int k) const { return nv_[k] % g_opt.nval + 1; }

    Ev choose(Ctx& c, int mode) {
        std::vector< std::pair<int, Ev> > cand;
        int total = 0;
        bool may_throw = c.tries > 0 || (c.id != 0 && !c.dtors);
        int const L = (int)slot_.size() - 1;
        bool tired = (long)pos_ > budget_;
        // down by creating coroutines, up to the main context by suspending, down again by resuming, then at random
        if (dive_ > 0 && phase_ < 3) {
            if (phase_ == 0 && nco_ >= dive_) { phase_ = 1; bottom_ = c.id; }
            if (phase_ == 1 && c.id == 0) phase_ = 2;
            if (phase_ == 2 && c.id >= bottom_) { phase_ = 3; if (g_opt.nco > 256) budget_ = std::min(budget_, (long)pos_ + 150); }
        }
        int const up = dive_ > 0 && phase_ == 1 ? 20000 : 0, down = dive_ > 0 && phase_ == 2 ? 20000 : 0;
        int below = 1 << 30;
        if (down) for (int s = 1; s <= L; ++s) if (usable(c, s) && slot_[s].k > c.id && valid(s)) below = std::min(below, slot_[s].k);
#define CAND(w, OP_, A, B, D, X) do { int w_ = (w); if (w_ > 0) { Ev e = Ev(); e.op = OP_; e.c = c.id; e.a = (A); e.b = (B); e.d = (D); e.x = (X); cand.push_back(std::make_pair(w_, e)); total += w_; } } while (0)
        if (mode == 2) { CAND(3, OP_goon, 0, 0, 0, 0); CAND(tired ? 10 : 1, OP_brk, 0, 0, 0, 0); }
        else if (mode == 1) {
            CAND(3, OP_cont, 0, 0, 0, 0);
            if (may_throw) CAND(nco_ < dive_ ? 1 : g_opt.deep ? 9 : 2, OP_rethrow, 0, 0, 0, xcode_);
            if (c.depth < g_opt.depth && !tired) CAND(2, OP_handle, 0, 0, 0, 0);
        } else {
            int how = (int)rnd(2); if (!P::lvalue) how = 1;
            if (c.depth < g_opt.depth && !tired) { CAND(2, OP_enter, 0, 0, 0, 0); CAND(2, OP_enter, 1, 0, 0, 0); CAND(1, OP_enter, 2, 0, 0, 0); }
            if (c.depth > 1) CAND(tired ? 20 : 2, OP_leave, 0, 0, 0, 0);
            else if (c.id != 0) CAND(tired ? 10 : 2, OP_return_, 0, 0, 0, 0);
            else CAND(tired ? 40 : nco_ >= g_opt.nco ? 2 : 0, OP_end, 0, 0, 0, 0);
            if (may_throw && !tired) { int x = 1 + (int)rnd(g_opt.nexc); CAND(1, OP_throw_, x, 0, 0, x); }
            if (may_throw && !c.hands.empty() && c.hands.back().depth == c.depth) CAND(3, OP_reraise, 0, 0, 0, c.hands.back().xcode);
            int fs = free_slot();
            if (fs && nco_ < g_opt.nco && !tired)
                for (int p = 1; p <= 2; ++p) { unsigned f = nco_ < dive_ ? 400 : 12; int flt = rnd(f) == 0 ? 1 : rnd(f) == 0 ? 2 : 0; CAND(g_opt.deep ? (c.id == nco_ ? (nco_ < dive_ ? (p == divekind_ ? 1 : 1500) : 40) : 1) : 3, OP_new_, fs, p, c.frames.back()->room() ? (int)rnd(2) : HEAP, (int)rnd(4) * 10 + flt); }
            for (int s = 1; s <= L; ++s) {
                if (!usable(c, s)) continue;
                Slot& sl = slot_[s];
                bool v = valid(s);
                if (v && sl.p == PULL) {
                    CAND(down && sl.k == below ? down : 4, OP_res, s, 0, 0, 0);
                    if (P::has_value && !sl.got) CAND(4, OP_get, s, 0, 0, 0);
                    if (P::has_value && sl.it == 1) { CAND(8, OP_inc, s, 0, 0, 0); if (!sl.got) CAND(4, OP_deref, s, 0, 0, 0); }
                }
                if (v && sl.p == PUSH) {
                    CAND(down && sl.k == below ? down : g_opt.deep && sl.k == nco_ ? (nco_ < dive_ ? 3000 : 60) : 4, OP_push, s, how, sl.k, next_val(sl.k));
                    if (P::can_throw) CAND(1, OP_pusht, s, how, sl.k, 0);
                    if (P::has_value && !P::is_ref && cv_[sl.k]) CAND(2, OP_apush, s, how, sl.k, cv_[sl.k]);
                    if (P::has_value && P::lvalue && sl.it == 1) CAND(8, OP_oasg, s, how, sl.k, next_val(sl.k));
                }
                if (P::has_value && sl.p == PULL && (!v || !sl.got)) CAND(1, OP_each, s, 0, 0, 0);
                if (P::has_value) CAND(1, OP_begin, s, sl.p, 0, 0);
                CAND(1, OP_destroy, s, 0, 0, 0);
                if (fs) CAND(1, OP_mnew, s, fs, c.frames.back()->room() ? (int)rnd(2) : HEAP, 0);
                int t = 1 + (int)rnd(L);
                if (usable(c, t) && slot_[t].p == sl.p) CAND(1, OP_masg, s, t, 0, 0);
            }
            if (c.id != 0 && !c.dtors && c.hands.empty()) {
                if (c.kind == PULL) {
                    CAND(up ? up : 8, OP_yield, how, 0, 0, next_val(c.id));
                    if (P::can_throw) CAND(1, OP_yieldt, how, 0, 0, 0);
                    if (P::has_value && !P::is_ref && cv_[c.id]) CAND(2, OP_ayield, how, 0, 0, cv_[c.id]);
                    if (P::has_value && P::lvalue && c.oit == 1) CAND(6, OP_wasg, how, 0, 0, next_val(c.id));
                } else {
                    CAND(up ? up : 8, OP_next, 0, 0, 0, 0);
                    if (P::has_value && !c.got) CAND(4, OP_ownget, 0, 0, 0, 0);
                    if (P::has_value && !c.got) CAND(2, OP_weach, 0, 0, 0, 0);
                    if (P::has_value && c.oit == 1) { CAND(6, OP_winc, 0, 0, 0, 0); if (!c.got) CAND(3, OP_wderef, 0, 0, 0, 0); }
                }
                if (P::has_value && c.oit != 1) CAND(1, OP_wbegin, c.kind, 0, 0, 0);
                if (!c.moved) CAND(1, OP_omove, 0, 0, 0, 0);
            }
        }
#undef CAND
        int r = (int)rnd((unsigned)total);
        std::size_t i = 0;
        while (r >= cand[i].first) { r -= cand[i].first; ++i; }
        return cand[i].second;
    }

    // ------------------------------------------------------------ frames

    struct Locals {
        Interp& I; Ctx& c; std::vector<int> sl; Cell mem[16]; bool used[16];
        Locals(Interp& i, Ctx& x) : I(i), c(x) { for (int j = 0; j < 16; ++j) used[j] = false; c.frames.push_back(this); }
        ~Locals() {
            while (!sl.empty()) {
                int s = sl.back();
                I.slot_[s].ex = false; I.slot_[s].busy = true; I.slot_[s].it = 0;
                I.emit(OP_hdbeg, c.id, s);
                I.destroy_handle(s);
                if (!sl.empty() && sl.back() == s) sl.pop_back();
                I.slot_[s].busy = false;
                I.emit(OP_ret, c.id, R_HD, s);
            }
            if (c.frames.empty() || c.frames.back() != this) fatal("FRAME", "frames of context %d are left out of order", c.id);
            c.frames.pop_back();
        }
        void* take() { for (int j = 0; j < 16; ++j) if (!used[j]) { used[j] = true; return &mem[j]; } return nullptr; }
        bool room() const { for (int j = 0; j < 16; ++j) if (!used[j]) return true; return false; }
        void give_back(void* p) { for (int j = 0; j < 16; ++j) if (p == &mem[j]) used[j] = false; }
    };
    struct Guard {
        Interp& I; Ctx& c; unsigned long cookie; int depth;
        Guard(Interp& i, Ctx& x) : I(i), c(x) {
            cookie = 0x9E3779B97F4A7C15ul * (unsigned long)(++I.serial_ * 64 + x.id);
            depth = ++c.depth;
            c.cookies.push_back(cookie);
        }
        void check() const {
            if (c.depth != depth || (int)c.cookies.size() != depth || c.cookies.back() != cookie) fatal("FRAME", "local variables of context %d at depth %d are damaged", c.id, depth);
        }
        ~Guard() {
            check();
            c.cookies.pop_back();
            I.emit(OP_gd, c.id, depth);
            --c.depth;
        }
    };

    // an object whose destructor runs user code
    struct Cleanup {
        Interp& I; Ctx& c; bool on;
        ~Cleanup() {
            if (!on) return;
            I.emit(OP_dtor, c.id, c.depth);
            long ck = I.cookie_; int ct = I.ctype_, xc = I.xcode_, tr = c.tries;
            c.tries = 0; ++c.dtors;
            { Locals l(I, c); I.body(c); }
            --c.dtors; c.tries = tr;
            I.cookie_ = ck; I.ctype_ = ct; I.xcode_ = xc;
        }
    };

    __attribute__((noinline)) void frame(Ctx& c, bool clean = false) {
        Guard g(*this, c);
        Cleanup cu = { *this, c, clean };
        Locals l(*this, c);
        // values that live in registers or on the stack across all switches
        long a = c.depth * 1000003L + c.id; double f = c.depth + c.id / 64.0;
        unsigned long h = g.cookie;
        body(c);
        g.check();
        if (a != c.depth * 1000003L + c.id || f != c.depth + c.id / 64.0 || h != g.cookie) finding("FRAME", "local variables of context %d at depth %d are damaged", c.id, c.depth);
    }

    // ------------------------------------------------------------ function objects

    template< class Own >
    struct FnCore {
        Interp* I; int k; bool mine, bomb; unsigned magic; void const* self;
        void born(void const* me) {
            magic = 0xF00DF00Du; self = me;
            g_fn.born(me, mine);
            if (!mine) ++g_fn_k[k];
        }
        void ok(void const* me) const { if (magic != 0xF00DF00Du || self != me) fatal("LEDGER", "function object at %p used, but it is not alive", me); g_fn.check(me); }
        void died(void const* me) {
            if (magic != 0xF00DF00Du || self != me) finding("LEDGER", "destructor of a function object on something that is none");
            g_fn.died(me, mine); if (!mine) --g_fn_k[k];
            magic = 0; self = nullptr;
        }
    };
    template< class Own >
    struct Fn {
        FnCore<Own> f; bool moved;
        Fn(Interp* i, int k, bool bomb) : moved(false) { f.I = i; f.k = k; f.mine = true; f.bomb = bomb; f.born(this); }
        Fn(Fn const& o) : moved(false) {
            o.f.ok(&o);
            if (o.f.bomb) throw fn_error();
            if (o.moved) fatal("FNCPY", "moved-from function object of coroutine %d is copied", o.f.k);
            f = o.f; f.mine = false; f.born(this);
            ++f.I->fncopies_[f.k];
        }
        Fn(Fn&& o) : moved(false) {
            o.f.ok(&o);
            if (o.moved) fatal("FNCPY", "moved-from function object of coroutine %d is moved", o.f.k);
            f = o.f; f.mine = false; f.born(this); o.moved = true;
        }
        Fn& operator=(Fn const&) = delete;
        ~Fn() { f.died(this); }
        void operator()(Own& own) {
            f.ok(this);
            if (f.mine) finding("FNCPY", "the caller's function object is invoked instead of a copy");
            if (moved) fatal("FNCPY", "moved-from function object of coroutine %d is invoked", f.k);
            f.I->enter(f.k, own);
            f.ok(this);
        }
    };
    template< class Own >
    struct MoveFn {
        FnCore<Own> f; bool moved;
        MoveFn(Interp* i, int k) : moved(false) { f.I = i; f.k = k; f.mine = true; f.bomb = false; f.born(this); }
        MoveFn(MoveFn const&) = delete;
        MoveFn(MoveFn&& o) noexcept : moved(false) {
            o.f.ok(&o);
            if (o.moved) fatal("FNCPY", "moved-from function object of coroutine %d is moved", o.f.k);
            f = o.f; f.mine = false; f.born(this); o.moved = true;
        }
        ~MoveFn() { f.died(this); }
        void operator()(Own& own) {
            f.ok(this);
            if (moved) fatal("FNCPY", "moved-from function object of coroutine %d is invoked", f.k);
            f.I->enter(f.k, own);
            f.ok(this);
        }
    };
    static Interp*& self() { static Interp* p; return p; }
    // function pointers carry no data: one instance per coroutine number
    template< class Own, int K > static void fnptr(Own& own) { self()->enter(K, own); }
    template< class Own > static void (*pick_ptr(int k))(Own&) {
        switch (k) {
        case 1: return &fnptr<Own, 1>; case 2: return &fnptr<Own, 2>; case 3: return &fnptr<Own, 3>; case 4: return &fnptr<Own, 4>;
        case 5: return &fnptr<Own, 5>; case 6: return &fnptr<Own, 6>; case 7: return &fnptr<Own, 7>; case 8: return &fnptr<Own, 8>;
        default: return nullptr;
        }
    }
    long fncopies_[MAXCO + 1];

    // further kinds of callables
    template< class Own > void bound(int k, Own& own) { enter(k, own); }
    struct Pinned {         // given as std::ref: invoked itself
        Interp* I; int k; void const* self;
        Pinned() : I(nullptr), k(0), self(nullptr) { }
        Pinned(Pinned const&) = delete;
        template< class Own > void operator()(Own& own) { if (self != this) finding("FNCPY", "another object than the referenced one is invoked"); I->enter(k, own); }
    };
    Pinned pinned_[MAXCO + 1];
    template< class Own >
    struct alignas(64) Odd final {      // large, over-aligned, hostile; const call operator with a result
        Interp* I; int k; unsigned char pad[1200];
        Odd(Interp* i, int k_) : I(i), k(k_) { for (std::size_t j = 0; j < sizeof pad; ++j) pad[j] = (unsigned char)(j * 5 + k); }
        void operator&() const = delete;
        template< class U > void operator,(U&&) const = delete;
        void check() const {
            if (!aligned_ok(this)) finding("ALIGN", "function object is misaligned");
            for (std::size_t j = 0; j < sizeof pad; ++j) if (pad[j] != (unsigned char)(j * 5 + k)) { finding("FN", "function object is damaged"); break; }
        }
        int operator()(Own& own) const { check(); I->enter(k, own); check(); return 42; }
    };
    template< class Own >
    struct Generic {                    // what it is called with is deduced
        Interp* I; int k;
        template< class X > void operator()(X&& x) const {
            if (!std::is_same< X, Own& >::value) finding("FN", "the function is not called with its handle as lvalue");
            I->enter(k, x);
        }
    };
    template< class Own >
    struct Qual {                       // the call has to be made on an lvalue that is not const
        Interp* I; int k;
        void operator()(Own& own) & { I->enter(k, own); }
        void operator()(Own& own) const& { finding("FN", "the function object is called as const"); I->enter(k, own); }
        void operator()(Own& own) && { finding("FN", "the function object is called as rvalue"); I->enter(k, own); }
    };
    template< class Own >
    struct Init {                       // braces and parentheses make a difference
        struct Any { template< class X > Any(X const&) { } };
        Interp* I; int k;
        Init(Interp* i, int k_) : I(i), k(k_) { }
        Init(Init const&) = default;
        Init(std::initializer_list< Any >) : I(nullptr), k(0) { finding("FNCPY", "the function object is constructed from a list instead of copied"); }
        void operator()(Own& own) { if (I) I->enter(k, own); }
    };
    // a handle may be moved in many ways; a derived class is still a handle
    template< class H > struct Derived : H {
        template< class... A > explicit Derived(int, A&&... a) : H(std::forward< A >(a)...) { }
        Derived(Derived&& o) noexcept : H(std::move(o)) { }
        Derived& operator=(Derived&& o) noexcept { H::operator=(std::move(o)); return *this; }
    };
    template< class H > struct Member { H h; explicit Member(H&& o) : h(std::move(o)) { } };
    template< class H > static H pass(H h) { return h; }
    template< class H > static H* relocate(void* mem, H& from, unsigned form) {
        switch (form % 6) {
        case 1: { Derived< H > d(0, std::move(from)); return ::new (mem) H(std::move(d)); }
        case 2: return ::new (mem) H(pass< H >(std::move(from)));
        case 3: { Derived< H > a(0, std::move(from)), d(std::move(a)); return ::new (mem) H(std::move(d)); }
        case 4: { Member< H > a(std::move(from)); Member< H > d(std::move(a)); return ::new (mem) H{ std::move(d.h) }; }
        case 5: return ::new (mem) H(std::move_if_noexcept(from));
        default: return ::new (mem) H(std::move(from));
        }
    }
    template< class H > static void reassign(H& to, H& from, unsigned form) {
        switch (form % 6) {
        case 1: { H& r = (to = Derived< H >(0, std::move(from))); if (&r != &to) finding("CTRL", "assignment returns another handle"); break; }
        case 2: to = H(std::move(from)); break;
        case 3: to = pass< H >(std::move(from)); break;
        default: { H& r = (to = std::move(from)); if (&r != &to) finding("CTRL", "assignment returns another handle"); }
        }
    }
    template< class H, class Own >
    H* build_odd(void* mem, int k, unsigned form, unsigned kind) {
        fnform_[k] = 3;
        Interp* I = this;
        switch (kind % 10) {
        case 0: return build2<H>(mem, k, *pick_ptr<Own>(k > 8 ? 1 : k), form);
        case 1: { auto f = [I, k](Own& own) { I->enter(k, own); }; return build2<H>(mem, k, f, form); }
        case 2: return build2<H>(mem, k, [I, k](Own& own) mutable { I->enter(k, own); k = -1; }, form);
        case 3: {
            std::function< void(Own&) > f([I, k](Own& own) { I->enter(k, own); });
            H* h = build2<H>(mem, k, f, form);
            if (!f) finding("FNCPY", "the caller's function object was moved from");
            return h;
        }
        case 4: { Pinned& p = pinned_[k]; p.I = this; p.k = k; p.self = &p; return build2<H>(mem, k, std::ref(p), form); }
        case 5: return build2<H>(mem, k, std::bind(&Interp::template bound<Own>, this, k, std::placeholders::_1), form);
        case 6: { Odd<Own> const f(this, k); H* h = build2<H>(mem, k, f, form); f.check(); return h; }
        case 7: { Qual<Own> f = { this, k }; return (form & 4) ? build2<H>(mem, k, f, form) : build2<H>(mem, k, std::move(f), form); }
        case 8: { Init<Own> f(this, k); return (form & 4) ? build2<H>(mem, k, f, form) : build2<H>(mem, k, std::move(f), form); }
        default: { Generic<Own> f = { this, k }; return build2<H>(mem, k, std::move(f), form); }
        }
    }

    void set_own(Ctx& c, push& o) { c.opush = &o; c.opull = nullptr; }
    void set_own(Ctx& c, pull& o) { c.opull = &o; c.opush = nullptr; }

    struct OwnHolder {
        Ctx& c; Cell mem;
        explicit OwnHolder(Ctx& x) : c(x) { c.ownmem = &mem; }
        ~OwnHolder() {
            if (!c.moved) return;
            if (c.opush) c.opush->~push(); else c.opull->~pull();
        }
    };

    template< class Own >
    void enter(int k, Own& own) {
        Ctx& c = ctx_[k];
        if (c.invoked++) fatal("CTRL", "the function of coroutine %d is invoked again", k);
        set_own(c, own);
        c.oldpull = nullptr; c.oldpush = nullptr; c.got = false; c.seen = Seen(); c.moved = false; c.oit = 0; c.depth = 0; c.tries = 0; c.dtors = 0;
        OwnHolder oh(c);
        emit(OP_start, k);
        frame(c);
    }

    // ------------------------------------------------------------ operations

    template< class H, class F >
    H* build2(void* mem, int k, F&& fn, int form) {
        (void)form; (void)k;
#if HV_ALLOC == 1
        return ::new (mem) H(std::forward<F>(fn));
#else
        if (form & 1) {
            Alloc a = make_alloc(k);
            H* h = ::new (mem) H(a, std::forward<F>(fn));
            if (a.id != k) finding("LEDGER", "the caller's allocator was modified");
            return h;
        }
        if (form & 2) return relocate(mem, *std::unique_ptr< H >(new H{ make_alloc(k), std::forward<F>(fn) }), form >> 2);
        return ::new (mem) H(make_alloc(k), std::forward<F>(fn));
#endif
    }

    struct NextK { int old; explicit NextK(int k) : old(g_stacks.next_k) { g_stacks.next_k = k; } ~NextK() { g_stacks.next_k = old; } };

    template< class H, class Own >
    H* build(void* mem, int k, int how, bool bomb) {
        NextK nk(k);
        unsigned form = flip();
        fncopies_[k] = 0;
        H* h;
        if (bomb) { if (how != 2) how = 0; }
        else if (how == 9) {
            how = form % 6;
            if (how == 5) { unsigned kind = (form >> 5) % 10; if (kind || k <= 8) return build_odd<H, Own>(mem, k, form >> 1, kind); how = 1; }
        }
        else if (how == 1 && (form & 2)) how = 4;
        else if (how == 3 && (form & 1)) { unsigned kind = (form >> 5) % 10; if (kind || k <= 8) return build_odd<H, Own>(mem, k, form >> 1, kind); }
        if (how == 3 && k > 8) how = 1;
        fnform_[k] = how;
        switch (how) {
        case 0: {
            Fn<Own> fn(this, k, bomb);
            try { h = build2<H>(mem, k, fn, form >> 1); }
            catch (...) { fn.f.ok(&fn); if (fn.moved) finding("FNCPY", "the caller's function object was moved from"); throw; }
            fn.f.ok(&fn);
            if (fn.moved) finding("FNCPY", "the caller's function object was moved from");
            return h;
        }
        case 1: {
            h = build2<H>(mem, k, Fn<Own>(this, k, true), form >> 1);
            if (fncopies_[k]) finding("FNCPY", "function object given as rvalue was copied");
            return h;
        }
        case 2: {
            Fn<Own> const fn(this, k, bomb);
            h = build2<H>(mem, k, fn, form >> 1);
            fn.f.ok(&fn);
            if (fn.moved) finding("FNCPY", "the caller's function object was moved from");
            return h;
        }
        case 3: return build2<H>(mem, k, pick_ptr<Own>(k), form >> 1);
        default: return build2<H>(mem, k, MoveFn<Own>(this, k), form >> 1);
        }
    }

    void destroy_handle(int s) {
        Slot& sl = slot_[s];
        sl.pit = ItBox< pull, P::has_value >(); sl.sit = ItBox< push, P::has_value >();
        int p = sl.p; void* mem = sl.mem; bool heap = sl.heap; int home = sl.home;
        hop([=] {
            if (p == PULL) static_cast<pull*>(mem)->~pull();
            else static_cast<push*>(mem)->~push();
        });
        memset(mem, 0xEE, kHandle);
        if (heap) delete static_cast<Cell*>(mem);
        else for (std::size_t i = 0; i < ctx_[home].frames.size(); ++i) ctx_[home].frames[i]->give_back(mem);
    }

    // runs f; returns false if it threw and the exception was handled
    template< class F >
    bool attempt(Ctx& c, int opc, int s, F f) {
        int type;
        (void)type;
        try { f(); return true; }
        catch (boost::context::detail::forced_unwind const&) { throw; }
        catch (...) {
            Caught x = classify();
            g_stacks.fail = false;
            if (x.type >= 0 && x.type < NXTYPES) {
                if (x.cookie != cookie_ || x.type != ctype_) finding("EXC", "exception %d/%ld expected, but %d/%ld arrived", ctype_, cookie_, x.type, x.cookie);
            } else if (x.type < 0) finding("EXC", "an exception of unknown kind arrived");
            xcode_ = x.x;
            emit(OP_exc, c.id, opc, s, 0, x.x);
            Ev e = fetch(c, 1);
            emit(e);
            if (e.op == OP_rethrow) throw;
            if (e.op == OP_handle) handler(c);
        }
        return false;
    }
    int xcode_;

    // user code in a catch-block
    void handler(Ctx& c) {
        typename Ctx::Hand h = { c.depth + 1, cookie_, ctype_, xcode_ };
        c.hands.push_back(h);
        struct Pop { Ctx& c; ~Pop() { c.hands.pop_back(); } } pop = { c };
        frame(c);
    }

    void armed(int max) { cpy_armed_ = P::no_copy; cpy_snap_ = g_pay.copies; cpy_max_ = max; }

    // transfer of one value; D: dispatch on has_value
    struct PushCall {
        push& h; explicit PushCall(push& x) : h(x) { }
        template< class V > void operator()(V&& v) const { push& r = h(std::forward<V>(v)); if (&r != &h) finding("CTRL", "call operator returns another handle"); }
    };
    struct AsgCall {
        ItBox< push, P::has_value >& b; unsigned form; AsgCall(ItBox< push, P::has_value >& x, unsigned f) : b(x), form(f) { }
        template< class V > void operator()(V&& v) const { asg(b, std::forward<V>(v)); }
        template< class B, class V > void asg(B& bb, V&& v) const {
            if (form & 1) { *bb.it = std::forward<V>(v); ++bb.it; }
            else { bb.it = std::forward<V>(v); }
        }
    };

    template< class Call, class Q >
    void give(Call const& call, int code, int how, unsigned form, Q*, typename std::enable_if< Q::has_value >::type* = nullptr) {
        struct Check {
            typename Q::Source& s; bool lv;
            ~Check() { if (lv ? !s.intact() : !s.alive()) finding("SRC", "the pushed object was modified"); }
        };
        typename Q::Source src(code);
        bool lv = how == 0 || Q::is_ref;
        if (!Q::lvalue) lv = false;
        Check chk = { src, lv };
        (void)chk;
        if (!lv && form % 8 == 5 && convert(call, code, (Q*)nullptr, 0)) return;
        dispatch(call, src, lv, form, (Q*)nullptr);
    }
    template< class Call, class Q >
    void give(Call const& call, int, int, unsigned, Q*, typename std::enable_if< !Q::has_value >::type* = nullptr) { void_call(call); }
    void void_call(PushCall const& p) { void_push(p.h); }
    template< class H > void void_push(H& h) { H& r = h(); if (&r != &h) finding("CTRL", "call operator returns another handle"); }
    void void_call(AsgCall const&) { fatal("HARNESS", "iterator of void coroutine"); }

    // an argument that is converted to the element type
    template< class Call, class Q > auto convert(Call const& call, int code, Q*, int) -> decltype(Q::similar(code), bool()) { call(Q::similar(code)); return true; }
    template< class Call, class Q > bool convert(Call const&, int, Q*, long) { return false; }

    template< class Call, class Q >
    void dispatch(Call const& call, typename Q::Source& src, bool lv, unsigned form, Q*, typename std::enable_if< Q::lvalue && !Q::is_ref >::type* = nullptr) {
        if (!lv) call(std::move(src.get()));
        else if (form & 1) call(const_cast< typename std::add_const< typename std::remove_reference< decltype(src.get()) >::type >::type& >(src.get()));
        else call(src.get());
    }
    template< class Call, class Q >
    void dispatch(Call const& call, typename Q::Source& src, bool, unsigned, Q*, typename std::enable_if< Q::is_ref >::type* = nullptr) { call(src.get()); }
    template< class Call, class Q >
    void dispatch(Call const& call, typename Q::Source& src, bool, unsigned, Q*, typename std::enable_if< !Q::lvalue >::type* = nullptr) { call(std::move(src.get())); }

    template< class Q > typename std::enable_if< Q::has_value, int >::type take(pull& h, unsigned form, Q*) {
        if (form & 1) return Q::decode(h.get());
        auto&& v = h.get();
        return Q::decode(v);
    }
    template< class Q > typename std::enable_if< !Q::has_value, int >::type take(pull&, unsigned, Q*) { return 0; }

    int read(pull& h) {
        int code = 0; unsigned form = flip();
        long before = g_pay.copies;
        hop([&] { code = take(h, form, (P*)nullptr); });
        if (P::no_copy && P::counted && g_pay.copies != before) finding("CPY", "reading a value made a copy");
        return code;
    }
    template< class B > int deref(B& b, unsigned form, pull& h, Seen& seen, typename std::enable_if< P::has_value, B >::type* = nullptr) {
        long before = g_pay.copies + g_pay.moves;
        int code = form & 1 ? P::decode(*b.it) : P::decode(*b.it.operator->());
        if (P::counted && g_pay.copies + g_pay.moves != before) finding("CPY", "dereferencing an iterator copied the value");
        Elem* p = std::addressof(*b.it);
        B copy(b);
        if (p != b.it.operator->() || p != std::addressof(*copy.it)) finding("CPY", "* and -> of an iterator and its copy refer to different objects");
        if (code >= 0) poke(h, p, code, form >> 1, (P*)nullptr);
        seen.p = p; seen.code = code;
        return code;
    }
    template< class B > int deref(B&, unsigned, pull&, Seen&, typename std::enable_if< !P::has_value, B >::type* = nullptr) { return 0; }
    // an iterator refers to the transferred value itself
    template< class Q > typename std::enable_if< Q::has_value && Q::reread && !Q::is_ref && !Q::lossy >::type poke(pull& h, Elem* p, int code, unsigned form, Q* q) {
        typename Q::Source other(code ^ 1);
        Elem saved(*p);
        *p = other.get();
        if (take(h, form, q) != (code ^ 1)) finding("CPY", "a modification through an iterator does not reach the transferred value");
        *p = saved;
    }
    template< class Q > typename std::enable_if< !(Q::has_value && Q::reread && !Q::is_ref && !Q::lossy) >::type poke(pull&, Elem*, int, unsigned, Q*) { }
    template< class B > void advance(B& b, unsigned form, typename std::enable_if< P::has_value, B >::type* = nullptr) { if (form & 1) ++b.it; else b.it++; }
    template< class B > void advance(B&, unsigned, typename std::enable_if< !P::has_value, B >::type* = nullptr) { }

    // output iterators need an element type that can be copied
    template< class Call, class Q > typename std::enable_if< Q::lvalue >::type give_it(Call const& call, int code, int how, unsigned form, Q* q) { give(call, code, how, form, q); }
    template< class Call, class Q > typename std::enable_if< !Q::lvalue >::type give_it(Call const&, int, int, unsigned, Q*) { fatal("HARNESS", "output iterator for move-only type"); }

    // loops over all values; f says whether to leave the loop
    template< class F, class Q > typename std::enable_if< Q::has_value >::type loop(pull& h, unsigned form, F f, Q*) {
        typedef typename pull::iterator I;
        typedef typename I::reference R;
        switch (form % 6) {
        case 0: for (auto& v : h) if (f(Q::decode(v))) break; return;
        case 1: for (auto&& v : h) if (f(Q::decode(v))) break; return;
        case 2: for (I i = h.begin(); i != h.end(); ++i) if (f(Q::decode(*i))) break; return;
        case 3: { I i = begin(h), e = end(h); while (!(i == e)) { if (f(Q::decode(*i.operator->()))) break; i++; } return; }
        case 4: {
            bool hit = false;
            I i = std::find_if(begin(h), end(h), [&](R v) { return hit = f(Q::decode(v)); });
            if (hit != (i != end(h))) finding("ITER", "find_if returns a wrong iterator");
            return;
        }
        default: {
            bool hit = false;
            bool r = std::any_of(h.begin(), h.end(), [&](R v) { return hit = f(Q::decode(v)); });
            if (r != hit) finding("ITER", "any_of is wrong");
        }
        }
    }
    template< class F, class Q > typename std::enable_if< !Q::has_value >::type loop(pull&, unsigned, F, Q*) { fatal("HARNESS", "loop over void"); }

    static int kof(int code) { return code < 0 ? code : code >> 4; }
    static int vof(int code) { return code < 0 ? code : code & 15; }

    struct Use { Slot& s; explicit Use(Slot& x) : s(x) { ++s.use; } ~Use() { --s.use; } };

    bool bomb_payload() { if (P::can_throw) g_pay.throw_next = true; return P::can_throw; }

    void do_new(Ctx& c, Ev const& e) {
        int s = e.a, p = e.b, loc = e.d, how = e.x / 10, flt = e.x % 10;
        int k = ++nco_;
        if (k > MAXCO || k >= (int)ctx_.size()) fatal("HARNESS", "too many coroutines");
        Slot& sl = slot_[s];
        sl.busy = true; sl.ex = false;
        ctx_[k] = Ctx(); ctx_[k].id = k; ctx_[k].kind = p;
        nv_[k] = 0;
        emit(e);
        bool heap = loc == HEAP;
        void* mem = heap ? (void*)new Cell : c.frames.back()->take();
        if (!mem) fatal("HARNESS", "no room for handles");
        memset(mem, 0xDD, kHandle);
        if (flt == 1) g_stacks.fail = true;
        bool ok;
        struct Release {     // if the exception goes on
            Slot& sl; void* mem; bool heap; Locals* l; bool armed;
            ~Release() { if (armed) { sl.busy = false; if (heap) delete static_cast<Cell*>(mem); else l->give_back(mem); } }
        };
        Locals* here = c.frames.back();
        ok = attempt(c, R_NEW, 0, [&] {
            Release rel = { sl, mem, heap, here, true };
            hop([&] {
                if (p == PULL) build<pull, push>(mem, k, how, flt == 2);
                else build<push, pull>(mem, k, how, flt == 2);
            });
            rel.armed = false;
        });
        if (!ok) return;
        sl.busy = false; sl.ex = true; sl.p = p; sl.home = heap ? -1 : c.id; sl.use = 0; sl.got = false; sl.seen = Seen(); sl.k = k; sl.mem = mem; sl.heap = heap; sl.it = 0;
        if (!heap) here->sl.push_back(s);
        emit(OP_ret, c.id, R_NEW, s);
    }

    void body(Ctx& c) {
        for (;;) {
            Ev e = fetch(c);
            switch (e.op) {
            case OP_enter:
                emit(e);
                if (e.a == 1) {
                    switch (flip() % 3) {
                    case 0:
                        try { ++c.tries; TryMark tm(c); frame(c); }
                        catch (boost::context::detail::forced_unwind const&) { throw; }
                        catch (...) { caught(c); }
                        break;
                    case 1:        // only the types that may arrive: anything else passes
                        try { ++c.tries; TryMark tm(c); frame(c); }
                        catch (std::exception const&) { caught(c); }
                        catch (X0 const&) { caught(c); } catch (X3 const&) { caught(c); } catch (long) { caught(c); } catch (X6 const&) { caught(c); } catch (X7) { caught(c); }
                        catch (copy_error const&) { caught(c); } catch (fn_error const&) { caught(c); }
                        break;
                    default:       // passes on what it does not know, from a handler for everything
                        try { ++c.tries; TryMark tm(c); frame(c); }
                        catch (...) { if (classify().type < 0) throw; caught(c); }
                    }
                } else frame(c, e.a == 2);
                break;
            case OP_leave: case OP_return_: case OP_end:
                emit(e);
                return;
            case OP_throw_:
                emit(e);
                cookie_ = ++serial_; ctype_ = (int)((e.a + rot_) % NXTYPES);
                throw_user(ctype_, e.a, cookie_);
                break;
            case OP_reraise: {
                typename Ctx::Hand h = c.hands.back();
                emit(e);
                cookie_ = h.cookie; ctype_ = h.type; xcode_ = h.xcode;
                throw;
            }
            case OP_new_:
                do_new(c, e);
                break;
            case OP_res: case OP_inc: {
                Slot& sl = slot_[e.a];
                if (e.op == OP_res) sl.it = 0;
                sl.got = false;
                sl.seen.check();
                mark(sl);
                bool in = e.op == OP_inc;
                unsigned form = flip();
                sl.use++; emit(e); sl.use--;
                armed(0);
                if (!attempt(c, in ? R_INC : R_RES, e.a, [&] {
                        Use u(sl);
                        struct Inv { Slot& s; bool on; ~Inv() { if (on) s.it = 0; } } inv = { sl, true };
                        hop([&] {
                            if (in) advance(sl.pit, form);
                            else { pull& h = *sl.pl(); pull& r = h(); if (&r != &h) finding("CTRL", "call operator returns another handle"); }
                        });
                        inv.on = false;
                    })) break;
                if (in) {
                    bool end = sl.pit.at_end(*sl.pl(), (int)(form >> 1));
                    sl.it = end ? 2 : 1;
                    emit(OP_ret, c.id, R_INC, e.a, end ? 0 : 1);
                } else emit(OP_ret, c.id, R_RES, e.a);
                break;
            }
            case OP_push: case OP_pusht: case OP_oasg: case OP_apush: {
                Slot& sl = slot_[e.a];
                bool it = e.op == OP_oasg, bomb = e.op == OP_pusht, again = e.op == OP_apush;
                if (!it) sl.it = 0;
                cv_[sl.k] = e.x;
                if (!bomb && !again) nv_[sl.k] = e.x % g_opt.nval;
                int how = e.b == 9 ? (int)(flip() & 1) : e.b;
                unsigned form = flip();
                sl.use++; emit(e); sl.use--;
                if (!attempt(c, it ? R_OASG : R_PUSH, e.a, [&] {
                        Use u(sl);
                        struct Inv { Slot& s; bool on; ~Inv() { if (on) s.it = 0; } } inv = { sl, true };
                        hop([&] {
                            armed(it ? 2 : how == 0 && P::lvalue ? 1 : 0);
                            if (bomb) bomb_payload();
                            if (again) give_again(PushCall(*sl.ps()), sl.k, how, form, (P*)nullptr);
                            else if (it) give_it(AsgCall(sl.sit, form >> 1), enc(e.d, e.x), how, form, (P*)nullptr);
                            else give(PushCall(*sl.ps()), enc(e.d, e.x), how, form, (P*)nullptr);
                        });
                        inv.on = false;
                    })) break;
                if (it) {
                    bool end = sl.sit.at_end(*sl.ps(), (int)(form >> 1));
                    sl.it = end ? 2 : 1;
                    emit(OP_ret, c.id, R_OASG, e.a, end ? 0 : 1);
                } else emit(OP_ret, c.id, R_PUSH, e.a);
                break;
            }
            case OP_get: {
                Slot& sl = slot_[e.a];
                int code = P::has_value ? read(*sl.pl()) : enc(e.b, e.x);
                rereading_ = sl.got;
                sl.got = true; cv_[sl.k] = 0;
                if (!P::reread) sl.seen = Seen();
                emit(OP_get, c.id, e.a, kof(code), 0, vof(code));
                break;
            }
            case OP_deref: {
                Slot& sl = slot_[e.a];
                int code = deref(sl.pit, flip(), *sl.pl(), sl.seen);
                rereading_ = sl.got;
                emit(OP_deref, c.id, e.a, kof(code), 0, vof(code));
                break;
            }
            case OP_begin: {
                Slot& sl = slot_[e.a];
                unsigned form = flip();
                bool end;
                hop([&] {
                    if (sl.p == PULL) { sl.pit.begin(*sl.pl(), (int)form); end = sl.pit.at_end(*sl.pl(), (int)(form >> 1)); }
                    else { sl.sit.begin(*sl.ps(), (int)form); end = sl.sit.at_end(*sl.ps(), (int)(form >> 1)); }
                });
                sl.it = end ? 2 : 1;
                emit(OP_begin, c.id, e.a, sl.p, end ? 0 : 1, 0);
                break;
            }
            case OP_destroy: {
                Slot& sl = slot_[e.a];
                sl.ex = false; sl.busy = true; sl.it = 0;
                sl.seen.check();
                emit(e);
                destroy_handle(e.a);
                sl.busy = false;
                for (Locals* l : c.frames) l->sl.erase(std::remove(l->sl.begin(), l->sl.end(), e.a), l->sl.end());
                emit(OP_ret, c.id, R_DESTROY, e.a);
                break;
            }
            case OP_mnew: {
                Slot& from = slot_[e.a]; Slot& to = slot_[e.b];
                bool heap = e.d == HEAP;
                void* mem = heap ? (void*)new Cell : c.frames.back()->take();
                if (!mem) fatal("HARNESS", "no room for handles");
                memset(mem, 0xDD, kHandle);
                unsigned form = flip();
                hop([&] {
                    if (from.p == PULL) relocate(mem, *from.pl(), form);
                    else relocate(mem, *from.ps(), form);
                });
                to.ex = true; to.p = from.p; to.home = heap ? -1 : c.id; to.busy = false; to.use = 0; to.got = from.got; to.seen = from.seen; from.seen = Seen(); to.k = from.k; to.mem = mem; to.heap = heap; to.it = 0;
                from.it = 0;
                if (!heap) c.frames.back()->sl.push_back(e.b);
                emit(e);
                break;
            }
            case OP_masg: {
                Slot& from = slot_[e.a]; Slot& to = slot_[e.b];
                from.it = to.it = 0;
                if (e.a != e.b) from.busy = to.busy = true;
                emit(e);
                unsigned form = flip();
                hop([&] {
                    if (from.p == PULL) reassign(*to.pl(), *from.pl(), form);
                    else reassign(*to.ps(), *from.ps(), form);
                });
                if (e.a != e.b) {
                    from.busy = to.busy = false; to.got = from.got; to.seen = from.seen; if (&to != &from) from.seen = Seen(); to.k = from.k;
                    emit(OP_ret, c.id, R_MASG, e.a, e.b);
                } else emit(OP_ret, c.id, R_RES, e.a);
                break;
            }
            case OP_each: {
                Slot& sl = slot_[e.a];
                sl.it = 0;
                sl.seen.check();
                emit(e);
                bool left = false;
                if (!attempt(c, R_EACH, e.a, [&] {
                        Use u(sl);
                        loop(*sl.pl(), flip(), [&](int code) -> bool {
                            rereading_ = sl.got;
                            --sl.use;
                            emit(OP_item, c.id, e.a, kof(code), 0, vof(code));
                            Ev g = fetch(c, 2);
                            emit(g);
                            ++sl.use;
                            left = g.op == OP_brk;
                            if (!left) { sl.got = false; mark(sl); }
                            return left;
                        }, (P*)nullptr);
                    })) break;
                if (!left) emit(OP_ret, c.id, R_EACH, e.a);
                break;
            }
            case OP_weach: {
                c.oit = 0;
                c.seen.check();
                emit(e);
                bool left = false;
                if (!attempt(c, R_WEACH, 0, [&] {
                        loop(*c.opull, flip(), [&](int code) -> bool {
                            rereading_ = c.got;
                            emit(OP_item, c.id, 0, 0, 0, kof(code) == c.id ? vof(code) : 1000 + code);
                            Ev g = fetch(c, 2);
                            emit(g);
                            left = g.op == OP_brk;
                            if (!left) { c.got = false; mark(c); }
                            return left;
                        }, (P*)nullptr);
                    })) break;
                if (!left) emit(OP_ret, c.id, R_WEACH, 0);
                break;
            }
            // ---- the coroutine-function's own end
            case OP_yield: case OP_yieldt: case OP_wasg: case OP_ayield: {
                bool it = e.op == OP_wasg, bomb = e.op == OP_yieldt, again = e.op == OP_ayield;
                int how = e.a == 9 ? (int)(flip() & 1) : e.a;
                unsigned form = flip();
                cv_[c.id] = e.x;
                if (!bomb && !again) nv_[c.id] = e.x % g_opt.nval;
                if (!it) c.oit = 0;
                emit(e);
                if (!attempt(c, it ? R_WASG : R_YIELD, 0, [&] {
                        struct Inv { Ctx& c; bool on; ~Inv() { if (on) c.oit = 0; } } inv = { c, true };
                        armed(it ? 2 : how == 0 && P::lvalue ? 1 : 0);
                        if (bomb) bomb_payload();
                        if (again) give_again(PushCall(*c.opush), c.id, how, form, (P*)nullptr);
                        else if (it) give_it(AsgCall(c.sit, form >> 1), enc(c.id, e.x), how, form, (P*)nullptr);
                        else give(PushCall(*c.opush), enc(c.id, e.x), how, form, (P*)nullptr);
                        inv.on = false;
                    })) break;
                if (it) {
                    bool end = c.sit.at_end(*c.opush, (int)form);
                    c.oit = end ? 2 : 1;
                    emit(OP_ret, c.id, R_WASG, 0, end ? 0 : 1);
                } else emit(OP_ret, c.id, R_YIELD, 0);
                break;
            }
            case OP_next: case OP_winc: {
                bool in = e.op == OP_winc;
                unsigned form = flip();
                if (!in) c.oit = 0;
                c.got = false;
                c.seen.check();
                mark(c);
                emit(e);
                armed(0);
                if (!attempt(c, in ? R_WINC : R_NEXT, 0, [&] {
                        if (in) advance(c.pit, form);
                        else { pull& h = *c.opull; pull& r = h(); if (&r != &h) finding("CTRL", "call operator returns another handle"); }
                    })) break;
                if (in) {
                    bool end = c.pit.at_end(*c.opull, (int)form);
                    c.oit = end ? 2 : 1;
                    emit(OP_ret, c.id, R_WINC, 0, end ? 0 : 1);
                } else emit(OP_ret, c.id, R_NEXT, 0);
                break;
            }
            case OP_ownget: {
                int code = P::has_value ? read(*c.opull) : enc(c.id, e.x);
                rereading_ = c.got;
                c.got = true; cv_[c.id] = 0;
                if (!P::reread) c.seen = Seen();
                emit(OP_ownget, c.id, 0, 0, 0, kof(code) == c.id ? vof(code) : 1000 + code);
                break;
            }
            case OP_wderef: {
                int code = deref(c.pit, flip(), *c.opull, c.seen);
                rereading_ = c.got;
                emit(OP_wderef, c.id, 0, 0, 0, kof(code) == c.id ? vof(code) : 1000 + code);
                break;
            }
            case OP_wbegin: {
                unsigned form = flip();
                bool end;
                if (c.opull) { c.pit.begin(*c.opull, (int)form); end = c.pit.at_end(*c.opull, (int)(form >> 1)); }
                else { c.sit.begin(*c.opush, (int)form); end = c.sit.at_end(*c.opush, (int)(form >> 1)); }
                c.oit = end ? 2 : 1;
                emit(OP_wbegin, c.id, c.opull ? PUSH : PULL, 0, end ? 0 : 1, 0);
                break;
            }
            case OP_omove:
                if (c.opush) { c.oldpush = c.opush; c.opush = relocate(c.ownmem, *c.oldpush, flip()); }
                else { c.oldpull = c.opull; c.opull = relocate(c.ownmem, *c.oldpull, flip()); }
                c.moved = true; c.oit = 0;
                own_check(c.id);
                emit(e);
                break;
            default:
                fatal("HARNESS", "command %d", e.op);
            }
        }
    }
    void caught(Ctx& c) {
        Caught x = classify();
        if (x.type >= 0 && x.type < NXTYPES && (x.cookie != cookie_ || x.type != ctype_)) finding("EXC", "exception %d/%ld expected, but %d/%ld arrived", ctype_, cookie_, x.type, x.cookie);
        else if (x.type < 0) finding("EXC", "an exception of unknown kind arrived");
        emit(OP_catch_, c.id, c.depth, 0, 0, x.x);
    }
    struct TryMark { Ctx& c; explicit TryMark(Ctx& x) : c(x) { } ~TryMark() { --c.tries; } };

    void reset(int nslot, int nco, unsigned seed) {
        slot_.assign(nslot + 1, Slot());
        ctx_.assign(nco + 1, Ctx());
        nv_.assign(nco + 1, 0); at_.assign(nco + 1, nullptr); cv_.assign(nco + 1, 0);
        nco_ = 0; pos_ = 0; serial_ = 0; cookie_ = 0; ctype_ = -1; xcode_ = 0;
        flip_ = seed; rot_ = seed / 3; cpy_armed_ = false; rereading_ = false;
        g_stacks.reset(); g_stacks.count = seed; g_pay.reset(); g_fn.reset(); g_exc_live = 0;
        memset(g_fn_k, 0, sizeof g_fn_k);
        memset(fnform_, 0, sizeof fnform_);
        self() = this;
        for (int i = 0; i < 8192; ++i) g_referents[i].v = 0;
    }

    void main_ctx() {
        Ctx& c = ctx_[0];
        c.id = 0; c.kind = 0; c.opull = nullptr; c.opush = nullptr; c.oldpull = nullptr; c.oldpush = nullptr; c.depth = 0; c.tries = 0; c.dtors = 0;
        frame(c);
        // end of the program: objects on the heap go
        for (std::size_t s = 1; s < slot_.size(); ++s) {
            if (!slot_[s].ex || slot_[s].home != -1) continue;
            slot_[s].ex = false; slot_[s].busy = true;
            emit(OP_fdel, 0, (int)s);
            destroy_handle((int)s);
            slot_[s].busy = false;
            emit(OP_ret, 0, R_DESTROY, (int)s);
        }
        emit(OP_fin, 0);
        if (g_exc_live != 0) finding("EXCLEAK", "%ld exception objects are left", g_exc_live);
        if (g_pay.lib != 0 || (P::counted && !g_pay.live.empty())) finding("LIFE", "%ld transferred objects are left", (long)g_pay.live.size());
        if (!g_fn.live.empty()) finding("FN", "%ld function objects are left", (long)g_fn.live.size());
        if (g_stacks.nlive != 0) finding("STACK", "%d stacks are left", g_stacks.nlive);
    }

    bool playable(Suite const& s, std::vector<int> const& t) const {
        for (int id : t) {
            Ev const& e = s.tr[id];
            switch (e.op) {
            case OP_pusht: case OP_yieldt: if (!P::can_throw) return false; break;
            case OP_begin: case OP_deref: case OP_inc: case OP_wbegin: case OP_wderef: case OP_winc: case OP_each: case OP_weach: if (!P::has_value) return false; break;
            case OP_oasg: case OP_wasg: if (!P::has_value || !P::lvalue) return false; break;
            case OP_apush: case OP_ayield: if (!P::has_value || P::is_ref) return false; break;
            default: break;
            }
        }
        return true;
    }

public:
    // returns the number of tests played
    long play(Suite const& s, long from, long to, long stride, long& events) {
        suite_ = &s; record_ = false;
        again_ = false;
        for (Ev const& e : s.tr) if (e.op == OP_apush || e.op == OP_ayield) again_ = true;
        long n = 0;
        for (long i = from; i < to && i < (long)s.tests.size(); i += stride) {
            if (!playable(s, s.tests[i])) continue;
            test_ = i; g_where.test = i; g_where.pos = 0;
            progress(i);
            reset(s.nslot, s.nco, g_opt.seed * 7 + (unsigned)i * 5);
            main_ctx();
            if (more()) finding("CTRL", "behaviour ended early");
            ++n; events += (long)pos_;
            if (g_findings > 40) break;
        }
        return n;
    }
    // records random behaviours; returns the number of events
    long record(long behaviours, long steps) {
        suite_ = nullptr; record_ = true; test_ = -1; again_ = true;
        long total = 0;
        for (long i = 0; i < behaviours; ++i) {
            g_where.test = i; g_where.pos = 0;
            progress(i);
            rng_.seed(g_opt.seed * 1000003u + (unsigned)i);
            reset(g_opt.nslot, g_opt.nco, g_opt.seed + (unsigned)i);
            budget_ = steps / 2 + (long)rnd((unsigned)steps);
            phase_ = 0; bottom_ = 0;
            if (g_opt.nco > 256) budget_ = steps / 2 + (long)rnd((unsigned)steps / 4);
            divekind_ = g_opt.nco > 256 ? 1 + (int)(g_opt.seed % 2) : (int)rnd(3);      // mostly pull-coroutines, mostly push-coroutines, both
            dive_ = g_opt.nco > 256 ? 258 + (int)rnd((unsigned)g_opt.nco - 260) : g_opt.nco > 60 ? g_opt.nco / 2 + (int)rnd((unsigned)g_opt.nco / 2 - 5) : 0;     // so deep is the chain to become first
            char head[256];
            int n = snprintf(head, sizeof head, "{\"e\":\"init\",\"v\":[0,0,0,0,0],\"o\":1,\"m\":[],\"u\":0,\"l\":0,\"h\":[");
            g_log.append(head, n);
            for (std::size_t s = 1; s < slot_.size(); ++s) g_log += s > 1 ? ",3" : "3";
            g_log += "]}\n";
            main_ctx();
            total += (long)pos_ + 1;
        }
        return total;
    }
};

} // namespace hv

#endif
