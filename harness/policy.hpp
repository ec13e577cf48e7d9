// Element types ("policies") with which the library is instantiated.
#ifndef VERIF_POLICY_HPP
#define VERIF_POLICY_HPP

#include "ledger.hpp"
#include <algorithm>
#include <climits>
#include <cstring>
#include <functional>
#include <limits>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <boost/coroutine2/all.hpp>

namespace hv {

template< class T >
inline bool aligned_ok(T const* p) { return (reinterpret_cast<std::uintptr_t>(p) % alignof(T)) == 0; }

enum Copyability { COPY_AND_MOVE, MOVE_ONLY, COPY_ONLY };

// class type with observable lifetime
template< Copyability C, std::size_t Align, std::size_t Pad >
class alignas(Align) Obj;

// common implementation
struct ObjCore {
    std::uint32_t magic;
    int v;
    void* self;
    bool mine;          // created by the harness, not by the library
    static std::uint32_t const kAlive = 0xC0FFEE42u, kDead = 0xDEADDEADu;
    void init(void* me, int code, bool mn) {
        magic = kAlive; v = code; self = me; mine = mn;
        g_pay.born(me, mn);
    }
    void fini(void* me) {
        if (magic != kAlive || self != me) finding("LEDGER", "destructor of a transferred object on something that is none (%p)", me);
        g_pay.died(me, mine);
        magic = kDead; v = -77; self = nullptr;
    }
    void ok(void const* me) const {
        if (magic != kAlive || self != me) finding("LEDGER", "transferred object at %p read, but it is not alive", me);
        else g_pay.check(me);
    }
};

#define HV_OBJ_BODY                                                                    \
    ObjCore core;                                                                      \
    unsigned char pad[Pad];                                                            \
    void fill() { for (std::size_t i = 0; i < Pad; ++i) pad[i] = (unsigned char)(core.v * 7 + i); }   \
    void align_check() { if (!aligned_ok(this)) finding("ALIGN", "object with alignment %zu placed at %p", Align, (void*)std::addressof(*this)); }

template< std::size_t Align, std::size_t Pad >
class alignas(Align) Obj< COPY_AND_MOVE, Align, Pad > {
    HV_OBJ_BODY
public:
    static bool const counts_moves = true;
    explicit Obj(int code) { align_check(); core.init(this, code, true); fill(); }
    Obj(Obj const& o) {
        o.core.ok(&o); align_check();
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.copies; core.init(this, o.core.v, false); fill();
    }
    Obj(Obj&& o) {
        o.core.ok(&o); align_check();
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.moves; core.init(this, o.core.v, false); fill(); o.core.v = -1; o.fill();
    }
    Obj& operator=(Obj const&) = delete;
    ~Obj() { core.fini(this); }
    int code() const {
        core.ok(this);
        for (std::size_t i = 0; i < Pad; ++i) if (pad[i] != (unsigned char)(core.v * 7 + i)) { finding("VAL", "content of object is damaged"); break; }
        return core.v;
    }
};

template< std::size_t Align, std::size_t Pad >
class alignas(Align) Obj< MOVE_ONLY, Align, Pad > {
    HV_OBJ_BODY
public:
    explicit Obj(int code) { align_check(); core.init(this, code, true); fill(); }
    Obj(Obj const&) = delete;
    Obj(Obj&& o) {
        o.core.ok(&o); align_check();
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.moves; core.init(this, o.core.v, false); fill(); o.core.v = -1; o.fill();
    }
    Obj& operator=(Obj const&) = delete;
    ~Obj() { core.fini(this); }
    int code() const { core.ok(this); return core.v; }
};

template< std::size_t Align, std::size_t Pad >
class alignas(Align) Obj< COPY_ONLY, Align, Pad > {
    HV_OBJ_BODY
public:
    explicit Obj(int code) { align_check(); core.init(this, code, true); fill(); }
    Obj(Obj const& o) {
        o.core.ok(&o); align_check();
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.copies; core.init(this, o.core.v, false); fill();
    }
    Obj& operator=(Obj const&) = delete;
    ~Obj() { core.fini(this); }
    int code() const { core.ok(this); return core.v; }
};

// a class that is hostile to generic code: operator&, operator new, operator,, greedy constructor, bool conversion
class Nasty {
    ObjCore core;
    int extra;
public:
    struct tag { };
    Nasty(tag, int code) : extra(code ^ 0x55) { core.init(this, code, true); }
    template< class U, class = typename std::enable_if< ! std::is_convertible< U, Nasty const& >::value >::type >
    Nasty(U&&) = delete;
    Nasty(std::initializer_list< Nasty >) = delete;
    Nasty(Nasty const& o) : extra(o.extra) {
        o.core.ok(std::addressof(o));
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.copies; core.init(this, o.core.v, false);
    }
    Nasty(Nasty&& o) : extra(o.extra) {
        o.core.ok(std::addressof(o));
        if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); }
        ++g_pay.moves; core.init(this, o.core.v, false); o.core.v = -1;
    }
    Nasty& operator=(Nasty const&) = delete;
    ~Nasty() { core.fini(this); }
    void operator&() const = delete;
    static void* operator new(std::size_t) = delete;
    static void* operator new(std::size_t, void*) = delete;
    static void operator delete(void*) = delete;
    template< class U > void operator,(U&&) const = delete;
    explicit operator bool() const { return false; }
    int code() const { core.ok(this); if (extra != (core.v ^ 0x55) && core.v != -1) finding("VAL", "content of object is damaged"); return core.v; }
};

// ---------------------------------------------------------------- policies

// has_value: data is transferred     can_throw: copies can throw      counted: lifetime is observable
// lvalue: an lvalue can be pushed    no_copy: rvalue pushes and reads must not copy
// reread: reading again must yield the same value (see DESIGN.md, finding D7)
template< class V, bool CanThrow, bool LValue, bool NoCopy >
struct ByObj {
    typedef V type;
    static bool const has_value = true, can_throw = CanThrow, counted = true, lvalue = LValue, no_copy = NoCopy, reread = false, is_ref = false, lossy = false;
    static int decode(V const& v) { return v.code(); }
    struct Source {
        V v;
        int c;
        explicit Source(int code) : v(code), c(code) { }
        V& get() { return v; }
        bool intact() const { return v.code() == c; }
        bool alive() const { v.code(); return true; }
    };
};
struct NastyPolicy {
    typedef Nasty type;
    static bool const has_value = true, can_throw = true, counted = true, lvalue = true, no_copy = true, reread = false, is_ref = false, lossy = false;
    static int decode(Nasty const& v) { return v.code(); }
    struct Source {
        Nasty v; int c;
        explicit Source(int code) : v(Nasty::tag(), code), c(code) { }
        Nasty& get() { return v; }
        bool intact() const { return v.code() == c; }
        bool alive() const { v.code(); return true; }
    };
};

// plain values; Conv: to / from int
template< class V, class Conv, bool LValue, bool Reread >
struct ByValue {
    typedef V type;
    template< class C = Conv > static auto similar(int code) -> decltype(C::similar(code)) { return C::similar(code); }
    static bool const has_value = true, can_throw = false, counted = false, lvalue = LValue, no_copy = false, reread = Reread, is_ref = false, lossy = false;
    static int decode(V const& v) { return Conv::from(v); }
    struct Source {
        V v; int c;
        explicit Source(int code) : v(Conv::to(code)), c(code) { }
        V& get() { return v; }
        bool intact() const { return Conv::from(v) == c; }
        bool alive() const { return true; }
    };
};
struct CInt { static short similar(int c) { return (short)c; } static int to(int c) { return c; } static int from(int c) { return c; } };
struct CDouble { static float similar(int c) { return c + 0.25f; } static double to(int c) { return c + 0.25; } static int from(double d) { return d - (int)d == 0.25 ? (int)d : -2; } };
struct CString {
    static char const* similar(int c) { static std::string s; s = to(c); return s.c_str(); }
    static std::string to(int c) { return (c & 1) ? std::string("v") + std::to_string(c) : std::string("a string that is too long for the small buffer ") + std::to_string(c); }
    static int from(std::string const& s) { std::size_t p = s.find_last_of("v "); if (p == std::string::npos) return -3; int c = atoi(s.c_str() + p + 1); return to(c) == s ? c : -2; }
};
struct CUnique {
    static std::unique_ptr<int> to(int c) { return std::unique_ptr<int>(new int(c)); }
    static int from(std::unique_ptr<int> const& p) { return p ? *p : -3; }
};
struct CShared {
    static std::shared_ptr<int> to(int c) { return std::make_shared<int>(c); }
    static int from(std::shared_ptr<int> const& p) { return p ? *p : -3; }
};
typedef std::tuple<int, std::string, double> Tup;
struct CTup {
    static Tup to(int c) { return Tup(c, CString::to(c), c * 2.0); }
    static int from(Tup const& t) { if (std::get<1>(t).empty()) return -3; return std::get<0>(t) == CString::from(std::get<1>(t)) && std::get<2>(t) == 2.0 * std::get<0>(t) ? std::get<0>(t) : -2; }
};
extern int g_objects[8192];
struct CPtr { static int* to(int c) { return &g_objects[c]; } static int from(int* p) { return p >= g_objects && p < g_objects + 8192 ? (int)(p - g_objects) : -2; } };
struct CCharPtr { static char const* to(int c) { return (char const*)&g_objects[c]; } static int from(char const* p) { return CPtr::from((int*)p); } };
struct Wide { long a[64]; };
struct CWide {
    static Wide to(int c) { Wide w; for (int i = 0; i < 64; ++i) w.a[i] = c + i; return w; }
    static int from(Wide const& w) { for (int i = 0; i < 64; ++i) if (w.a[i] != w.a[0] + i) return -2; return (int)w.a[0]; }
};
struct Odd { unsigned char a[997]; };
struct COdd {
    static Odd to(int c) { Odd o; for (int i = 0; i < 997; ++i) o.a[i] = (unsigned char)(c >> (i & 1 ? 8 : 0)) ^ (unsigned char)(i & ~1); return o; }
    static int from(Odd const& o) {
        int c = o.a[0] | o.a[1] << 8;
        Odd e = to(c);
        return std::equal(o.a, o.a + 997, e.a) ? c : -2;
    }
};
struct Empty { };
enum Enum : short { e0 };
struct CEnum { static Enum to(int c) { return (Enum)c; } static int from(Enum e) { return (int)e; } };
// types with few values: compared with the expected one
extern int g_expect;
template< class V, class Conv, bool LValue = true, bool Reread = true >
struct Lossy {
    typedef V type;
    static bool const has_value = true, can_throw = false, counted = false, lvalue = LValue, no_copy = false, reread = Reread, is_ref = false, lossy = true;
    static int decode(V const& v) { return Conv::is(v, g_expect) ? g_expect : -2; }
    struct Source {
        V v; int c;
        explicit Source(int code) : v(Conv::to(code)), c(code) { }
        V& get() { return v; }
        bool intact() const { return Conv::is(v, c); }
        bool alive() const { return true; }
    };
};
struct CBool { static bool to(int c) { return (c & 1) != 0; } static bool is(bool b, int c) { return b == to(c); } };
struct CEmpty { static Empty to(int) { return Empty(); } static bool is(Empty, int) { return true; } };
// a reference to a function
template< int N > struct FunTable { static int f() { return N; } static void fill(int (**t)()) { t[N] = &f; FunTable< N - 1 >::fill(t); } };
template<> struct FunTable< -1 > { static void fill(int (**)()) { } };
struct GFun {
    typedef int type();
    static type& object(int c) { static int (*all[128])(); if (!all[0]) FunTable< 127 >::fill(all); return *all[c]; }
    static int number(type& f) { return f(); }
};
struct CLDouble { static int similar(int c) { return c; } static long double to(int c) { return c; } static int from(long double const& d) { return aligned_ok(&d) ? (int)d : -2; } };
struct CFnPtr { static int (*to(int c))() { return &GFun::object(c); } static int from(int (*f)()) { return f(); } };
struct CVector { static std::vector<int> to(int c) { return std::vector<int>(c + 1, c); } static int from(std::vector<int> const& v) { return v.empty() || (int)v.size() != v.back() + 1 ? -2 : v.back(); } };
struct CFunction { static std::function<int()> to(int c) { return [c] { return c; }; } static int from(std::function<int()> const& f) { return f ? f() : -2; } };
typedef std::pair<int const, std::string const> ConstPair;       // cannot be assigned
struct CConstPair { static ConstPair to(int c) { return ConstPair(c, CString::to(c)); } static int from(ConstPair const& p) { return p.second == CString::to(p.first) ? p.first : -2; } };
struct CError {
    static std::exception_ptr to(int c) { return std::make_exception_ptr(c); }
    static int from(std::exception_ptr const& e) { if (!e) return -2; try { std::rethrow_exception(e); } catch (int c) { return c; } catch (...) { } return -2; }
};
// values that generic code might take for none: zero, null, empty, not equal to itself
inline int nth(int code, int n) { return ((code >> 4) * 3 + (code & 15)) % n; }
struct SInt { static int to(int c) { static int const v[5] = { 0, -1, INT_MIN, INT_MAX, 1 }; return v[nth(c, 5)]; } static bool is(int i, int c) { return i == to(c); } };
struct SDouble {
    static double to(int c) { static double const v[5] = { 0.0, -0.0, std::numeric_limits< double >::quiet_NaN(), std::numeric_limits< double >::infinity(), std::numeric_limits< double >::denorm_min() }; return v[nth(c, 5)]; }
    static bool is(double d, int c) { double e = to(c); return 0 == std::memcmp(&d, &e, sizeof e); }
};
struct SPtr { static int* to(int c) { int n = nth(c, 3); return n == 0 ? nullptr : n == 1 ? &g_objects[c] : reinterpret_cast< int* >(~std::uintptr_t(0)); } static bool is(int* p, int c) { return p == to(c); } };
struct SUnique { static std::unique_ptr< int > to(int c) { return nth(c, 2) ? CUnique::to(c) : nullptr; } static bool is(std::unique_ptr< int > const& p, int c) { return nth(c, 2) ? p && *p == c : !p; } };
struct SString {
    static std::string to(int c) { return nth(c, 3) == 0 ? std::string() : nth(c, 3) == 1 ? std::string("\0a\0", 3) : std::string(40 + c, '\0'); }
    static bool is(std::string const& s, int c) { return s == to(c); }
};
struct SVector { static std::vector< std::string > to(int c) { return std::vector< std::string >(nth(c, 3)); } static bool is(std::vector< std::string > const& v, int c) { return v == to(c); } };
struct SFunction { static std::function< int() > to(int c) { return nth(c, 2) ? CFunction::to(c) : nullptr; } static bool is(std::function< int() > const& f, int c) { return nth(c, 2) ? f && f() == c : !f; } };
struct SError { static std::exception_ptr to(int c) { return nth(c, 2) ? CError::to(c) : nullptr; } static bool is(std::exception_ptr const& e, int c) { return nth(c, 2) ? CError::from(e) == c : !e; } };
struct Methods { virtual int a() { return 1; } int b() { return 2; } int x, y; virtual ~Methods() { } };
typedef int (Methods::*Method)();
struct SMethod { static Method to(int c) { int n = nth(c, 3); return n == 0 ? nullptr : n == 1 ? &Methods::a : &Methods::b; } static bool is(Method m, int c) { return m == to(c); } };
struct SMember { static int Methods::* to(int c) { int n = nth(c, 3); return n == 0 ? nullptr : n == 1 ? &Methods::x : &Methods::y; } static bool is(int Methods::* m, int c) { return m == to(c); } };
// plain data with an unusual alignment
struct alignas(128) Vec { int a[32]; };
struct CVec {
    static Vec to(int c) { Vec v; for (int i = 0; i < 32; ++i) v.a[i] = c * 3 + i; return v; }
    static int from(Vec const& v) { if (!aligned_ok(&v)) return -4; for (int i = 1; i < 32; ++i) if (v.a[i] != v.a[0] + i) return -2; return v.a[0] / 3; }
};
union Uni { int i; double d; char c[24]; };
struct CUni {
    static Uni to(int c) { Uni u; std::memset(&u, c, sizeof u); u.c[20] = (char)~c; return u; }
    static int from(Uni const& u) { for (int i = 0; i < 24; ++i) if (u.c[i] != (i == 20 ? (char)~u.c[0] : u.c[0])) return -2; return u.c[0]; }
};
// polymorphic
struct Poly { int c; explicit Poly(int c_) : c(c_) { } virtual int number() const { return c; } virtual ~Poly() { } };
struct MorePoly : Poly { long more[4]; explicit MorePoly(int c_) : Poly(c_) { more[0] = more[3] = -1; } int number() const override { return -3; } };
struct CPoly { static MorePoly similar(int c) { return MorePoly(c); } static Poly to(int c) { return Poly(c); } static int from(Poly const& p) { return p.number(); } };
struct CChar { static signed char to(int c) { return (signed char)c; } static int from(signed char c) { return c; } };
struct Three { char a[3]; };
struct CThree {
    static Three to(int c) { Three t = { { (char)c, (char)(c ^ 0x33), (char)-c } }; return t; }
    static int from(Three const& t) { int c = t.a[0]; return t.a[1] == (char)(c ^ 0x33) && t.a[2] == (char)-c ? c : -2; }
};
// one byte with observable lifetime
class OneByte {
    unsigned char v;        // bit 7: created by the harness
public:
    explicit OneByte(int c) : v((unsigned char)(c | 0x80)) { g_pay.born(this, true); }
    OneByte(OneByte const& o) { g_pay.check(&o); if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); } v = o.v & 0x7f; ++g_pay.copies; g_pay.born(this, false); }
    OneByte(OneByte&& o) { g_pay.check(&o); if (g_pay.throw_next) { g_pay.throw_next = false; throw copy_error(); } v = o.v & 0x7f; ++g_pay.moves; g_pay.born(this, false); o.v |= 0x7f; }
    OneByte& operator=(OneByte const&) = delete;
    ~OneByte() { g_pay.died(this, (v & 0x80) != 0); }
    int code() const { g_pay.check(this); int c = v & 0x7f; return c == 0x7f ? -1 : c; }
};
// moves and copies are noexcept
class Noex {
    ObjCore core;
public:
    explicit Noex(int code) noexcept { core.init(this, code, true); }
    Noex(Noex const& o) noexcept { o.core.ok(&o); ++g_pay.copies; core.init(this, o.core.v, false); }
    Noex(Noex&& o) noexcept { o.core.ok(&o); ++g_pay.moves; core.init(this, o.core.v, false); o.core.v = -1; }
    // assignment works on living objects only
    Noex& operator=(Noex const& o) noexcept { o.core.ok(&o); core.ok(this); ++g_pay.copies; core.v = o.core.v; return *this; }
    Noex& operator=(Noex&& o) noexcept { o.core.ok(&o); core.ok(this); ++g_pay.moves; core.v = o.core.v; if (&o != this) o.core.v = -1; return *this; }
    ~Noex() { core.fini(this); }
    int code() const { core.ok(this); return core.v; }
};
// a value that can be made from anything (like std::any), and default-constructed
struct Greedy {
    int c; bool odd;
    Greedy() : c(-5), odd(false) { }
    explicit Greedy(int code) : c(code), odd(false) { }
    template< class U, class = typename std::enable_if< ! std::is_same< typename std::decay< U >::type, Greedy >::value && ! std::is_same< typename std::decay< U >::type, int >::value >::type > Greedy(U&&) : c(-6), odd(true) { }
    Greedy(std::initializer_list< Greedy >) : c(-7), odd(true) { }
    Greedy(Greedy const& o) : c(o.c), odd(o.odd) { }
    Greedy(Greedy&& o) noexcept : c(o.c), odd(o.odd) { o.c = -1; }
};
struct CGreedy { static Greedy to(int c) { return Greedy(c); } static int from(Greedy const& g) { return g.odd ? -2 : g.c; } };
// a coroutine as value
struct CHandle {
    typedef boost::coroutines2::coroutine< int > co;
    static co::pull_type to(int c) { return co::pull_type([c](co::push_type& y) { for (;;) y(c); }); }
    static int from(co::pull_type const& h) {
        if (!h) return -3;
        co::pull_type& m = const_cast< co::pull_type& >(h);
        int c = m.get(); m();
        return m && m.get() == c ? c : -2;
    }
};

// references: what counts is the identity of the object
struct Referent {
    int v; void* self;
    Referent() : v(0), self(this) { }
    Referent(Referent const&) = delete;
    Referent& operator=(Referent const&) = delete;
    ~Referent() { if (self != this) finding("LEDGER", "referenced object destroyed twice"); self = nullptr; v = -9; }
};
extern Referent g_referents[8192];
template< class R >
struct ByRef {
    typedef R& type;
    static bool const has_value = true, can_throw = false, counted = false, lvalue = true, no_copy = false, reread = true, is_ref = true, lossy = false;
    static int decode(R& r) {
        if (std::addressof(r) < g_referents || std::addressof(r) >= g_referents + 8192) return -2;
        int i = (int)(std::addressof(r) - g_referents);
        if (r.self != std::addressof(r)) return -3;
        touch(r);
        return i;
    }
    // modifications are visible on the other side
    static void touch(Referent& r) { ++r.v; }
    static void touch(Referent const& ) { }
    struct Source {
        int c; int before;
        explicit Source(int code) : c(code), before(g_referents[code].v) { }
        R& get() { return g_referents[c]; }
        bool intact() const { return g_referents[c].self == &g_referents[c] && g_referents[c].v >= before; }
        bool alive() const { return true; }
    };
};
// other kinds of references; G: to the object with a number
template< class R, class G >
struct ByRef2 {
    typedef R& type;
    static bool const has_value = true, can_throw = false, counted = false, lvalue = true, no_copy = false, reread = true, is_ref = true, lossy = false;
    static int decode(R& r) { return G::number(r); }
    struct Source {
        int c;
        explicit Source(int code) : c(code) { }
        R& get() { return G::object(c); }
        bool intact() const { return G::number(G::object(c)) == c; }
        bool alive() const { return true; }
    };
};
// part of an object, abstract, not at its beginning, operator& unusable
struct Abstract { virtual int number() const = 0; void operator&() const = delete; Abstract() { } Abstract(Abstract const&) = delete; protected: ~Abstract() { } };
struct Before { virtual ~Before() { } long x; };
struct Concrete : Before, Abstract { int n; Concrete() : n(-1) { } int number() const override { return n; } };
struct GAbstract {
    static Abstract& object(int c) { static Concrete all[512]; all[c].n = c; return all[c]; }
    static int number(Abstract const& a) { Concrete const* c = dynamic_cast< Concrete const* >(std::addressof(a)); return c && std::addressof(a) == std::addressof(object(c->n)) ? c->n : -2; }
};
struct GPtr {        // a reference to a pointer
    static int*& object(int c) { static int* all[512]; all[c] = reinterpret_cast<int*>(all + c); return all[c]; }
    static int number(int*& p) { int** q = &p; int c = (int)(q - &object(0)); return c >= 0 && c < 512 && p == (int*)q ? c : -2; }
};
struct GArray {      // a reference to an array
    typedef int type[3];
    static type& object(int c) { static type all[512]; all[c][0] = c; all[c][2] = -c; return all[c]; }
    static int number(type& a) { int c = a[0]; return c >= 0 && c < 512 && &a == &object(c) && a[2] == -c ? c : -2; }
};
struct GInt {        // a reference to a value
    static int& object(int c) { static int all[512]; return all[c]; }
    static int number(int& a) { return &a >= &object(0) && &a < &object(0) + 512 ? (int)(&a - &object(0)) : -2; }
};
struct GCInt {       // a reference to a constant value: modifications of the object are seen
    static int& var(int c) { static int all[512]; return all[c]; }
    static int const& object(int c) { return var(c); }
    static int number(int const& a) {
        int c = (int)(&a - &object(0)), v = a;
        if (c < 0 || c >= 512) return -2;
        ++var(c);
        return a == v + 1 ? c : -3;
    }
};
struct GVolatile {
    static int volatile& object(int c) { static int volatile all[512]; return all[c]; }
    static int number(int volatile& a) { return &a >= &object(0) && &a < &object(0) + 512 ? (int)(&a - &object(0)) : -2; }
};
struct Incomplete;      // a type that is never defined
struct GIncomplete {
    static Incomplete& object(int c) { static int all[512]; return reinterpret_cast< Incomplete& >(all[c]); }
    static int number(Incomplete& a) { int d = (int)(reinterpret_cast< int* >(&a) - reinterpret_cast< int* >(&object(0))); return d >= 0 && d < 512 ? d : -2; }
};
struct GHandle {
    typedef boost::coroutines2::coroutine< int >::pull_type type;
    static type& object(int c) {
        static type** all = nullptr;
        if (!all) { all = new type*[512]; for (int i = 0; i < 512; ++i) all[i] = nullptr; }
        if (!all[c]) all[c] = new type([](boost::coroutines2::coroutine< int >::push_type&) { });
        return *all[c];
    }
    static int number(type& a) { for (int c = 0; c < 128; ++c) if (&a == &object(c)) return !a ? c : -3; return -2; }
};
struct Void {
    typedef void type;
    static bool const has_value = false, can_throw = false, counted = false, lvalue = true, no_copy = false, reread = false, is_ref = false, lossy = false;
};

typedef ByObj< Obj< COPY_AND_MOVE, 8, 24 >, true, true, true >     Tracked;
typedef ByObj< Obj< MOVE_ONLY, 8, 24 >, true, false, true >        MoveOnly;
typedef ByObj< Obj< COPY_ONLY, 8, 24 >, true, true, false >        CopyOnly;
typedef ByObj< Obj< COPY_AND_MOVE, 32, 8 >, true, true, true >     Over32;
typedef ByObj< Obj< COPY_AND_MOVE, 64, 1 >, true, true, true >     Over64;
typedef ByObj< Obj< COPY_AND_MOVE, 128, 1 >, true, true, true >    Over128;
typedef ByObj< Obj< COPY_AND_MOVE, 512, 1 >, true, true, true >    Over512;
typedef ByObj< Obj< COPY_AND_MOVE, 8, 6000 >, true, true, true >   Big;
typedef ByObj< Obj< COPY_AND_MOVE, 8, 160 >, true, true, true >    Large;
typedef ByValue< int, CInt, true, true >                           Int;
typedef ByValue< double, CDouble, true, true >                     Double;
typedef ByValue< std::string, CString, true, false >               String;
typedef ByValue< std::unique_ptr<int>, CUnique, false, false >     Unique;
typedef ByValue< std::shared_ptr<int>, CShared, true, false >      Shared;
typedef ByValue< Tup, CTup, true, false >                          Tuple;
typedef ByValue< int*, CPtr, true, true >                          Ptr;
typedef ByValue< char const*, CCharPtr, true, true >               CharPtr;
typedef ByValue< Wide, CWide, true, true >                         WideV;
typedef ByValue< Enum, CEnum, true, true >                         EnumV;
typedef ByValue< Odd, COdd, true, true >                           OddV;
typedef ByObj< OneByte, true, true, true >                         Tiny;
typedef ByObj< Noex, false, true, true >                           Noexc;
typedef ByValue< signed char, CChar, true, true >                  Char;
typedef ByValue< Three, CThree, true, true >                       Three3;
typedef ByValue< Greedy, CGreedy, true, false >                    GreedyV;
typedef ByValue< CHandle::co::pull_type, CHandle, false, false >   Handle;
typedef ByValue< long double, CLDouble, true, true >               LDouble;
typedef ByValue< int (*)(), CFnPtr, true, true >                   FnPtr;
typedef ByValue< std::vector<int>, CVector, true, false >          Vector;
typedef ByValue< std::function<int()>, CFunction, true, false >    Function;
typedef ByValue< ConstPair, CConstPair, true, false >              ConstPairV;
typedef ByValue< std::exception_ptr, CError, true, false >         ErrorV;
typedef Lossy< bool, CBool >                                       Bool;
typedef Lossy< int, SInt >                                         IntS;
typedef Lossy< double, SDouble >                                   DoubleS;
typedef Lossy< int*, SPtr >                                        PtrS;
typedef Lossy< std::unique_ptr< int >, SUnique, false, false >     UniqueS;
typedef Lossy< std::string, SString, true, false >                 StringS;
typedef Lossy< std::vector< std::string >, SVector, true, false >  VectorS;
typedef Lossy< std::function< int() >, SFunction, true, false >    FunctionS;
typedef Lossy< std::exception_ptr, SError, true, false >           ErrorS;
typedef Lossy< Method, SMethod >                                   MethodS;
typedef Lossy< int Methods::*, SMember >                           MemberS;
typedef ByValue< Vec, CVec, true, true >                           VecV;
typedef ByValue< Uni, CUni, true, true >                           UniV;
typedef ByValue< Poly, CPoly, true, true >                         PolyV;
typedef Lossy< Empty, CEmpty >                                     EmptyV;
typedef ByRef2< Abstract, GAbstract >                              RefAbs;
typedef ByRef2< int*, GPtr >                                       RefPtr;
typedef ByRef2< GArray::type, GArray >                             RefArr;
typedef ByRef2< int, GInt >                                        RefInt;
typedef ByRef2< int const, GCInt >                                  RefCInt;
typedef ByRef2< GFun::type, GFun >                                 RefFun;
typedef ByRef2< int volatile, GVolatile >                          RefVol;
typedef ByRef2< Incomplete, GIncomplete >                          RefInc;
typedef ByRef2< GHandle::type, GHandle >                           RefCo;
typedef ByRef< Referent >                                          Ref;
typedef ByRef< Referent const >                                    CRef;

} // namespace hv

#endif
