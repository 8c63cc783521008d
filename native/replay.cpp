// Replays histories of public operations on the real library and compares every
// observation with the specification (the same one the contracts state).
//
//   replay KIND VARIANT SEED0 NSEEDS NCO [FORCED-OPS]
//
// KIND pull|push: the handle that owns the coroutine.  FORCED-OPS: e.g.
// "M:call;C:mv;C:it!" ("!": the first copy or move made by it throws); the rest
// of a history is drawn from SEED.  A deviation prints "FAIL <property> ..." and
// the history, and exits with 3; a crash 4; a hang 5.
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cfenv>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <typeinfo>
#include <unordered_map>
#include <utility>
#include <vector>
#include <unistd.h>
#include <pthread.h>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#include <boost/coroutine2/all.hpp>

using boost::coroutines2::coroutine;
namespace ctx = boost::context;

// ------------------------------------------------------------------ context
struct Obj { long id; bool moved; const char * cls; };
struct World {
    std::unordered_map< void const*, Obj > objs;      // live instrumented objects
    std::string trace;
    long nextid = 1;
    int inject = 0;            // the inject-th throwing user operation throws
    bool injected = false;
    const char * injcls = "";
    long copies = 0, moves = 0;
    unsigned long rng = 1;
    bool reporting = false;
    int ops = 0;
};
static thread_local World * W;
static unsigned long SEED = 0;
static volatile bool quiet = false;

static void out(const char * kind, const char * prop, const char * msg) {
    static char buf[16000];
    int n = std::snprintf(buf, sizeof buf, "%s %s %s\nseed %lu\nhistory %s\n", kind, prop, msg, W && W->rng ? SEED : SEED,
                          W ? W->trace.c_str() : "");
    if (n > (int)sizeof buf - 1) n = sizeof buf - 1;
    ssize_t r = ::write(1, buf, n);
    (void)r;
}
[[noreturn]] static void fail(const char * prop, const char * fmt, ...) {
    static char m[1000];
    va_list ap;
    va_start(ap, fmt);
    std::vsnprintf(m, sizeof m, fmt, ap);
    va_end(ap);
    out("FAIL", prop, m);
    ::_exit(3);
}
static void on_signal(int s) {
    out(s == SIGALRM ? "HANG" : "CRASH", "-", s == SIGALRM ? "no progress" : "fatal signal");
    ::_exit(s == SIGALRM ? 5 : 4);
}
static void on_terminate() {
    out("CRASH", "C04", "std::terminate");
    ::_exit(4);
}
static thread_local int LONG = 0;   // a history of that many switches
static void tr(const std::string & s) {
    if (LONG && W->trace.size() > 6000) W->trace = "(" + std::to_string(W->ops) + " operations) ... ";
    W->trace += s; W->trace += "; ";
}
static unsigned long rnd(unsigned long n) {
    unsigned long & x = W->rng;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return (x >> 11) % n;
}
#define CHECK(prop, c, ...) do { if (!(c)) fail(prop, __VA_ARGS__); } while (0)

struct Inj { int n; };
static void maybe_throw(const char * cls) {
    if (W->inject > 0 && --W->inject == 0) {
        W->injected = true;
        W->injcls = cls;
        throw Inj{ 1 };
    }
}
static void reg(void const * p, Obj o, const char * prop) {
    auto i = W->objs.find(p);
    CHECK(prop, i == W->objs.end(), "%s object constructed over a live %s", o.cls, i->second.cls);
    W->objs[p] = o;
}
static Obj & live(void const * p, const char * cls, const char * prop) {
    auto i = W->objs.find(p);
    CHECK(prop, i != W->objs.end() && !std::strcmp(i->second.cls, cls), "%s object used outside its lifetime", cls);
    return i->second;
}
static void unreg(void const * p, const char * cls, const char * prop) {
    live(p, cls, prop);
    W->objs.erase(p);
}
static unsigned sum(long id, void const * p) { return unsigned(id * 2654435761u) ^ unsigned(reinterpret_cast< std::uintptr_t >(p)); }

// an instrumented class: identity, lifetime and integrity of every object
#define SPECIAL(X)                                                                                 \
    X * operator&() const { fail("C14", "overloaded operator& of the element type invoked"); }     \
    static void * operator new(std::size_t) { fail("C14", "operator new of the element type invoked"); } \
    static void * operator new(std::size_t, void * p) { fail("C14", "placement operator new of the element type invoked"); return p; } \
    static void operator delete(void *) { fail("C14", "operator delete of the element type invoked"); } \
    static void operator delete(void *, void *) { }                                                \
    void operator,(X const &) { fail("C14", "overloaded operator, of the element type invoked"); }

struct Mk { long id; };
template< int SIZE > struct Pay { unsigned char b[SIZE]; };

#define OBJECT(X, NAME, PROP, ALIGN, SIZE, COPYTHROW, MOVETHROW, HASCOPY, HASMOVE, EXTRA)          \
    struct alignas(ALIGN) X {                                                                      \
        long id; unsigned chk; Pay< SIZE > pay;                                                    \
        explicit X(Mk m) { set(m.id, false); }                                                     \
        HASCOPY(X, NAME, PROP, COPYTHROW)                                                          \
        HASMOVE(X, NAME, PROP, MOVETHROW)                                                          \
        ~X() { check(PROP); std::memset(pay.b, 0xdd, SIZE); id = -7; unreg(this, NAME, PROP); }    \
        void set(long i, bool moved) {                                                             \
            CHECK("C10", reinterpret_cast< std::uintptr_t >(this) % ALIGN == 0, "%s object at a misaligned address", NAME); \
            id = i; chk = sum(i, this); std::memset(pay.b, int(i & 0xff), SIZE);                   \
            reg(this, Obj{ i, moved, NAME }, PROP);                                                \
        }                                                                                          \
        Obj & check(const char * prop) const {                                                     \
            Obj & o = live(this, NAME, prop);                                                      \
            CHECK("C01", id == o.id && chk == sum(id, this), "%s object %ld overwritten", NAME, o.id); \
            for (int i = 0; i < SIZE; ++i) CHECK("C01", pay.b[i] == (unsigned char)(o.id & 0xff), "%s object %ld overwritten", NAME, o.id); \
            return o;                                                                              \
        }                                                                                          \
        EXTRA(X)                                                                                   \
    };
#define YESCOPY(X, NAME, PROP, T) X(X const & o) { Obj s = o.check(PROP); if (T) maybe_throw(NAME); if (PROP[2] == '7') ++W->copies; set(s.id, s.moved); }
#define NOCOPY(X, NAME, PROP, T) X(X const &) = delete;
#define YESMOVE(X, NAME, PROP, T) X(X && o) noexcept(!T) { Obj & s = o.check(PROP); if (T) maybe_throw(NAME); if (PROP[2] == '7') ++W->moves; long i = s.id; bool m = s.moved; s.moved = true; set(i, m); }
#define NOMOVE(X, NAME, PROP, T)
#define VALOPS(X) SPECIAL(X) X(std::initializer_list< X >) { fail("C14", "initializer-list constructor of the element type invoked"); }
#define CPYASSIGN(X) X & operator=(X const & o) { fail("C14", "copy assignment of the element type invoked"); return *this; }
#define COPYOPS(X) SPECIAL(X) CPYASSIGN(X)
#define FNOPS(X) template< typename H > void operator()(H & h) { body(h, this->check("C11").id, this->check("C11").moved); }

template< typename H > void body(H & h, long id, bool moved);

OBJECT(Val, "Val", "C07", 8, 8, true, true, YESCOPY, YESMOVE, VALOPS)
OBJECT(Big, "Big", "C07", 8, 184, true, false, YESCOPY, YESMOVE, SPECIAL)
OBJECT(Mov, "Mov", "C07", 8, 3, false, false, NOCOPY, YESMOVE, SPECIAL)
OBJECT(Cpy, "Cpy", "C07", 8, 1, true, false, YESCOPY, NOMOVE, COPYOPS)
OBJECT(Ali, "Ali", "C07", 128, 100, true, false, YESCOPY, YESMOVE, SPECIAL)
// trivially destructible, but copied and moved by user code
struct Tdt {
    long id; unsigned chk; bool mv;
    void set(long i, bool m) { id = i; mv = m; chk = sum(i, this); }
    Obj & check(const char * prop) const {
        static thread_local Obj o;
        CHECK(prop, chk == sum(id, this), "Tdt object was not constructed here");
        o = Obj{ id, mv, "Tdt" };
        return o;
    }
    explicit Tdt(Mk m) { set(m.id, false); }
    Tdt(Tdt const & o) { Obj s = o.check("C07"); chk = 0; maybe_throw("Tdt"); ++W->copies; set(s.id, s.moved); }
    Tdt(Tdt && o) noexcept { Obj s = o.check("C07"); ++W->moves; o.mv = true; set(s.id, s.moved); }
    SPECIAL(Tdt)
};
struct Ncp final {   // small, nothing throws
    int id; unsigned chk;
    void set(int i, bool m) { id = i; chk = sum(i, this); reg(this, Obj{ i, m, "Ncp" }, "C07"); }
    Obj & check(const char * prop) const {
        Obj & o = live(this, "Ncp", prop);
        CHECK("C01", id == o.id && chk == sum(id, this), "Ncp object %ld overwritten", o.id);
        return o;
    }
    explicit Ncp(Mk m) { set(int(m.id), false); }
    Ncp(Ncp const & o) noexcept { Obj s = o.check("C07"); ++W->copies; set(int(s.id), s.moved); }
    Ncp(Ncp && o) noexcept { Obj & s = o.check("C07"); ++W->moves; int i = int(s.id); bool m = s.moved; s.moved = true; set(i, m); }
    ~Ncp() { check("C07"); id = -7; unreg(this, "Ncp", "C07"); }
    Ncp & operator=(Ncp const &) = delete;
    SPECIAL(Ncp)
};
struct Hug { long w[640]; };
struct alignas(16) Al1 { long w[2]; };
struct alignas(64) Al6 { long w[8]; };
struct P12 { int a, b, c; };           // larger than a word, not a multiple of it
struct Odd { unsigned char b[67]; };   // no alignment, no round size
struct Tri { int a; double d; char c; };
struct Wid { long w[20]; };
struct Emp { };
enum class Enu : unsigned char { x, y };

OBJECT(Fn, "Fn", "C11", 16, 8, true, false, YESCOPY, YESMOVE, FNOPS)
OBJECT(FnM, "FnM", "C11", 8, 3, false, false, NOCOPY, YESMOVE, FNOPS)
OBJECT(FnC, "FnC", "C11", 8, 3, true, false, YESCOPY, NOMOVE, FNOPS)
OBJECT(FnL, "FnL", "C11", 8, 240, true, false, YESCOPY, YESMOVE, FNOPS)
OBJECT(FnA, "FnA", "C11", 64, 40, true, false, YESCOPY, YESMOVE, FNOPS)
struct FnT {
    long id, chk;
    template< typename H > void operator()(H & h) {
        CHECK("C11", chk == (id ^ 0x5555), "the coroutine-function's captures are corrupted");
        body(h, id, false);
    }
};
template< typename H > void free_fn(H & h);
struct FnE { template< typename H > void operator()(H & h) { free_fn(h); } };

// exceptions
struct Exc {
    long id; unsigned chk;
    explicit Exc(long i) : id(i), chk(sum(i, this)) { reg(this, Obj{ i, false, "Exc" }, "C04"); }
    Exc(Exc const & o) : id(o.id), chk(sum(o.id, this)) { fail("C04", "the exception was copied"); }
    ~Exc() { unreg(this, "Exc", "C04"); }
};

struct StdExc : std::runtime_error { long id; explicit StdExc(long i) : std::runtime_error("x"), id(i) { } };
struct DerExc : Exc { long more; explicit DerExc(long i) : Exc(i), more(i) { } };
struct AllocExc : std::bad_alloc { long id; explicit AllocExc(long i) : id(i) { } };
[[noreturn]] static void throw_kind(long id) {
    switch (id % 6) {
    case 0: throw id;
    case 1: throw Exc(id);
    case 2: throw StdExc(id);
    case 3: throw AllocExc(id);
    case 4: throw DerExc(id);
    default: throw std::string("e") + std::to_string(id);
    }
}
// the id of the exception being handled (-1: none of ours)
static long caught_id() {
    try { throw; }
    catch (long e) { return e % 6 == 0 ? e : -1; }
    catch (DerExc const & e) { CHECK("C04", e.chk == sum(e.id, static_cast< Exc const * >(&e)) && e.more == e.id, "another exception object arrives"); return e.id % 6 == 4 ? e.id : -1; }
    catch (Exc const & e) { CHECK("C04", e.chk == sum(e.id, &e), "another exception object arrives"); return e.id % 6 == 1 ? e.id : -1; }
    catch (StdExc const & e) { return e.id % 6 == 2 ? e.id : -1; }
    catch (AllocExc const & e) { return e.id % 6 == 3 ? e.id : -1; }
    catch (std::string const & e) { long i = std::atol(e.c_str() + 1); return i % 6 == 5 ? i : -1; }
    catch (...) { return -1; }
}

// ------------------------------------------------------------------ stacks
struct Stack { char * raw; char * lo; std::size_t size; void * sp; int owner; bool live; std::size_t rawsize; };
static thread_local std::vector< Stack > * STACKS;
// Is the memory the caller runs on bounded below by an inaccessible page?
static bool guard_below(void const *) {
    char here = 0;
    std::uintptr_t p = (std::uintptr_t)&here, lo, hi, last = 0;
    char perm[8], prev[8] = "";
    FILE * f = std::fopen("/proc/self/maps", "r");
    if (!f) return true;
    char line[512];
    bool ok = false;
    while (std::fgets(line, sizeof line, f)) {
        if (std::sscanf(line, "%lx-%lx %7s", &lo, &hi, perm) != 3) continue;
        if (lo <= p && p < hi) { ok = last == lo && !std::strncmp(prev, "---", 3); break; }
        last = hi;
        std::strcpy(prev, perm);
    }
    std::fclose(f);
    return ok;
}
struct Alo {
    long tag; int owner; bool moved; unsigned chk;
    void init() { chk = sum(tag, this); reg(this, Obj{ tag, false, "Alo" }, "C06"); }
    Alo(long t, int o) : tag(t), owner(o), moved(false) { init(); }
    Alo(Alo const & o) noexcept : tag(o.tag), owner(o.owner), moved(o.moved) { o.check(); init(); }
    Alo(Alo && o) noexcept : tag(o.tag), owner(o.owner), moved(o.moved) { o.check(); o.moved = true; init(); }
    ~Alo() { check(); unreg(this, "Alo", "C06"); tag = owner = -1; }
    void check() const { live(this, "Alo", "C06"); CHECK("C06", chk == sum(tag, this), "allocator object overwritten"); }
    ctx::stack_context allocate() {
        check();
        CHECK("C06", !moved, "allocate() on a moved-from allocator");
        maybe_throw("Alo");
        Stack s;
        s.size = 48 * 1024 + rnd(9) * 8 + rnd(8);
        s.rawsize = s.size + 1024;
        s.raw = static_cast< char * >(std::malloc(s.rawsize));
        std::memset(s.raw, 0x5a, s.rawsize);
        s.lo = s.raw + 256 + rnd(256);
        s.sp = s.lo + s.size;
        s.owner = owner;
        s.live = true;
        STACKS->push_back(s);
        ctx::stack_context c;
        c.size = s.size;
        c.sp = s.sp;
        return c;
    }
    static Stack * find(void * sp) {
        for (Stack & s : *STACKS) if (s.sp == sp && s.live) return &s;
        return nullptr;
    }
    static void canary(Stack & s) {
        for (char * p = s.raw; p < s.lo; ++p) CHECK("C10", *p == 0x5a, "memory below the stack overwritten");
        for (char * p = s.lo + s.size; p < s.raw + s.rawsize; ++p) CHECK("C10", *p == 0x5a, "memory above the stack overwritten");
    }
    void deallocate(ctx::stack_context & c) noexcept {
        check();
        CHECK("C06", !moved, "deallocate() on a moved-from allocator");
        Stack * s = find(c.sp);
        CHECK("C06", s != nullptr, "deallocate() of a stack that is not allocated");
        CHECK("C06", s->owner == owner, "stack given to another allocator");
        CHECK("C06", s->size == c.size, "deallocate() with another size");
        char here;
        CHECK("C06", &here < s->lo || &here >= s->lo + s->size, "stack deallocated while running on it");
        canary(*s);
        s->live = false;
        std::memset(s->raw, 0xdb, s->rawsize);
        for (auto & o : W->objs) {
            char const * p = static_cast< char const * >(o.first);
            CHECK(!std::strcmp(o.second.cls, "Fn") || !std::strcmp(o.second.cls, "FnM") || !std::strncmp(o.second.cls, "Fn", 2) ? "C11" :
                  !std::strcmp(o.second.cls, "Alo") ? "C06" : "C07",
                  p < s->lo || p >= s->lo + s->size || p == reinterpret_cast< char const * >(this), "%s object lives in a deallocated stack", o.second.cls);
        }
        std::free(s->raw);
    }
};

// ------------------------------------------------------------------ element types
#define ETYPE(E, ...) struct Elem { typedef E T; typedef std::remove_reference< E >::type V; __VA_ARGS__ };
template< typename X > struct ClassOps {
    static X * make(long id) { return ::new (::operator new(sizeof(X) + 256)) X(Mk{ id }); }
};
template< typename X > static X * fresh_cls(long id) {
    void * raw = nullptr;
    if (::posix_memalign(&raw, alignof(X) < 16 ? 16 : alignof(X), sizeof(X))) std::abort();
    return ::new (raw) X(Mk{ id });
}
template< typename X > static void dispose_cls(X * p) { p->~X(); std::free(p); }

#define CLASSELEM(X, COPY, MOVE)                                                                  \
    struct Elem { typedef X T; typedef X V; enum { cls = 1, ref = 0, isvoid = 0, copyable = COPY, movable = MOVE, injects = COPY || MOVE }; \
        static V * fresh(long id) { return fresh_cls< X >(id); }                                   \
        static void dispose(V * p) { dispose_cls(p); }                                             \
        static void change(V & v, long id) { void * p = std::addressof(v); v.~X(); ::new (p) X(Mk{ id }); } \
        static bool same(V const & v, long id) { Obj & o = v.check("C07"); return o.id == id && !o.moved; } \
        static bool untouched(V const & v, long id) { return same(v, id); }                        \
        static bool moved(V const & v) { return v.check("C07").moved; } };
#define TRIELEM(X, SET, EQ)                                                                       \
    struct Elem { typedef X T; typedef X V; enum { cls = 0, ref = 0, isvoid = 0, copyable = 1, movable = 0, injects = 0 }; \
        static V * fresh(long id) { void * r = nullptr; if (::posix_memalign(&r, alignof(V) < 16 ? 16 : alignof(V), sizeof(V))) std::abort(); \
            V * p = ::new (r) V(); change(*p, id); return p; }                                     \
        static void dispose(V * p) { std::free(p); }                                               \
        static void change(V & v, long id) { SET; (void)v; (void)id; }                             \
        static bool same(V const & v, long id) { (void)v; (void)id; return EQ; }                   \
        static bool untouched(V const & v, long id) { return same(v, id); }                        \
        static bool moved(V const &) { return false; } };

static int POOL[4096];
#if defined(T_val)
CLASSELEM(Val, 1, 1)
#elif defined(T_big)
CLASSELEM(Big, 1, 1)
#elif defined(T_mov)
CLASSELEM(Mov, 0, 1)
#elif defined(T_cpy)
CLASSELEM(Cpy, 1, 0)
#elif defined(T_ali)
CLASSELEM(Ali, 1, 1)
#elif defined(T_tdt)
CLASSELEM(Tdt, 1, 1)
#elif defined(T_ncp)
CLASSELEM(Ncp, 1, 1)
#elif defined(T_lon)
TRIELEM(unsigned long, v = 0x9e3779b97f4a7c15ul * id, v == 0x9e3779b97f4a7c15ul * id)
#elif defined(T_chr)
TRIELEM(char, v = char(id), v == char(id))
#elif defined(T_hug)
static bool hug_eq(Hug const & v, long id) { for (int i = 0; i < 640; ++i) if (v.w[i] != id * 31 + i) return false; return true; }
TRIELEM(Hug, for (int i = 0; i < 640; ++i) v.w[i] = id * 31 + i, hug_eq(v, id))
#elif defined(T_al1)
TRIELEM(Al1, v.w[0] = id; v.w[1] = ~id, v.w[0] == id && v.w[1] == ~id && reinterpret_cast< std::uintptr_t >(&v) % 16 == 0)
#elif defined(T_al6)
TRIELEM(Al6, v.w[0] = id; v.w[7] = ~id, v.w[0] == id && v.w[7] == ~id && reinterpret_cast< std::uintptr_t >(&v) % 64 == 0)
#elif defined(T_p12)
TRIELEM(P12, v.a = int(id); v.b = int(~id); v.c = int(id * 7919), v.a == int(id) && v.b == int(~id) && v.c == int(id * 7919))
#elif defined(T_odd)
static bool odd_eq(Odd const & v, long id) { for (int i = 0; i < 67; ++i) if (v.b[i] != (unsigned char)(id * 31 + i)) return false; return true; }
TRIELEM(Odd, for (int i = 0; i < 67; ++i) v.b[i] = (unsigned char)(id * 31 + i), odd_eq(v, id))
#elif defined(T_i32)
TRIELEM(int, v = int(id * 7919), v == int(id * 7919))
#elif defined(T_tri)
TRIELEM(Tri, v.a = int(id); v.d = id * 1.5; v.c = char(id), v.a == int(id) && v.d == id * 1.5 && v.c == char(id))
#elif defined(T_wid)
static bool wid_eq(Wid const & v, long id) { for (int i = 0; i < 20; ++i) if (v.w[i] != id * 31 + i) return false; return true; }
TRIELEM(Wid, for (int i = 0; i < 20; ++i) v.w[i] = id * 31 + i, wid_eq(v, id))
#elif defined(T_emp)
TRIELEM(Emp, , true)
#elif defined(T_ptr)
typedef int * iptr;
TRIELEM(iptr, v = POOL + id % 4096, v == POOL + id % 4096)
#elif defined(T_boo)
TRIELEM(bool, v = id & 1, v == bool(id & 1))
#elif defined(T_dbl)
TRIELEM(double, v = id * 0.375, v == id * 0.375)
#elif defined(T_enu)
TRIELEM(Enu, v = (id & 1) ? Enu::y : Enu::x, v == ((id & 1) ? Enu::y : Enu::x))
#elif defined(T_kref)
struct Elem { typedef int const & T; typedef int const V; enum { cls = 0, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 0 };
    static V * fresh(long id) { return new int(int(id)); }
    static void dispose(V * p) { delete p; }
    static void change(V & v, long id) { const_cast< int & >(v) = int(id); }
    static bool same(V const & v, long id) { return v == int(id); }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const &) { return false; } };
#elif defined(T_dref)
struct Elem { typedef double const & T; typedef double const V; enum { cls = 0, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 0 };
    static V * fresh(long id) { return new double(id * 0.375); }
    static void dispose(V * p) { delete p; }
    static void change(V & v, long id) { const_cast< double & >(v) = id * 0.375; }
    static bool same(V const & v, long id) { return v == id * 0.375; }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const &) { return false; } };
#elif defined(T_tref)
struct Elem { typedef P12 const & T; typedef P12 const V; enum { cls = 0, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 0 };
    static V * fresh(long id) { return new P12{ int(id), int(~id), int(id * 7919) }; }
    static void dispose(V * p) { delete p; }
    static void change(V & v, long id) { const_cast< P12 & >(v) = P12{ int(id), int(~id), int(id * 7919) }; }
    static bool same(V const & v, long id) { return v.a == int(id) && v.b == int(~id) && v.c == int(id * 7919); }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const &) { return false; } };
#elif defined(T_iref)
struct Elem { typedef int & T; typedef int V; enum { cls = 0, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 0 };
    static V * fresh(long id) { return new int(int(id)); }
    static void dispose(V * p) { delete p; }
    static void change(V & v, long id) { v = int(id); }
    static bool same(V const & v, long id) { return v == int(id); }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const &) { return false; } };
#elif defined(T_vref)
struct Elem { typedef Val & T; typedef Val V; enum { cls = 1, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 1 };
    static V * fresh(long id) { return fresh_cls< Val >(id); }
    static void dispose(V * p) { dispose_cls(p); }
    static void change(V & v, long id) { void * p = std::addressof(v); v.~Val(); ::new (p) Val(Mk{ id }); }
    static bool same(V const & v, long id) { Obj & o = v.check("C13"); return o.id == id && !o.moved; }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const & v) { return v.check("C13").moved; } };
#elif defined(T_cref)
struct Elem { typedef Val const & T; typedef Val const V; enum { cls = 1, ref = 1, isvoid = 0, copyable = 1, movable = 0, injects = 1 };
    static V * fresh(long id) { return fresh_cls< Val >(id); }
    static void dispose(V * p) { dispose_cls(const_cast< Val * >(p)); }
    static void change(V & v, long id) { void * p = const_cast< Val * >(std::addressof(v)); v.~Val(); ::new (p) Val(Mk{ id }); }
    static bool same(V const & v, long id) { Obj & o = v.check("C13"); return o.id == id && !o.moved; }
    static bool untouched(V const & v, long id) { return same(v, id); }
    static bool moved(V const & v) { return v.check("C13").moved; } };
#elif defined(T_void)
struct Elem { typedef void T; typedef int V; enum { cls = 0, ref = 0, isvoid = 1, copyable = 1, movable = 0, injects = 0 };
    static V * fresh(long) { return nullptr; }
    static void dispose(V *) { }
    static void change(V &, long) { }
    static bool same(V const &, long) { return true; }
    static bool untouched(V const &, long) { return true; }
    static bool moved(V const &) { return false; } };
#else
#error element type
#endif
typedef coroutine< Elem::T >::pull_type Pull;
typedef coroutine< Elem::T >::push_type Push;

// ------------------------------------------------------------------ the model
enum Phase { NONE, UNSTARTED, SUSP, RUNNING, DONE };
struct Op { char who; std::string name; bool inj; };
struct Co {
    int n = 0;
    bool pull = true;              // kind of the owning handle
    Phase phase = NONE;
    Pull * hpull = nullptr; Push * hpush = nullptr;      // owning handle
    Pull * ipull = nullptr; Push * ipush = nullptr;      // handle inside
    bool calling = false;          // operator() of the owning handle has not returned
    Pull * lpull = nullptr; Push * lpush = nullptr;      // where the owning handle was then
    bool innergone = false, innermoved = false;
    bool hascur = false, curmoved = false;
    long cur = 0; Elem::V const * curaddr = nullptr;
    int reads = 0;
    bool prot = false;   // runs on a protected_fixedsize_stack
    long fnid = 0; int entered = 0;
    long pending = 0;              // exception id expected at the resumer
    long guards = 0;               // objects living on the coroutine's stack
    bool unwound = false, expect_unwind = false;
    std::vector< Elem::V * > vars;
    Elem::V * keep_m = nullptr; Elem::V * keep_c = nullptr;
    bool construct = false;
    char push_form = 0; long push_copies = 0;
};
static thread_local Co * CO;       // all coroutines
static thread_local int NCO;
static thread_local Co * ENTER;    // the coroutine being constructed / first resumed
static thread_local std::vector< Op > * FORCED;
static thread_local std::size_t FPOS;
static thread_local Co * CURRENT_NEW;

static bool forced(char who, Op & o) {
    if (FPOS < FORCED->size() && (*FORCED)[FPOS].who == who) { o = (*FORCED)[FPOS++]; return true; }
    return false;
}
// the floating-point environment in effect at construction is in effect again
// when an operation is over
struct Fp {
    int mode;
    Fp() : mode(std::fegetround()) {}
    void check() const { CHECK("C17", std::fegetround() == mode, "the rounding mode is %d after the operation, it was %d", std::fegetround(), mode); }
};
static void no_handler() {
    CHECK("C04", !std::current_exception(), "control was transferred inside an exception handler");
}
struct Guard { Co & c; Guard(Co & c_) : c(c_) { ++c.guards; } ~Guard() { --c.guards; } };

// ------------------------------------------------------------------ observations
static bool usable(Co & c) { return c.phase == UNSTARTED || c.phase == SUSP; }
template< typename H > static void expect_bool(H const & h, bool e, const char * what) {
    bool b = static_cast< bool >(h);
    CHECK("C03", b == e, "operator bool of %s is %d", what, int(b));
    CHECK("C03", !h == !e, "operator! of %s is %d", what, int(!h));
}
static void observe_read(Co & c, bool same, Elem::V const * addr, const char * how) {
    if (Elem::ref) CHECK("C13", addr == c.curaddr, "%s denotes another object than the one pushed", how);
    const char * p = !std::strcmp(how, "get()") ? (c.reads ? "C12" : "C01") : (c.reads ? "C12" : "C09");
    CHECK(p, same, "%s does not yield the value pushed (%ld), read %d", how, c.cur, c.reads);
    ++c.reads;
}
#if !defined(T_void)
template< typename P > static void read(Co & c, P & p) {
    if (!c.hascur || c.curmoved) return;
    long cp = W->copies, mv = W->moves;
    switch (rnd(Elem::ref ? 3 : 4)) {
    case 0: {
        auto i = p.begin();
        CHECK("C09", !(i == p.end()) && i != p.end(), "begin() equals end() although a value is available");
        Elem::V & r = *i;
        observe_read(c, Elem::same(r, c.cur), std::addressof(r), "operator*");
        CHECK("C12", W->copies == cp && W->moves == mv, "dereferencing copies or moves");
        observe_read(c, Elem::same(*i, c.cur), std::addressof(*i), "operator*");
        break; }
    case 1: {
        using boost::coroutines2::detail::begin; using boost::coroutines2::detail::end;
        auto i = begin(p);
        CHECK("C09", i != end(p) && !(i == end(p)), "begin() equals end() although a value is available");
        Elem::V * r = i.operator->();
        observe_read(c, Elem::same(*r, c.cur), r, "operator->");
        CHECK("C12", W->copies == cp && W->moves == mv, "dereferencing copies or moves");
        break; }
    case 2:
        if (Elem::ref || (Elem::copyable && !Elem::movable)) { get(c, p, std::integral_constant< bool, Elem::ref >()); break; }
        break;
    default:
        tr("get");
        get(c, p, std::integral_constant< bool, Elem::ref >());
        if (Elem::movable) c.curmoved = true;
    }
}
template< typename P > static void get(Co & c, P & p, std::true_type) {
    Elem::V & r = p.get();
    observe_read(c, Elem::same(r, c.cur), std::addressof(r), "get()");
}
template< typename P > static void get(Co & c, P & p, std::false_type) {
    typename std::remove_reference< Elem::T >::type v(p.get());
    observe_read(c, Elem::same(v, c.cur), nullptr, "get()");
}
#else
template< typename P > static void read(Co &, P &) { }
#endif
static void observe_owner(Co & c) {
    bool e = usable(c);
    if (c.pull) {
        expect_bool(*c.hpull, e, "the owning pull handle");
#if !defined(T_void)
        CHECK("C09", (c.hpull->begin() == c.hpull->end()) == !e, "begin() == end() disagrees with operator bool");
        CHECK("C09", (c.hpull->begin() != c.hpull->end()) == e, "begin() != end() disagrees with operator bool");
        if (e) for (unsigned n = rnd(3); n; --n) read(c, *c.hpull);
#endif
        if (c.phase == SUSP && !c.innergone) expect_bool(*c.ipush, true, "the handle inside (seen from outside)");
    } else {
        expect_bool(*c.hpush, e, "the owning push handle");
#if !defined(T_void) && !defined(T_mov)
        using boost::coroutines2::detail::begin; using boost::coroutines2::detail::end;
        CHECK("C09", (begin(*c.hpush) == end(*c.hpush)) == !e, "begin() == end() disagrees with operator bool");
#endif
        if (c.phase == SUSP && !c.innergone && (c.hascur || Elem::isvoid)) expect_bool(*c.ipull, true, "the handle inside (seen from outside)");
    }
}
static void observe_inner(Co & c) {
    // the owning handle, seen from inside
    if (c.hpush) expect_bool(*c.hpush, true, "the owning push handle (seen from inside)");
    if (c.hpull && (c.hascur || Elem::isvoid)) expect_bool(*c.hpull, true, "the owning pull handle (seen from inside)");
    if (c.innergone) return;
    if (c.pull) expect_bool(*c.ipush, true, "the handle passed to the coroutine-function");
    else {
        if (c.hascur || Elem::isvoid) expect_bool(*c.ipull, true, "the handle passed to the coroutine-function");
        if (c.hascur) for (unsigned n = rnd(3); n; --n) read(c, *c.ipull);
    }
}
// the coroutine's value as the next reader sees it
static void delivered(Co & c, long id, Elem::V const * addr) {
    c.hascur = true; c.curmoved = false; c.cur = id; c.curaddr = addr; c.reads = 0;
}

// ------------------------------------------------------------------ pushing
struct Source { Elem::V * p; long id; char form; };
static Source source(Co & c, char form, bool main) {
    Source s;
    s.id = W->nextid++;
    s.form = form;
    if (Elem::isvoid) { s.p = nullptr; return s; }
    if (form == 'k') {
        Elem::V *& k = main ? c.keep_m : c.keep_c;
        if (!k) k = Elem::fresh(s.id); else Elem::change(*k, s.id);
        s.p = k;
    } else {
        s.p = Elem::fresh(s.id);
        c.vars.push_back(s.p);
    }
    return s;
}
static void source_after(Source const & s, bool ok, long copies) {
    if (Elem::isvoid || Elem::ref) {
        if (Elem::ref) CHECK("C13", Elem::untouched(*s.p, s.id), "the referred object was modified");
        return;
    }
    if (s.form != 'm') CHECK("C14", Elem::untouched(*s.p, s.id), "an lvalue argument was modified or moved from");
    else if (Elem::movable && ok) {
        CHECK("C14", Elem::moved(*s.p), "an rvalue argument was not moved from");
        (void)copies;
    }
}
#if defined(T_void)
static void do_push(Push & h, Source const &) { Push & r = h(); CHECK("C02", &r == &h, "the push operation does not return *this"); }
#else
static void do_push(Push & h, Source const & s) {
    Push * r = &h;
    switch (s.form) {
#if !defined(T_mov)
    case 'c': case 'k': { 
#if defined(T_iref) || defined(T_vref)
        r = &h(*s.p);
#else
        Elem::V const & v = *s.p; r = &h(v);
#endif
        break; }
    case 'l': r = &h(*s.p); break;
    case 'a': {
        using boost::coroutines2::detail::begin; using boost::coroutines2::detail::end;
        auto i = begin(h);
        CHECK("C09", i != end(h) && !(i == end(h)), "begin() of a usable push handle equals end()");
        auto & j = ++*i;
        CHECK("C09", &j == &i, "* and ++ of a push iterator do not return the iterator");
        auto & k = (i = *s.p);
        CHECK("C09", &k == &i, "assignment through a push iterator does not return the iterator");
        bool e = static_cast< bool >(h);
        CHECK("C09", (i == end(h)) == !e && (i != end(h)) == e, "after an assignment the push iterator %s end()", e ? "equals" : "differs from");
        break; }
#endif
#if !defined(T_iref) && !defined(T_vref) && !defined(T_cref)
    case 'm': r = &h(std::move(*s.p)); break;
#endif
    }
    CHECK("C02", r == &h, "the push operation does not return *this");
}
#endif
// control arrives on the other side of a push
static void arrived(Co & c) {
    W->inject = 0;
    if (c.push_form == 'm' && Elem::movable) CHECK("C14", W->copies == c.push_copies, "an rvalue argument was copied");
    c.push_form = 0;
}
static char push_form() {
#if defined(T_mov)
    return 'm';
#elif defined(T_void)
    return 'c';
#elif defined(T_iref) || defined(T_vref) || defined(T_cref) || defined(T_kref) || defined(T_dref) || defined(T_tref)
    static const char f[] = { 'l', 'l', 'a', 'k' };
    return f[rnd(4)];
#else
    static const char f[] = { 'c', 'l', 'a', 'k', 'm' };
    return f[rnd(5)];
#endif
}
static void arm(Op const & o) {
    W->injected = false;
    W->inject = 0;
    if (o.inj || (FORCED->empty() && rnd(5) == 0)) { W->inject = o.inj ? 1 : 1 + rnd(2); tr("(throwing copy)"); }
}
static void disarm() { W->inject = 0; }
static void begin_push(Co & c, char f) { c.push_form = f; c.push_copies = W->copies; }

// ------------------------------------------------------------------ main's operations
static void owner_returned(Co & c, const char * where);

template< typename H > struct Mine;
static void finish_checks(Co & c) {
    CHECK("C05", c.guards == 0, "%ld objects on the coroutine's stack were not destroyed", c.guards);
    (void)c;
}
// an operation that resumes the coroutine
template< typename F > static void resume_owner(Co & c, F f, Op const & o, Source const * s) {
    bool first = c.phase == UNSTARTED;
    Phase before = c.phase;
    long copies = W->copies;
    int entered = c.entered;
    if (s && (Elem::injects || first)) arm(o); else W->inject = 0;
    Elem::V const * a = s ? s->p : nullptr;
    bool had = c.hascur; long old = c.cur; Elem::V const * olda = c.curaddr; bool oldm = c.curmoved;
    if (!c.pull) { delivered(c, s->id, a); begin_push(c, s->form); }
    c.phase = RUNNING;
    c.pending = 0;
    ENTER = &c;
    bool returned = false, transferred;
    Fp const fpenv;
    try {
        f();
        returned = true;
        if (c.pull) arrived(c);
        disarm();
        transferred = true;
        no_handler();
    } catch (Inj const &) {
        disarm();
        transferred = c.phase != RUNNING || c.entered != entered;
        CHECK("C04", W->injected || c.pending == -1, "an exception arrives that nobody threw");
        if (c.pending == -1) { c.pending = 0; transferred = true; }
        else if (first && W->injcls[0] == 'F') {    // moving the coroutine-function failed
            c.phase = DONE;
            if (!c.pull) { c.hascur = false; }
            finish_checks(c);
            return;
        } else {
            CHECK("C01", !transferred, "control was transferred although copying the argument threw");
            c.phase = before;
            if (!c.pull) { c.hascur = false; }
            c.push_form = 0;
            if (s) source_after(*s, false, copies);
            W->injected = false;
            return;
        }
    } catch (ctx::detail::forced_unwind const &) {
        fail("C05", "forced_unwind arrives at the resumer");
    } catch (...) {
        disarm();
        transferred = true;
        long e = caught_id();
        CHECK("C04", c.pending != 0 && c.pending == e && c.phase == DONE, "exception %ld arrives, expected %ld", e, c.pending);
        c.pending = 0;
    }
    no_handler();
    fpenv.check();
    CHECK("C04", c.pending == 0, "the exception of the coroutine-function was swallowed");
    CHECK("C02", c.phase == SUSP || c.phase == DONE, "control returned although the coroutine is running");
    if (first) CHECK("C11", c.entered == entered + 1, "the coroutine-function was not entered");
    if (s) source_after(*s, returned, copies);
    if (!s) { (void)had; (void)old; (void)olda; (void)oldm; }
    if (c.phase == DONE) finish_checks(c);
}
static void destroy_owner(Co & c, int how);
#define STR(x) std::string(x)
static std::string nm(Co & c, const char * a) { char b[64]; std::snprintf(b, sizeof b, "%d:%s", c.n, a); return b; }

static void op_call(Co & c, Op const & o) {
    if (c.pull) {
        bool it = o.name == "it" || (o.name != "call" && rnd(2));
#if defined(T_void)
        it = false;
#endif
        tr(nm(c, it ? "M ++iterator" : "M resume"));
        resume_owner(c, [&c, it] {
#if !defined(T_void)
            if (it) {
                Pull::iterator i = c.hpull->begin();
                CHECK("C09", i != c.hpull->end(), "begin() equals end() although a value is available");
                if (rnd(2)) { Pull::iterator & j = ++i; CHECK("C09", &j == &i, "++ does not return the iterator"); }
                else i++;
                CHECK("C09", (i == c.hpull->end()) == (c.phase == DONE) && (i != c.hpull->end()) == (c.phase != DONE),
                      "after ++ the iterator %s end()", c.phase == DONE ? "differs from" : "equals");
                if (c.phase == SUSP) { Elem::V & r = *i; observe_read(c, Elem::same(r, c.cur), std::addressof(r), "operator*"); }
                return;
            }
#endif
            Pull * h = c.hpull;
            c.calling = true;
            Pull & r = (*h)();
            CHECK("C02", &r == h, "operator() does not return *this");
        }, o, nullptr);
    } else {
        char f = o.name == "it" && !Elem::isvoid ? 'a' : push_form();
#if defined(T_mov)
        f = 'm';
#endif
        Source s = source(c, f, true);
        char b[60];
        std::snprintf(b, sizeof b, "M push%c #%ld", f, s.id);
        tr(nm(c, b));
        resume_owner(c, [&c, &s, f] { c.calling = f != 'a'; do_push(*c.hpush, s); }, o, &s);
    }
    c.calling = false;
    if (c.lpull) { expect_bool(*c.lpull, false, "a moved-from handle"); delete c.lpull; c.lpull = nullptr; }
    if (c.lpush) { expect_bool(*c.lpush, false, "a moved-from handle"); delete c.lpush; c.lpush = nullptr; }
}
template< typename H > static H * relocate(H * h) {
    H * n = new H(std::move(*h));
    expect_bool(*h, false, "a moved-from handle");
    if (rnd(2)) { delete h; }
    else { H * m = new H(std::move(*h)); expect_bool(*m, false, "a handle moved from a moved-from handle"); delete m; delete h; }
    return n;
}
template< typename H > static H * reassign(H * h, int i) {
    // move assignment into a moved-from handle, and to itself
    H * t = new H(std::move(*h));
    H & r = (*h = std::move(*t));
    CHECK("C08", &r == h, "move assignment does not return *this");
    expect_bool(*t, false, "a moved-from handle");
    if (i) { H & x = *h; H & r2 = (*h = std::move(x)); CHECK("C08", &r2 == h, "move assignment does not return *this"); }
    delete t;
    return h;
}
static void op_mv(Co & c) {
    tr(nm(c, "M move handle"));
    long cp = W->copies, mv = W->moves;
    if (rnd(2)) { if (c.pull) c.hpull = relocate(c.hpull); else c.hpush = relocate(c.hpush); }
    else { if (c.pull) c.hpull = reassign(c.hpull, rnd(2)); else c.hpush = reassign(c.hpush, rnd(2)); }
    CHECK("C08", cp == W->copies && mv == W->moves, "moving a handle copies or moves values");
}
static void run_destroy(Co & c, int how) {
    c.expect_unwind = c.phase == SUSP;
    c.unwound = false;
    int entered = c.entered;
    Phase was = c.phase;
    c.phase = RUNNING;
    Fp const fpenv;
    try {
        if (how == 0) { if (c.pull) { delete c.hpull; c.hpull = nullptr; } else { delete c.hpush; c.hpush = nullptr; } }
        else if (how == 1) {     // assignment from an empty handle
            if (c.pull) { Pull t(std::move(*c.hpull)); Pull e(std::move(*c.hpull)); t = std::move(e); expect_bool(t, false, "a handle an empty one was assigned to"); }
            else { Push t(std::move(*c.hpush)); Push e(std::move(*c.hpush)); t = std::move(e); expect_bool(t, false, "a handle an empty one was assigned to"); }
        }
    } catch (ctx::detail::forced_unwind const &) {
        fail("C05", "forced_unwind leaves the destructor");
    }
    no_handler();
    fpenv.check();
    CHECK("C05", c.entered == entered, "destruction enters the coroutine-function");
    CHECK("C05", c.unwound == (was == SUSP), "destroying a %s coroutine %s", was == SUSP ? "suspended" : "not suspended",
          was == SUSP ? "does not unwind it" : "runs user code");
    finish_checks(c);
    c.phase = NONE;
}
static void destroy_owner(Co & c, int how) {
    tr(nm(c, how == 1 ? "M assign empty handle" : "M destroy handle"));
    run_destroy(c, how);
    if (c.hpull) { expect_bool(*c.hpull, false, "a moved-from handle"); delete c.hpull; c.hpull = nullptr; }
    if (c.hpush) { expect_bool(*c.hpush, false, "a moved-from handle"); delete c.hpush; c.hpush = nullptr; }
    std::size_t n = 0;
    for (Stack & s : *STACKS) if (s.live && s.owner == c.n) ++n;
    CHECK("C06", n == 0, "the stack is not deallocated");
    for (Elem::V * p : c.vars) {
        if (Elem::ref) { }
        Elem::dispose(p);
    }
    c.vars.clear();
    if (c.keep_m) Elem::dispose(c.keep_m);
    if (c.keep_c) Elem::dispose(c.keep_c);
    c.keep_m = c.keep_c = nullptr;
    c.hascur = false;
}

// ------------------------------------------------------------------ the coroutine-function
static bool nested(int self);
template< typename H > static void free_fn(H & h) { body(h, CURRENT_NEW ? CURRENT_NEW->fnid : 0, false); }

template< typename H > struct InnerOps;
template<> struct InnerOps< Push > {
    static void bind(Co & c, Push & h) { c.ipush = &h; }
    static void suspend(Co & c, Op const & o) {
        char f = o.name == "it" && !Elem::isvoid ? 'a' : push_form();
#if defined(T_mov)
        f = 'm';
#endif
        Source s = source(c, f, false);
        char b[60];
        std::snprintf(b, sizeof b, "C push%c #%ld", f, s.id);
        tr(nm(c, b));
        long copies = W->copies;
        if (Elem::injects) arm(o); else W->inject = 0;
        bool had = c.hascur; long old = c.cur; Elem::V const * olda = c.curaddr; bool oldm = c.curmoved;
        delivered(c, s.id, s.p);
        begin_push(c, f);
        c.phase = SUSP;
        try {
            do_push(*c.ipush, s);
        } catch (Inj const &) {
            disarm();
            CHECK("C01", c.phase == SUSP && W->injected, "control was transferred although copying the argument threw");
            W->injected = false;
            c.phase = RUNNING;
            c.hascur = false;
            c.push_form = 0;
            source_after(s, false, copies);
            if (rnd(4) == 0) { tr("rethrow"); c.pending = -1; c.phase = DONE; throw; }
            (void)had; (void)old; (void)olda; (void)oldm;
            return;
        }
        disarm();
        source_after(s, true, copies);
    }
};
template<> struct InnerOps< Pull > {
    static void bind(Co & c, Pull & h) { c.ipull = &h; }
    static void suspend(Co & c, Op const & o) {
        bool it = o.name == "it" || (o.name != "call" && rnd(2));
#if defined(T_void)
        it = false;
#endif
        tr(nm(c, it ? "C ++iterator" : "C resume"));
        c.phase = SUSP;
#if !defined(T_void)
        if (it) {
            Pull::iterator i = c.ipull->begin();
            ++i;
            arrived(c);
            CHECK("C09", i != c.ipull->end(), "after ++ the iterator equals end() although a value was pushed");
            Elem::V & r = *i;
            observe_read(c, Elem::same(r, c.cur), std::addressof(r), "operator*");
            return;
        }
#endif
        Pull & r = (*c.ipull)();
        arrived(c);
        CHECK("C02", &r == c.ipull, "operator() does not return *this");
    }
};
template< typename H > static void set_inner(Co &, H *);
template<> void set_inner< Pull >(Co & c, Pull * h) { c.ipull = h; }
template<> void set_inner< Push >(Co & c, Push * h) { c.ipush = h; }
template< typename H > static H * get_inner(Co & c);
template<> Pull * get_inner< Pull >(Co & c) { return c.ipull; }
template<> Push * get_inner< Push >(Co & c) { return c.ipush; }

template< typename H > void body(H & h, long id, bool moved) {
    Co & c = *ENTER;
    if (!c.pull) arrived(c);
    disarm();
    CHECK("C11", id == c.fnid, "another callable is invoked");
    CHECK("C11", !moved, "a moved-from callable is invoked");
    if (c.prot) CHECK("C18", guard_below(&c), "no inaccessible page lies below the stack");
    CHECK("C11", ++c.entered == 1, "the coroutine-function is entered twice");
    CHECK("C02", c.phase == RUNNING || c.construct, "the coroutine-function is entered unasked");
    CHECK("C11", (std::is_same< H, Push >::value) == c.pull, "handle for the wrong direction");
    c.phase = RUNNING;
    std::fesetround(c.n % 2 ? FE_DOWNWARD : FE_TOWARDZERO);
    Fp const fpenv;
    InnerOps< H >::bind(c, h);
    struct Holder { H * own; ~Holder() { delete own; } } holder = { nullptr };
    Guard g(c);
    try {
        for (int n = 0; ; ++n) {
            no_handler();
            fpenv.check();
            CHECK("C02", c.phase == RUNNING, "the coroutine continues unasked");
            if (FORCED->empty() || FPOS >= FORCED->size()) observe_inner(c);
            Op o{ 'C', "", false };
            int k;
            if (forced('C', o)) {
                k = o.name == "call" || o.name == "it" || o.name == "sink" ? 0 : o.name == "mv" ? 1 : o.name == "drop" ? 2 : o.name == "throw" ? 4 :
                    o.name == "return" ? 3 : o.name == "get" ? 6 : o.name == "mvo" ? 8 : 7;
                if (k == 7) continue;
            } else {
                static const int w[] = { 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 5, 8 };
                k = w[rnd(13)];
                if (k == 2 && rnd(3)) k = 0;
                if (LONG && n < LONG) k = 0;
                else if (n > 9) k = 3;
            }
            if (c.innergone && (k == 0 || k == 1 || k == 2 || k == 6)) k = 3 + rnd(2);
            ++W->ops;
            if (k == 0) {
                InnerOps< H >::suspend(c, o);
                if (!W->injected && c.phase != RUNNING) fail("C02", "the coroutine continues unasked");
            } else if (k == 1) {
                tr(nm(c, "C move handle"));
                H * from = get_inner< H >(c);
                H * to = new H(std::move(*from));
                expect_bool(*from, false, "a moved-from handle");
                if (holder.own) delete holder.own;
                holder.own = to;
                set_inner< H >(c, to);
            } else if (k == 2) {
                tr(nm(c, "C destroy handle"));
                if (!holder.own) holder.own = new H(std::move(*get_inner< H >(c)));
                delete holder.own;
                holder.own = nullptr;
                c.innergone = true;
            } else if (k == 3) {
                tr(nm(c, "C return"));
                c.phase = DONE;
                return;
            } else if (k == 4) {
                long e = W->nextid++;
                tr(nm(c, "C throw"));
                c.pending = e;
                c.phase = DONE;
                throw_kind(e);
            } else if (k == 5) {
                nested(c.n);
            } else if (k == 8) {
                if (!c.calling || c.lpull || c.lpush) continue;
                tr(nm(c, "C move owning handle"));
                if (c.pull) { c.lpull = c.hpull; c.hpull = new Pull(std::move(*c.lpull)); expect_bool(*c.lpull, false, "a moved-from handle"); }
                else { c.lpush = c.hpush; c.hpush = new Push(std::move(*c.lpush)); expect_bool(*c.lpush, false, "a moved-from handle"); }
            } else if (k == 6) {
#if !defined(T_void)
                if (!c.pull) read(c, *c.ipull);
#endif
            }
        }
    } catch (ctx::detail::forced_unwind const &) {
        CHECK("C05", c.expect_unwind && c.phase == RUNNING, "forced_unwind is raised although the coroutine is not destroyed");
        c.unwound = true;
        throw;
    }
}

// ------------------------------------------------------------------ construction
template< typename H, typename I > struct Make {
    static H * make(Co & c, const char * v, Alo & a, Fn *& f, FnM *& m, FnC *& k, FnL * l, FnA * al, FnT & t) {
        void * raw = ::operator new(sizeof(H));
        try {
            if (!std::strcmp(v, "lv")) return ::new (raw) H(a, *f);
            if (!std::strcmp(v, "rv")) return ::new (raw) H(std::move(a), std::move(*f));
            if (!std::strcmp(v, "cl")) { Fn const & cf = *f; return ::new (raw) H(a, cf); }
            if (!std::strcmp(v, "def")) return ::new (raw) H(*f);
            if (!std::strcmp(v, "defrv")) return ::new (raw) H(std::move(*f));
            if (!std::strcmp(v, "pr")) {
                static const std::size_t sizes[] = { 16384, 16385, 65536, 100001, std::size_t(1) << 20, std::size_t(5) << 20 };
                std::size_t n = sizes[rnd(6)];
                return ::new (raw) H(boost::coroutines2::protected_fixedsize_stack(n), *f);
            }
            if (!std::strcmp(v, "mo")) return ::new (raw) H(a, std::move(*m));
            if (!std::strcmp(v, "bl")) return ::new (raw) H(a, *l);
            if (!std::strcmp(v, "br")) return ::new (raw) H(a, std::move(*l));
            if (!std::strcmp(v, "al")) return ::new (raw) H(a, *al);
            if (!std::strcmp(v, "tl")) return ::new (raw) H(a, t);
            if (!std::strcmp(v, "tr")) return ::new (raw) H(a, std::move(t));
            if (!std::strcmp(v, "em")) { FnE e; return ::new (raw) H(a, e); }
            if (!std::strcmp(v, "co")) return ::new (raw) H(a, *k);
            if (!std::strcmp(v, "fp")) return ::new (raw) H(a, &free_fn< I >);
            return ::new (raw) H(a, free_fn< I >);
        } catch (...) { ::operator delete(raw); throw; }
        (void)c;
    }
};
static std::string VARIANT;
static void construct(Co & c, Op const & o) {
    static const char * all[] = { "lv", "rv", "cl", "def", "defrv", "mo", "co", "fp", "fr", "bl", "br", "al", "tl", "tr", "em", "pr" };
    std::string v = VARIANT == "any" ? all[rnd(16)] : VARIANT;
    int n = c.n;
    bool pull = c.pull;
    c = Co();
    c.n = n;
    c.pull = pull;
    tr(nm(c, (STR("M new ") + v).c_str()));
    Alo a(W->nextid++, n);
    long id = W->nextid++;
    Fn * f = fresh_cls< Fn >(id);
    FnM * m = fresh_cls< FnM >(id);
    FnC * k = fresh_cls< FnC >(id);
    FnL * l = fresh_cls< FnL >(id);
    FnA * al = fresh_cls< FnA >(id);
    FnT t = { id, id ^ 0x5555 };
    bool plain = v == "fp" || v == "fr" || v == "em";
    c.fnid = id;
    c.prot = v == "pr";
    CURRENT_NEW = &c;
    if (plain) c.fnid = 0;
    W->injected = false;
    W->inject = 0;
    if (o.inj || (FORCED->empty() && rnd(6) == 0)) { W->inject = o.inj ? 1 : 1 + rnd(2); tr("(throwing)"); }
    c.construct = true;
    c.phase = pull ? RUNNING : UNSTARTED;
    ENTER = &c;
    bool made = false, byfn = false;
    Fp const fpenv;
    CURRENT_NEW = nullptr;
    try {
        if (pull) c.hpull = Make< Pull, Push >::make(c, v.c_str(), a, f, m, k, l, al, t);
        else c.hpush = Make< Push, Pull >::make(c, v.c_str(), a, f, m, k, l, al, t);
        made = true;
        arrived(c);
        disarm();
        no_handler();
        CHECK("C04", c.pending == 0, "the exception of the coroutine-function was swallowed");
    } catch (Inj const &) {
        CHECK("C04", c.pending == -1 || (W->injected && c.entered == 0), "an exception arrives that nobody threw");
        byfn = c.pending == -1;
    } catch (ctx::detail::forced_unwind const &) {
        fail("C05", "forced_unwind arrives at the resumer");
    } catch (...) {
        long e = caught_id();
        CHECK("C04", pull && c.pending == e && c.entered == 1, "exception %ld arrives, expected %ld", e, c.pending);
        byfn = true;
    }
    disarm();
    fpenv.check();
    c.pending = 0;
    W->injected = false;
    c.construct = false;
    no_handler();
    if (v == "lv" || v == "cl" || v == "def" || v == "pr") CHECK("C11", !f->check("C11").moved, "a coroutine-function passed as lvalue was moved from");
    if (v == "co") CHECK("C11", !k->check("C11").moved, "a coroutine-function passed as lvalue was moved from");
    if (made && (v == "rv" || v == "defrv")) CHECK("C11", f->check("C11").moved, "a coroutine-function passed as rvalue was not moved from");
    if (v == "bl") CHECK("C11", !l->check("C11").moved, "a coroutine-function passed as lvalue was moved from");
    if (v == "al") CHECK("C11", !al->check("C11").moved, "a coroutine-function passed as lvalue was moved from");
    if (v == "tl") CHECK("C11", t.id == id && t.chk == (id ^ 0x5555), "a coroutine-function passed as lvalue was modified");
    if (made && v == "br") CHECK("C11", l->check("C11").moved, "a coroutine-function passed as rvalue was not moved from");
    t.id = t.chk = -1;
    if (v != "rv") CHECK("C06", !a.moved, "an allocator passed as lvalue was moved from");
    dispose_cls(f);
    dispose_cls(m);
    dispose_cls(k);
    dispose_cls(l);
    dispose_cls(al);
    if (made) {
        if (pull) CHECK("C02", c.entered == 1 && (c.phase == SUSP || c.phase == DONE), "constructing a pull coroutine does not enter the function");
        else CHECK("C02", c.entered == 0 && c.phase == UNSTARTED, "constructing a push coroutine enters the function");
        return;
    }
    finish_checks(c);
    c.phase = NONE;
    std::size_t ns = 0;
    for (Stack & s : *STACKS) if (s.live && s.owner == n) ++ns;
    CHECK("C06", ns == 0, "the stack is not deallocated although construction failed");
    for (Elem::V * p : c.vars) Elem::dispose(p);
    c.vars.clear();
    if (c.keep_c) Elem::dispose(c.keep_c);
    c.keep_c = nullptr;
}

// one operation by code that owns handles; self: the running coroutine (-1: main)
static bool owner_step(Co & c, bool top) {
    Op o{ 'M', "", false };
    int k;
    ++W->ops;
    bool f = top && forced('M', o);
    if (c.phase == NONE) {
        if (f && o.name.compare(0, 3, "new")) return true;
        construct(c, o);
        return true;
    }
    if (f) {
        k = o.name == "call" || o.name == "it" ? 0 : o.name == "mv" || o.name == "as" ? 1 : o.name == "del" ? 2 : o.name == "assign" ? 3 : o.name == "get" ? 4 : 5;
    } else {
        static const int w[] = { 0, 0, 0, 0, 0, 0, 0, 1, 1, 2, 3, 4 };
        k = LONG ? 0 : w[rnd(12)];
    }
    if (FORCED->empty() || FPOS >= FORCED->size()) observe_owner(c);
    switch (k) {
    case 0: if (usable(c)) op_call(c, o); break;
    case 1: op_mv(c); break;
    case 2: destroy_owner(c, 0); break;
    case 3: destroy_owner(c, 1); break;
    case 4:
#if !defined(T_void)
        if (c.pull && usable(c)) read(c, *c.hpull);
#endif
        break;
    default: break;
    }
    if (c.phase != NONE && (FORCED->empty() || FPOS >= FORCED->size())) observe_owner(c);
    return true;
}
static bool nested(int self) {
    if (NCO < 2) return false;
    int i = rnd(NCO);
    if (i == self || CO[i].phase == RUNNING) return false;
    tr("nested");
    owner_step(CO[i], false);
    return true;
}
static void observe_pair(Co & a, Co & b) {
#if !defined(T_void)
    if (a.pull != b.pull || a.phase != SUSP || b.phase != SUSP) return;
    const char * what = "iterators of two unfinished coroutines compare equal";
    if (a.pull) {
        auto i = a.hpull->begin();
        auto j = b.hpull->begin();
        CHECK("C09", !(i == j) && i != j, "%s", what);
    } else {
#if !defined(T_mov)
        using boost::coroutines2::detail::begin;
        auto i = begin(*a.hpush);
        auto j = begin(*b.hpush);
        CHECK("C09", !(i == j) && i != j, "%s", what);
#endif
    }
#endif
}
static void one(bool pull, int nco, unsigned long seed, std::vector< Op > & forcedops) {
    World w;
    W = &w;
    w.rng = seed * 0x9e3779b97f4a7c15ul + 12345;
    std::vector< Stack > st;
    STACKS = &st;
    std::vector< Op > fo = forcedops;
    FORCED = &fo;
    FPOS = 0;
    std::vector< Co > co(nco);
    CO = co.data();
    NCO = nco;
    for (int i = 0; i < nco; ++i) { co[i].n = i; co[i].pull = nco > 1 && i ? rnd(2) : pull; }
    LONG = nco == 1 && seed % 1024 == 512 ? 70000 : 0;
    int steps = LONG ? LONG + 10 : 3 + rnd(14) + int(fo.size());
    for (int i = 0; i < steps; ++i) {
        int j = !fo.empty() && FPOS < fo.size() ? 0 : rnd(nco);
        owner_step(co[j], true);
        if (nco > 1) observe_pair(co[0], co[1]);
    }
    for (int i = nco; i-- > 0; ) if (co[i].phase != NONE) destroy_owner(co[i], 0);
    for (auto & o : w.objs)
        fail(o.second.cls[0] == 'F' ? "C11" : !std::strcmp(o.second.cls, "Alo") ? "C06" : !std::strcmp(o.second.cls, "Exc") ? "C04" : "C07",
             "%s object %ld is never destroyed", o.second.cls, o.second.id);
    W = nullptr;
}

struct Arg { bool pull; int nco; unsigned long s0, n; std::vector< Op > ops; };
// every fourth history takes place in a destructor while the stack is being unwound
struct During { Arg & a; unsigned long s; ~During() noexcept(false) { one(a.pull, a.nco, s, a.ops); } };
static void any_time(Arg & a, unsigned long s) {
    std::fesetround(FE_UPWARD);
    if (s % 4 != 3) return one(a.pull, a.nco, s, a.ops);
    try { During d{ a, s }; throw 1; } catch (int) { }
}
static void * work(void * p) {
    Arg & a = *static_cast< Arg * >(p);
    for (unsigned long s = a.s0; s < a.s0 + a.n; ++s) any_time(a, s);
    return nullptr;
}
int main(int argc, char ** argv) {
    if (argc < 6) return 2;
    Arg a;
    a.pull = !std::strcmp(argv[1], "pull");
    VARIANT = argv[2];
    a.s0 = std::strtoul(argv[3], nullptr, 10);
    a.n = std::strtoul(argv[4], nullptr, 10);
    a.nco = std::atoi(argv[5]);
    if (argc > 6) {
        std::string s = argv[6];
        std::size_t i = 0;
        while (i < s.size()) {
            std::size_t e = s.find(';', i);
            if (e == std::string::npos) e = s.size();
            std::string t = s.substr(i, e - i);
            i = e + 1;
            if (t.size() < 3) continue;
            bool inj = t[t.size() - 1] == '!';
            if (inj) t.erase(t.size() - 1);
            a.ops.push_back(Op{ t[0], t.substr(2), inj });
        }
    }
    int threads = argc > 7 ? std::atoi(argv[7]) : 1;
    stack_t ss;
    ss.ss_sp = std::malloc(1 << 16);
    ss.ss_size = 1 << 16;
    ss.ss_flags = 0;
    ::sigaltstack(&ss, nullptr);
    struct sigaction sa;
    std::memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : { SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGALRM }) ::sigaction(s, &sa, nullptr);
    std::set_terminate(on_terminate);
    if (threads > 1) {
        std::vector< pthread_t > th(threads);
        std::deque< Arg > as(threads, a);
        ::alarm(20);
        for (int i = 0; i < threads; ++i) { as[i].s0 += i * 1000003ul; ::pthread_create(&th[i], nullptr, work, &as[i]); }
        for (int i = 0; i < threads; ++i) ::pthread_join(th[i], nullptr);
    } else {
        for (unsigned long s = a.s0; s < a.s0 + a.n; ++s) { SEED = s; if ((s & 255) == 0 || s == a.s0) ::alarm(10); any_time(a, s); }
    }
    std::printf("OK %lu histories\n", a.n);
    return 0;
}
