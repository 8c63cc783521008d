// The element types, coroutine-functions and the stack allocator of the
// verified instantiations: declared only, known to the verifier by contract.
// (the standard headers a change of the library may come to rely on)
#include <algorithm>
#include <array>
#include <atomic>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <mutex>
#include <new>
#include <stdexcept>
#include <string>
#include <system_error>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#if __cplusplus >= 201703L
#include <any>
#include <optional>
#include <variant>
#endif
#include <boost/coroutine2/all.hpp>

using boost::coroutines2::coroutine;

#define OPAQUE_COMMON(X, N)                                                   \
    unsigned char b[N];                                                       \
    ~X();                                                                     \
    X * operator&() const;                                                    \
    static void * operator new(std::size_t);                                  \
    static void * operator new(std::size_t, void *);                          \
    static void operator delete(void *);                                      \
    static void operator delete(void *, void *);                              \
    void operator,(X const &);

struct Val {    // copy and move may throw
    OPAQUE_COMMON(Val, 24)
    Val();
    Val(Val const &);
    Val(Val &&);
    Val(std::initializer_list< Val >);
    Val & operator=(Val const &);
    Val & operator=(Val &&);
};
struct Big {    // larger than any small buffer; move does not throw
    OPAQUE_COMMON(Big, 200)
    Big();
    Big(Big const &);
    Big(Big &&) noexcept;
    Big & operator=(Big const &);
    Big & operator=(Big &&) noexcept;
};
struct Mov {    // move-only
    OPAQUE_COMMON(Mov, 16)
    Mov();
    Mov(Mov const &) = delete;
    Mov(Mov &&) noexcept;
    Mov & operator=(Mov const &) = delete;
    Mov & operator=(Mov &&) noexcept;
};
struct Cpy {    // copy-only
    OPAQUE_COMMON(Cpy, 8)
    Cpy();
    Cpy(Cpy const &);
    Cpy & operator=(Cpy const &);
};
struct alignas(128) Ali {   // over-aligned
    OPAQUE_COMMON(Ali, 128)
    Ali();
    Ali(Ali const &);
    Ali(Ali &&) noexcept;
    Ali & operator=(Ali const &);
    Ali & operator=(Ali &&) noexcept;
};
struct Tdt {    // trivially destructible, but copied and moved by user code
    unsigned char b[16];
    Tdt();
    Tdt(Tdt const &);
    Tdt(Tdt &&) noexcept;
    Tdt & operator=(Tdt const &);
    Tdt & operator=(Tdt &&) noexcept;
};
struct Ncp final {    // small, nothing throws; no default constructor, no assignment
    OPAQUE_COMMON(Ncp, 8)
    Ncp(Ncp const &) noexcept;
    Ncp(Ncp &&) noexcept;
    Ncp & operator=(Ncp const &) = delete;
    Ncp & operator=(Ncp &&) = delete;
};
struct Tri {    // trivially copyable aggregate
    int a;
    double d;
    char c;
};
struct Wid {    // trivially copyable, larger than a cache line
    long w[20];
};
struct Hug {    // trivially copyable, larger than a page
    long w[640];
};
struct alignas(16) Al1 { long w[2]; };
struct alignas(64) Al6 { long w[8]; };
struct P12 { int a, b, c; };           // larger than a word, not a multiple of it
struct Odd { unsigned char b[67]; };   // no alignment, no round size
struct Emp {    // empty, trivially copyable
};
enum class Enu : unsigned char { x, y };

struct Fn {     // coroutine-function: copyable, movable, anything may throw
    unsigned char b[32];
    Fn(Fn const &);
    Fn(Fn &&);
    ~Fn();
    Fn & operator=(Fn const &);
    Fn & operator=(Fn &&);
    template< typename H > void operator()(H & h);
};
struct FnM {    // move-only coroutine-function
    unsigned char b[16];
    FnM(FnM const &) = delete;
    FnM(FnM &&) noexcept;
    ~FnM();
    template< typename H > void operator()(H & h);
};
struct FnC {    // copy-only coroutine-function
    unsigned char b[16];
    FnC(FnC const &);
    ~FnC();
    template< typename H > void operator()(H & h);
};
struct FnL {    // large coroutine-function, movable without throwing
    unsigned char b[256];
    FnL(FnL const &);
    FnL(FnL &&) noexcept;
    ~FnL();
    template< typename H > void operator()(H & h);
};
struct alignas(64) FnA {    // over-aligned coroutine-function
    unsigned char b[64];
    FnA(FnA const &);
    FnA(FnA &&) noexcept;
    ~FnA();
    template< typename H > void operator()(H & h);
};
struct FnT {    // trivially copyable coroutine-function (a lambda with captures)
    unsigned long w[2];
    template< typename H > void operator()(H & h);
};
struct FnE {    // empty coroutine-function (a lambda without captures)
    template< typename H > void operator()(H & h);
};
template< typename H > void fnfree(H & h);

struct Alo {    // stack allocator
    unsigned char b[8];
    Alo(Alo const &) noexcept;
    Alo(Alo &&) noexcept;
    ~Alo();
    boost::context::stack_context allocate();
    void deallocate(boost::context::stack_context &) noexcept;
};
