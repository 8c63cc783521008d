// Where the members the function contracts (vcg/contracts.py) speak about lie:
// (offset, size) pairs, as constants.  Compiled apart from the verified code,
// with -fno-access-control; nothing of it is executed or verified.
#include "classes.hpp"

#define C2(a, b) a##b
#define M(C, f) __builtin_offsetof(C, f), sizeof(C::f)
#define HANDLES(n, T)                                                                              \
    typedef coroutine< T >::pull_type C2(P_, n);                                                   \
    typedef coroutine< T >::push_type C2(Q_, n);                                                   \
    typedef C2(P_, n)::control_block C2(PC_, n);                                                   \
    typedef C2(Q_, n)::control_block C2(QC_, n);                                                   \
    extern "C" {                                                                                   \
    extern unsigned long const C2(n, _pull_handle)[] = { sizeof(C2(P_, n)), M(C2(P_, n), cb_) };   \
    extern unsigned long const C2(n, _push_handle)[] = { sizeof(C2(Q_, n)), M(C2(Q_, n), cb_) };   \
    extern unsigned long const C2(n, _push_cb)[] = { sizeof(C2(QC_, n)), M(C2(QC_, n), c), M(C2(QC_, n), other), M(C2(QC_, n), state), M(C2(QC_, n), except) }; \
    extern unsigned long const C2(n, _state)[] = { (unsigned long)boost::coroutines2::detail::state_t::none, (unsigned long)boost::coroutines2::detail::state_t::complete, (unsigned long)boost::coroutines2::detail::state_t::unwind, (unsigned long)boost::coroutines2::detail::state_t::destroy }; \
    }
#define VALUE(n, T)                                                                                \
    HANDLES(n, T)                                                                                  \
    extern "C" {                                                                                   \
    extern unsigned long const C2(n, _pull_cb)[] = { sizeof(C2(PC_, n)), M(C2(PC_, n), c), M(C2(PC_, n), other), M(C2(PC_, n), state), M(C2(PC_, n), except), M(C2(PC_, n), bvalid), M(C2(PC_, n), storage) }; \
    extern unsigned long const C2(n, _pull_iter)[] = { sizeof(C2(P_, n)::iterator), M(C2(P_, n)::iterator, c_) }; \
    extern unsigned long const C2(n, _push_iter)[] = { sizeof(C2(Q_, n)::iterator), M(C2(Q_, n)::iterator, c_) }; \
    }
#define VOID(n, T)                                                                                 \
    HANDLES(n, T)                                                                                  \
    extern "C" {                                                                                   \
    extern unsigned long const C2(n, _pull_cb)[] = { sizeof(C2(PC_, n)), M(C2(PC_, n), c), M(C2(PC_, n), other), M(C2(PC_, n), state), M(C2(PC_, n), except) }; \
    }
#define VALUE_BASE VALUE
#define REFERENCE(n, T) VALUE(n, T &)
#define PULLBASE(n, T) VOID(n, T)
#include "types.hpp"
