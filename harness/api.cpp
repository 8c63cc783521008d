// Instantiates the library for a set of representative element types and
// exposes each public operation under a fixed name.  Every wrapper is one
// expression: the verified text is the library's own code, compiled from
// /repo/include on every run.  The classes below are declared only: the
// verifier supplies their contracts (arbitrary user code).
#include "classes.hpp"

#define API extern "C"
#define C2(a, b) a##b
#define N(p, n) C2(p, n)

#define CONSTRUCT(p, X)                                                                            \
    API void N(p, _new_lv)(X * h, Alo * a, Fn * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_rv)(X * h, Alo * a, Fn * f) { ::new (static_cast< void * >(h)) X(std::move(*a), std::move(*f)); } \
    API void N(p, _new_cl)(X * h, Alo * a, Fn const * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_def)(X * h, Fn * f) { ::new (static_cast< void * >(h)) X(*f); }             \
    API void N(p, _new_defrv)(X * h, Fn * f) { ::new (static_cast< void * >(h)) X(std::move(*f)); } \
    API void N(p, _new_pr)(X * h, Fn * f) { ::new (static_cast< void * >(h)) X(boost::coroutines2::protected_fixedsize_stack(), *f); } \
    API void N(p, _new_prs)(X * h, Fn * f, std::size_t n) { ::new (static_cast< void * >(h)) X(boost::coroutines2::protected_fixedsize_stack( n), *f); } \
    API void N(p, _new_mo)(X * h, Alo * a, FnM * f) { ::new (static_cast< void * >(h)) X(*a, std::move(*f)); } \
    API void N(p, _new_bl)(X * h, Alo * a, FnL * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_br)(X * h, Alo * a, FnL * f) { ::new (static_cast< void * >(h)) X(*a, std::move(*f)); } \
    API void N(p, _new_al)(X * h, Alo * a, FnA * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_tl)(X * h, Alo * a, FnT * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_tr)(X * h, Alo * a, FnT * f) { ::new (static_cast< void * >(h)) X(*a, std::move(*f)); } \
    API void N(p, _new_em)(X * h, Alo * a, FnE * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _new_co)(X * h, Alo * a, FnC * f) { ::new (static_cast< void * >(h)) X(*a, *f); } \
    API void N(p, _del)(X * h) { h->~X(); }                                                        \
    API void N(p, _mv)(X * d, X * s) { ::new (static_cast< void * >(d)) X(std::move(*s)); }         \
    API X * N(p, _as)(X * d, X * s) { return std::addressof(*d = std::move(*s)); }                 \
    API bool N(p, _bool)(X const * h) { return static_cast< bool >(*h); }                          \
    API bool N(p, _not)(X const * h) { return !*h; }                                               \
    API unsigned long N(p, _sizeof)() { return sizeof(X); }

#define FREEFN(p, X, Y)                                                                            \
    API void N(p, _new_fp)(X * h, Alo * a) { ::new (static_cast< void * >(h)) X(*a, &fnfree< Y >); } \
    API void N(p, _new_fr)(X * h, Alo * a) { ::new (static_cast< void * >(h)) X(*a, fnfree< Y >); }

#define ITER_PULL(p, X, E)                                                                         \
    API void N(p, _it_begin)(X * h, X::iterator * i) { ::new (static_cast< void * >(i)) X::iterator(h->begin()); } \
    API void N(p, _it_end)(X * h, X::iterator * i) { ::new (static_cast< void * >(i)) X::iterator(h->end()); } \
    API void N(p, _it_fbegin)(X * h, X::iterator * i) { using boost::coroutines2::detail::begin; ::new (static_cast< void * >(i)) X::iterator(begin(*h)); } \
    API void N(p, _it_fend)(X * h, X::iterator * i) { using boost::coroutines2::detail::end; ::new (static_cast< void * >(i)) X::iterator(end(*h)); } \
    API void N(p, _it_def)(X::iterator * i) { ::new (static_cast< void * >(i)) X::iterator(); }    \
    API X::iterator * N(p, _it_inc)(X::iterator * i) { return std::addressof(++*i); }              \
    API void N(p, _it_post)(X::iterator * i) { (*i)++; }                                           \
    API bool N(p, _it_eq)(X::iterator const * i, X::iterator const * j) { return *i == *j; }       \
    API bool N(p, _it_ne)(X::iterator const * i, X::iterator const * j) { return *i != *j; }       \
    API E * N(p, _it_deref)(X::iterator const * i) { return std::addressof(**i); }                 \
    API E * N(p, _it_arrow)(X::iterator const * i) { return i->operator->(); }

#define ITER_PUSH(p, X)                                                                            \
    API void N(p, _it_begin)(X * h, X::iterator * i) { using boost::coroutines2::detail::begin; ::new (static_cast< void * >(i)) X::iterator(begin(*h)); } \
    API void N(p, _it_end)(X * h, X::iterator * i) { using boost::coroutines2::detail::end; ::new (static_cast< void * >(i)) X::iterator(end(*h)); } \
    API void N(p, _it_def)(X::iterator * i) { ::new (static_cast< void * >(i)) X::iterator(); }    \
    API X::iterator * N(p, _it_star)(X::iterator * i) { return std::addressof(**i); }              \
    API X::iterator * N(p, _it_inc)(X::iterator * i) { return std::addressof(++*i); }              \
    API bool N(p, _it_eq)(X::iterator const * i, X::iterator const * j) { return *i == *j; }       \
    API bool N(p, _it_ne)(X::iterator const * i, X::iterator const * j) { return *i != *j; }

#define PULLBASE(n, T)                                                                             \
    typedef coroutine< T >::pull_type N(P_, n);                                                    \
    typedef coroutine< T >::push_type N(Q_, n);                                                    \
    CONSTRUCT(N(n, _pull), N(P_, n))                                                               \
    CONSTRUCT(N(n, _push), N(Q_, n))                                                               \
    FREEFN(N(n, _pull), N(P_, n), N(Q_, n))                                                        \
    FREEFN(N(n, _push), N(Q_, n), N(P_, n))                                                        \
    API N(P_, n) * C2(n, _pull_call)(N(P_, n) * h) { return std::addressof((*h)()); }

#define VALUE_BASE(n, T)                                                                           \
    PULLBASE(n, T)                                                                                 \
    ITER_PULL(C2(n, _pull), N(P_, n), T)                                                           \
    API void C2(n, _pull_get)(N(P_, n) * h, T * out) { ::new (static_cast< void * >(out)) T(h->get()); } \
    API N(Q_, n) * C2(n, _push_callm)(N(Q_, n) * h, T * t) { return std::addressof((*h)(std::move(*t))); }

#define VALUE(n, T)                                                                                \
    VALUE_BASE(n, T)                                                                               \
    ITER_PUSH(C2(n, _push), N(Q_, n))                                                              \
    API N(Q_, n) * C2(n, _push_callc)(N(Q_, n) * h, T const * t) { return std::addressof((*h)(*t)); } \
    API N(Q_, n) * C2(n, _push_calll)(N(Q_, n) * h, T * t) { return std::addressof((*h)(*t)); }    \
    API N(Q_, n)::iterator * C2(n, _push_it_assign)(N(Q_, n)::iterator * i, T const * t) { return std::addressof(*i = *t); }

#define REFERENCE(n, T)                                                                            \
    PULLBASE(n, T &)                                                                               \
    ITER_PULL(C2(n, _pull), N(P_, n), T)                                                           \
    API T * C2(n, _pull_get)(N(P_, n) * h) { return std::addressof(h->get()); }                    \
    ITER_PUSH(C2(n, _push), N(Q_, n))                                                              \
    API N(Q_, n) * C2(n, _push_calll)(N(Q_, n) * h, T * t) { return std::addressof((*h)(*t)); }    \
    API N(Q_, n)::iterator * C2(n, _push_it_assign)(N(Q_, n)::iterator * i, T * t) { return std::addressof(*i = *t); }

#include "types.hpp"
#ifdef T_void
API Q_void * void_push_call(Q_void * h) { return std::addressof((*h)()); }
#endif
