// Obligations on types, decided by the compiler's type checker for every
// instantiation: FACT(name, expression).  Compiled into constants by the checks
// (the verdict is read from the constant), and with -DSTATIC into static_asserts
// for a replay with g++.
#include "classes.hpp"

#define C2(a, b) a##b
#ifdef STATIC
#define FACT(n, side, name, ...) static_assert((__VA_ARGS__), #n " " #side " " #name);
#else
#define FACT(n, side, name, ...) extern "C" unsigned char const fact_##n##__##side##__##name = (__VA_ARGS__) ? 1 : 0;
#endif

template< typename ... > struct voider { typedef void type; };
template< typename H, typename A, typename = void > struct can_push : std::false_type {};
template< typename H, typename A >
struct can_push< H, A, typename voider< decltype(std::declval< H & >()(std::declval< A >())) >::type > : std::true_type {};
template< typename I, typename A, typename = void > struct can_out : std::false_type {};
template< typename I, typename A >
struct can_out< I, A, typename voider< decltype(*std::declval< I & >() = std::declval< A >()) >::type > : std::true_type {};
template< typename H >
struct get_of { typedef decltype(std::declval< H & >().get()) type; };
template< typename I >
struct deref_of { typedef decltype(*std::declval< I & >()) type; };
template< typename I >
struct arrow_of { typedef decltype(std::declval< I & >().operator->()) type; };
template< typename A, typename B > struct same : std::is_same< A, B > {};
template< typename H, typename = void > struct can_test : std::false_type {};
template< typename H >
struct can_test< H, typename voider< decltype(static_cast< bool >(std::declval< H const & >())), decltype(!std::declval< H const & >()) >::type > : std::true_type {};
// a handle is the only owner of its coroutine: it cannot be copied, not even
// from a non-const lvalue (the constructor from a callable must not match)
#define HANDLE(n, side, H)                                                                              \
    FACT(n, side, not_copyable, !std::is_constructible< H, H const & >::value && !std::is_constructible< H, H & >::value \
            && !std::is_constructible< H, H const && >::value)                                          \
    FACT(n, side, not_copy_assignable, !std::is_assignable< H &, H const & >::value && !std::is_assignable< H &, H & >::value) \
    FACT(n, side, move_noexcept, std::is_nothrow_move_constructible< H >::value && std::is_nothrow_move_assignable< H >::value) \
    FACT(n, side, testable_const, can_test< H >::value)

#define HANDLES(n, T)                                                                                   \
    typedef coroutine< T >::pull_type C2(P_, n);                                                        \
    typedef coroutine< T >::push_type C2(Q_, n);                                                        \
    HANDLE(n, pull, C2(P_, n))                                                                          \
    HANDLE(n, push, C2(Q_, n))

#define ITERATORS(n, T)                                                                                 \
    typedef C2(P_, n)::iterator C2(I_, n);                                                              \
    typedef C2(Q_, n)::iterator C2(J_, n);                                                              \
    FACT(n, pull, single_pass, std::is_convertible< std::iterator_traits< C2(I_, n) >::iterator_category, std::input_iterator_tag >::value \
            && !std::is_convertible< std::iterator_traits< C2(I_, n) >::iterator_category, std::forward_iterator_tag >::value) \
    FACT(n, pull, iterator_value, same< std::remove_cv< std::iterator_traits< C2(I_, n) >::value_type >::type, \
            std::remove_cv< std::remove_reference< T >::type >::type >::value)                          \
    FACT(n, pull, iterator_reference, same< std::iterator_traits< C2(I_, n) >::reference, deref_of< C2(I_, n) >::type >::value) \
    FACT(n, push, output_only, std::is_convertible< std::iterator_traits< C2(J_, n) >::iterator_category, std::output_iterator_tag >::value \
            && !std::is_convertible< std::iterator_traits< C2(J_, n) >::iterator_category, std::input_iterator_tag >::value)

#define VALUE_BASE(n, T)                                                                                \
    HANDLES(n, T)                                                                                       \
    ITERATORS(n, T)                                                                                     \
    FACT(n, pull, get_value, same< std::remove_cv< std::remove_reference< get_of< C2(P_, n) >::type >::type >::type, T >::value) \
    FACT(n, push, takes_rvalue, can_push< C2(Q_, n), T && >::value && can_out< C2(J_, n), T && >::value)

#define VALUE(n, T)                                                                                     \
    VALUE_BASE(n, T)                                                                                    \
    FACT(n, push, takes_lvalue, can_push< C2(Q_, n), T const & >::value && can_push< C2(Q_, n), T & >::value && can_out< C2(J_, n), T const & >::value)

// identity and constness of the object referred to are preserved; nothing that
// is not such an object is accepted
#define REFERENCE(n, T)                                                                                 \
    HANDLES(n, T &)                                                                                     \
    ITERATORS(n, T &)                                                                                   \
    FACT(n, pull, get_reference, same< get_of< C2(P_, n) >::type, T & >::value)                         \
    FACT(n, pull, deref_reference, same< deref_of< C2(I_, n) >::type, T & >::value)                     \
    FACT(n, pull, arrow_pointer, same< arrow_of< C2(I_, n) >::type, T * >::value)                       \
    FACT(n, push, keeps_const, std::is_const< T >::value || !(can_push< C2(Q_, n), std::add_const< T >::type & >::value || can_out< C2(J_, n), std::add_const< T >::type & >::value)) \
    FACT(n, push, takes_reference, can_push< C2(Q_, n), T & >::value && can_out< C2(J_, n), T & >::value) \
    FACT(n, push, no_conversion, !can_push< C2(Q_, n), short & >::value && !can_out< C2(J_, n), short & >::value || std::is_const< T >::value)

#define PULLBASE(n, T) HANDLES(n, T)
#include "types.hpp"
