/* The library is written for gcc, whose atomic_xxx generics also accept plain objects; clang's do not. */
#ifndef __cplusplus
#include <stdatomic.h>
#ifndef VP_POINT
#define VP_POINT(p) ((void) 0)
#endif
#define VP_T(p) __typeof__ (((void) 0, *(p)))
#undef atomic_load
#undef atomic_store
#undef atomic_fetch_add
#undef atomic_fetch_sub
#undef atomic_exchange
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_strong
#undef atomic_load_explicit
#undef atomic_store_explicit
#undef atomic_fetch_add_explicit
#undef atomic_fetch_sub_explicit
#undef atomic_exchange_explicit
#undef atomic_compare_exchange_weak_explicit
#undef atomic_compare_exchange_strong_explicit
#define atomic_load(p) (VP_POINT (p), __atomic_load_n ((VP_T (p) *) (p), __ATOMIC_SEQ_CST))
#define atomic_store(p, v) (VP_POINT (p), __atomic_store_n ((VP_T (p) *) (p), (v), __ATOMIC_SEQ_CST))
#define atomic_fetch_add(p, v) (VP_POINT (p), __atomic_fetch_add ((VP_T (p) *) (p), (v), __ATOMIC_SEQ_CST))
#define atomic_fetch_sub(p, v) (VP_POINT (p), __atomic_fetch_sub ((VP_T (p) *) (p), (v), __ATOMIC_SEQ_CST))
#define atomic_exchange(p, v) (VP_POINT (p), __atomic_exchange_n ((VP_T (p) *) (p), (v), __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_strong(p, e, v) (VP_POINT (p), __atomic_compare_exchange_n ((VP_T (p) *) (p), (e), (v), 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST))
#define atomic_compare_exchange_weak(p, e, v) atomic_compare_exchange_strong (p, e, v)
#define atomic_load_explicit(p, o) atomic_load (p)
#define atomic_store_explicit(p, v, o) atomic_store (p, v)
#define atomic_fetch_add_explicit(p, v, o) atomic_fetch_add (p, v)
#define atomic_fetch_sub_explicit(p, v, o) atomic_fetch_sub (p, v)
#define atomic_exchange_explicit(p, v, o) atomic_exchange (p, v)
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b) atomic_compare_exchange_strong (p, e, v)
#define atomic_compare_exchange_strong_explicit(p, e, v, a, b) atomic_compare_exchange_strong (p, e, v)
#endif
