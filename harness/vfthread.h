// Included before everything else in the native replay of threaded harnesses: the calls at which the symbolic executor may
// switch threads go to baton.cpp, which makes the same choices in the same order.
#pragma once
#include <pthread.h>
extern "C" { int vfp_mutex_lock(pthread_mutex_t*); int vfp_mutex_trylock(pthread_mutex_t*); int vfp_mutex_unlock(pthread_mutex_t*); int vfp_mutex_init(pthread_mutex_t*, const pthread_mutexattr_t*); int vfp_mutex_destroy(pthread_mutex_t*);
int vfp_cond_init(pthread_cond_t*, const pthread_condattr_t*); int vfp_cond_destroy(pthread_cond_t*); int vfp_cond_wait(pthread_cond_t*, pthread_mutex_t*); int vfp_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, const struct timespec*); int vfp_cond_signal(pthread_cond_t*); int vfp_cond_broadcast(pthread_cond_t*); void vf_yield(void); }
#ifndef VF_BATON
#define pthread_mutex_lock vfp_mutex_lock
#define pthread_mutex_trylock vfp_mutex_trylock
#define pthread_mutex_unlock vfp_mutex_unlock
#define pthread_mutex_init vfp_mutex_init
#define pthread_mutex_destroy vfp_mutex_destroy
#define pthread_cond_init vfp_cond_init
#define pthread_cond_destroy vfp_cond_destroy
#define pthread_cond_wait vfp_cond_wait
#define pthread_cond_timedwait vfp_cond_timedwait
#define pthread_cond_signal vfp_cond_signal
#define pthread_cond_broadcast vfp_cond_broadcast
#ifndef VF_NOATOMIC
#define __atomic_fetch_add(p, v, o) (vf_yield(), __atomic_fetch_add(p, v, o))
#define __atomic_fetch_sub(p, v, o) (vf_yield(), __atomic_fetch_sub(p, v, o))
#define __atomic_add_fetch(p, v, o) (vf_yield(), __atomic_add_fetch(p, v, o))
#define __atomic_sub_fetch(p, v, o) (vf_yield(), __atomic_sub_fetch(p, v, o))
#define __atomic_load_n(p, o) (vf_yield(), __atomic_load_n(p, o))
#define __atomic_store_n(p, v, o) (vf_yield(), __atomic_store_n(p, v, o))
#define __atomic_exchange_n(p, v, o) (vf_yield(), __atomic_exchange_n(p, v, o))
#define __atomic_compare_exchange_n(p, e, v, w, o, q) (vf_yield(), __atomic_compare_exchange_n(p, e, v, w, o, q))
#endif
#endif
