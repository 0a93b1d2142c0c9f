/* Forced into every library source of the sch variants: threads, locks, conditions, clock and sleeps go to the
   deterministic scheduler in vsched.cpp; memory accesses and atomics are preemption points. */
#ifndef __cplusplus
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <errno.h>
#include <semaphore.h>
#include <sys/time.h>
extern void vs_atomic_point (const volatile void * p);
extern int vs_mutex_init (pthread_mutex_t *, const pthread_mutexattr_t *);
extern int vs_mutex_destroy (pthread_mutex_t *);
extern int vs_mutex_lock (pthread_mutex_t *);
extern int vs_mutex_trylock (pthread_mutex_t *);
extern int vs_mutex_timedlock (pthread_mutex_t *, const struct timespec *);
extern int vs_mutex_unlock (pthread_mutex_t *);
extern int vs_cond_init (pthread_cond_t *, const pthread_condattr_t *);
extern int vs_cond_destroy (pthread_cond_t *);
extern int vs_cond_wait (pthread_cond_t *, pthread_mutex_t *);
extern int vs_cond_timedwait (pthread_cond_t *, pthread_mutex_t *, const struct timespec *);
extern int vs_cond_signal (pthread_cond_t *);
extern int vs_cond_broadcast (pthread_cond_t *);
extern int vs_rwlock_init (pthread_rwlock_t *, const pthread_rwlockattr_t *);
extern int vs_rwlock_destroy (pthread_rwlock_t *);
extern int vs_rwlock_rdlock (pthread_rwlock_t *);
extern int vs_rwlock_tryrdlock (pthread_rwlock_t *);
extern int vs_rwlock_wrlock (pthread_rwlock_t *);
extern int vs_rwlock_trywrlock (pthread_rwlock_t *);
extern int vs_rwlock_unlock (pthread_rwlock_t *);
extern int vs_spin_init (pthread_spinlock_t *, int);
extern int vs_spin_destroy (pthread_spinlock_t *);
extern int vs_spin_lock (pthread_spinlock_t *);
extern int vs_spin_trylock (pthread_spinlock_t *);
extern int vs_spin_unlock (pthread_spinlock_t *);
extern int vs_once (pthread_once_t *, void (*) (void));
extern int vs_cond_clockwait (pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *);
extern int vs_sem_init (sem_t *, int, unsigned);
extern int vs_sem_destroy (sem_t *);
extern int vs_sem_wait (sem_t *);
extern int vs_sem_trywait (sem_t *);
extern int vs_sem_timedwait (sem_t *, const struct timespec *);
extern int vs_sem_post (sem_t *);
extern int vs_sem_getvalue (sem_t *, int *);
extern int vs_create (pthread_t *, const pthread_attr_t *, void * (*) (void *), void *);
extern int vs_join (pthread_t, void **);
extern int vs_detach (pthread_t);
extern pthread_t vs_self (void);
extern int vs_equal (pthread_t, pthread_t);
extern int vs_getschedparam (pthread_t, int *, struct sched_param *);
extern int vs_setschedparam (pthread_t, int, const struct sched_param *);
extern int vs_setname (pthread_t, const char *);
extern int vs_clock_gettime (clockid_t, struct timespec *);
extern int vs_gettimeofday (struct timeval *, void *);
extern time_t vs_time (time_t *);
extern int vs_nanosleep (const struct timespec *, struct timespec *);
extern int vs_clock_nanosleep (clockid_t, int, const struct timespec *, struct timespec *);
extern int vs_usleep (unsigned);
extern unsigned vs_sleep (unsigned);
extern int vs_yield (void);
#include <sys/random.h>
extern int vs_spurious_cas (void);
extern ssize_t vs_getrandom (void *, size_t, unsigned);
#undef VP_POINT
#define getrandom vs_getrandom
#undef atomic_compare_exchange_weak
#undef atomic_compare_exchange_weak_explicit
#define atomic_compare_exchange_weak(p, e, v) (vs_spurious_cas () ? (*(e) = atomic_load (p), 0) : atomic_compare_exchange_strong (p, e, v))
#define atomic_compare_exchange_weak_explicit(p, e, v, a, b) atomic_compare_exchange_weak (p, e, v)
#define VP_POINT(p) vs_atomic_point ((const volatile void *) (p))
#define pthread_mutex_init vs_mutex_init
#define pthread_mutex_destroy vs_mutex_destroy
#define pthread_mutex_lock vs_mutex_lock
#define pthread_mutex_trylock vs_mutex_trylock
#define pthread_mutex_timedlock vs_mutex_timedlock
#define pthread_mutex_unlock vs_mutex_unlock
#define pthread_cond_init vs_cond_init
#define pthread_cond_destroy vs_cond_destroy
#define pthread_cond_wait vs_cond_wait
#define pthread_cond_timedwait vs_cond_timedwait
#define pthread_cond_signal vs_cond_signal
#define pthread_cond_broadcast vs_cond_broadcast
#define pthread_rwlock_init vs_rwlock_init
#define pthread_rwlock_destroy vs_rwlock_destroy
#define pthread_rwlock_rdlock vs_rwlock_rdlock
#define pthread_rwlock_tryrdlock vs_rwlock_tryrdlock
#define pthread_rwlock_wrlock vs_rwlock_wrlock
#define pthread_rwlock_trywrlock vs_rwlock_trywrlock
#define pthread_rwlock_unlock vs_rwlock_unlock
#define pthread_spin_init vs_spin_init
#define pthread_spin_destroy vs_spin_destroy
#define pthread_spin_lock vs_spin_lock
#define pthread_spin_trylock vs_spin_trylock
#define pthread_spin_unlock vs_spin_unlock
#define pthread_once vs_once
#define pthread_cond_clockwait vs_cond_clockwait
#define pthread_mutex_clocklock(m, c, t) vs_mutex_timedlock (m, t)
#define sem_init vs_sem_init
#define sem_destroy vs_sem_destroy
#define sem_wait vs_sem_wait
#define sem_trywait vs_sem_trywait
#define sem_timedwait vs_sem_timedwait
#define sem_post vs_sem_post
#define sem_getvalue vs_sem_getvalue
#define pthread_create vs_create
#define pthread_join vs_join
#define pthread_detach vs_detach
#define pthread_self vs_self
#define pthread_equal vs_equal
#define pthread_getschedparam vs_getschedparam
#define pthread_setschedparam vs_setschedparam
#define pthread_setname_np vs_setname
#define clock_gettime vs_clock_gettime
#define gettimeofday vs_gettimeofday
#define nanosleep vs_nanosleep
#define clock_nanosleep vs_clock_nanosleep
#define usleep vs_usleep
#define sched_yield vs_yield
#define pthread_yield vs_yield
#define sleep(n) vs_sleep (n)
#define time(p) vs_time (p)
#endif
