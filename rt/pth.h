/* force-included into every unit: routes thread primitives to the cooperative model in pth.c */
#ifndef PTH_H
#define PTH_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>
#include <stdlib.h>
#ifdef __cplusplus
extern "C" {
#endif
int symp_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *); int symp_join(pthread_t, void **); void symp_exit(void *) __attribute__((noreturn)); pthread_t symp_pself(void); int symp_detach(pthread_t); int symp_equal(pthread_t, pthread_t);
int symp_mutex_init(pthread_mutex_t *, const pthread_mutexattr_t *); int symp_mutex_destroy(pthread_mutex_t *); int symp_mutex_lock(pthread_mutex_t *); int symp_mutex_trylock(pthread_mutex_t *); int symp_mutex_unlock(pthread_mutex_t *); int symp_mutex_owner(pthread_mutex_t *);
int symp_mattr_init(pthread_mutexattr_t *); int symp_mattr_settype(pthread_mutexattr_t *, int); int symp_mattr_destroy(pthread_mutexattr_t *);
int symp_cond_init(pthread_cond_t *, const pthread_condattr_t *); int symp_cond_destroy(pthread_cond_t *); int symp_cond_wait(pthread_cond_t *, pthread_mutex_t *); int symp_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *); int symp_cond_signal(pthread_cond_t *); int symp_cond_broadcast(pthread_cond_t *);
int symp_usleep(unsigned); unsigned symp_sleep(unsigned); int symp_nanosleep(const struct timespec *, struct timespec *); int symp_sched_yield(void); int symp_attr(pthread_attr_t *); int symp_attr_i(pthread_attr_t *, int);
int symp_key_create(pthread_key_t *, void (*)(void *)); int symp_setspecific(pthread_key_t, const void *); void *symp_getspecific(pthread_key_t); int symp_once(pthread_once_t *, void (*)(void));
void symp_explore(int); void symp_kill_others(void); void symp_wake_sleepers(int); void symp_yield_all(void); void symp_tick(void); int symp_self(void); int symp_held(int); int symp_threads(void); int symp_state(int); int symp_all_done(void);
void sym_exit(int) __attribute__((noreturn));
#ifdef __cplusplus
}
#endif
#ifndef SYM_NATIVE_IMPL
#define pthread_create symp_create
#define pthread_join symp_join
#define pthread_exit symp_exit
#define pthread_self symp_pself
#define pthread_detach symp_detach
#define pthread_equal symp_equal
#define pthread_mutex_init symp_mutex_init
#define pthread_mutex_destroy symp_mutex_destroy
#define pthread_mutex_lock symp_mutex_lock
#define pthread_mutex_trylock symp_mutex_trylock
#define pthread_mutex_unlock symp_mutex_unlock
#define pthread_mutexattr_init symp_mattr_init
#define pthread_mutexattr_settype symp_mattr_settype
#define pthread_mutexattr_destroy symp_mattr_destroy
#define pthread_cond_init symp_cond_init
#define pthread_cond_destroy symp_cond_destroy
#define pthread_cond_wait symp_cond_wait
#define pthread_cond_timedwait symp_cond_timedwait
#define pthread_cond_signal symp_cond_signal
#define pthread_cond_broadcast symp_cond_broadcast
#define pthread_attr_init symp_attr
#define pthread_attr_destroy symp_attr
#define pthread_attr_setscope symp_attr_i
#define pthread_attr_setdetachstate symp_attr_i
#define pthread_key_create symp_key_create
#define pthread_setspecific symp_setspecific
#define pthread_getspecific symp_getspecific
#define pthread_once symp_once
#define usleep symp_usleep
#define sleep symp_sleep
#define nanosleep symp_nanosleep
#define sched_yield symp_sched_yield
#define exit sym_exit
#endif
#endif
