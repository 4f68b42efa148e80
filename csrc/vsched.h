/* Deterministic controlled scheduler + virtual clock for harnesses.
 * Interposes pthread locking, sleeping, polling and clock functions. Only one
 * managed thread runs at a time; at every scheduling point the next thread is
 * chosen by a seeded generator. */
#ifndef VSCHED_H
#define VSCHED_H
#include <stdint.h>
#include <stdarg.h>
void vs_init (uint64_t seed, unsigned lock_per_1024, unsigned cov_per_1024, unsigned timejump_per_1024);
void vs_set_cov (unsigned cov_per_1024);
void vs_yield (void);
int vs_tid (void);
uint64_t vs_now (void);           /* virtual microseconds since start */
void vs_advance (uint64_t us);    /* advance the clock (single threaded harnesses) */
void vs_log (const char *fmt, ...) __attribute__((format(printf,1,2)));
void vs_end (void);               /* stop scheduling and flush the trace */
void vs_flush (void);
void vs_crash_handlers (void);
uint64_t vs_rand (void);
void vs_set_maxsteps (uint64_t n);
void vs_atomic_begin (void);      /* no preemption between begin and end */
void vs_atomic_end (void);
int vs_others_idle (void);        /* no other thread is ready now */
extern int vs_active;
extern int vs_realpoll;           /* 1: epoll_wait passes through to the kernel */
#define VS_EPOCH_US 1700000000000000ULL
#endif
