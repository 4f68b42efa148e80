#define _GNU_SOURCE
#include "vsched.h"
#include <pthread.h>
#include <semaphore.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <time.h>
#include <sys/time.h>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <dlfcn.h>
#include <poll.h>
#include <signal.h>

#define MAXT 64
enum { S_RUN, S_MUTEX, S_RD, S_WR, S_COND, S_SLEEP, S_JOIN, S_POLL, S_DONE };
struct vt {
	int id; sem_t sem; int state; void *obj; uint64_t wake; int timed, timed_out, signalled;
	pthread_t pt; int cancel, exited, nocancel; uint64_t epoch; struct vt *join;
	void *(*fn)(void *); void *arg; void *retval;
};
static struct vt T[MAXT];
static int nT;
int vs_active;
int vs_realpoll;
static __thread struct vt *self_;
static __thread int in_sched;
static int atomic_depth;
static struct vt *current;
static uint64_t rng = 88172645463325252ULL;
static unsigned p_lock, p_cov, p_time;
static uint64_t now_us, steps, max_steps = 20000000, epoch;

static char *tb; static size_t tl, tc;

uint64_t vs_rand (void) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL >> 11; }
static int chance (unsigned p) { return p && (vs_rand() & 1023) < p; }

void vs_flush (void) { size_t o = 0; while (o < tl) { ssize_t n = write(1, tb + o, tl - o); if (n <= 0) break; o += (size_t) n; } tl = 0; }
void vs_log (const char *fmt, ...) {
	char b[65536]; va_list ap; va_start(ap, fmt); int n = vsnprintf(b, sizeof(b) - 1, fmt, ap); va_end(ap);
	if (n < 0) return;
	if (n > (int) sizeof(b) - 2) n = sizeof(b) - 2;
	b[n++] = '\n';
	if (tl + n > tc) { tc = (tl + n) * 2; tb = realloc(tb, tc); }
	memcpy(tb + tl, b, n); tl += n;
}
static void die (const char *what, int code) { vs_log("{\"e\":\"%s\"}", what); if (write(1, "\n", 1)) {} vs_flush(); _exit(code); }

static void on_crash (int sig) { char b[64]; static int once; if (once++) _exit(7); if (write(1, "\n", 1)) {} int n = snprintf(b, sizeof b, "{\"e\":\"crash\",\"sig\":%d}\n", sig); vs_flush(); if (write(1, b, (size_t) n)) {} _exit(6); }
void vs_crash_handlers (void) {
	static char stk[65536]; stack_t ss = { .ss_sp = stk, .ss_size = sizeof stk }; sigaltstack(&ss, NULL);
	int sg[] = { SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL };
	for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; sigaction(sg[i], &sa, NULL); }
}

/* lock table */
struct lk { void *a; int owner; int count; int readers; };
static struct lk *L; static int nL, cL;
static struct lk *lk (void *a) {
	for (int i = nL - 1; i >= 0; i--) if (L[i].a == a) return &L[i];
	for (int i = 0; i < nL; i++) if (L[i].a == NULL) { L[i].a = a; L[i].owner = -1; L[i].count = 0; L[i].readers = 0; return &L[i]; }
	if (nL == cL) { cL = cL ? cL * 2 : 256; L = realloc(L, cL * sizeof(*L)); }
	L[nL].a = a; L[nL].owner = -1; L[nL].count = 0; L[nL].readers = 0; return &L[nL++];
}
static void lk_gc (struct lk *l) { if (l->owner == -1 && l->readers == 0) l->a = NULL; }

static int ready (struct vt *t) {
	struct lk *l; int r;
	switch (t->state) {
		case S_RUN: return 1;
		case S_MUTEX: case S_WR: l = lk(t->obj); r = l->owner == -1 && l->readers == 0; lk_gc(l); return r || (t->timed && now_us >= t->wake);
		case S_RD: l = lk(t->obj); r = l->owner == -1; lk_gc(l); return r;
		case S_COND: return t->signalled || (t->timed && now_us >= t->wake) || (t->cancel && !t->nocancel);
		case S_SLEEP: return now_us >= t->wake || (t->cancel && !t->nocancel);
		case S_JOIN: return t->join->state == S_DONE;
		case S_POLL: return t->epoch != epoch || (t->timed && now_us >= t->wake) || (t->cancel && !t->nocancel);
	}
	return 0;
}
static int advance_to_next (void) {
	uint64_t m = UINT64_MAX;
	for (int i = 0; i < nT; i++) {
		struct vt *t = &T[i];
		if ((t->state == S_SLEEP || ((t->state == S_COND || t->state == S_POLL || t->state == S_MUTEX) && t->timed)) && t->wake > now_us && t->wake < m) m = t->wake;
	}
	if (m == UINT64_MAX) return 0;
	now_us = m;
	return 1;
}
static struct vt *pick (void) {
	for (;;) {
		struct vt *r[MAXT]; int n = 0;
		if (++steps > max_steps) die("livelock", 4);
		if (p_time && chance(p_time)) advance_to_next();
		for (int i = 0; i < nT; i++) if (ready(&T[i])) r[n++] = &T[i];
		if (n) return r[vs_rand() % n];
		if (!advance_to_next()) die("deadlock", 3);
	}
}
static void switch_to (struct vt *n) {
	struct vt *s = self_;
	if (n == s) return;
	current = n;
	if (n->state != S_POLL) epoch++;
	sem_post(&n->sem);
	if (s->state == S_DONE) return;
	while (sem_wait(&s->sem) != 0) ;
}
static void maybe_cancel (void);
static void block (void) { in_sched++; switch_to(pick()); in_sched--; }
static void point (unsigned p) {
	if (!vs_active || !self_ || in_sched || atomic_depth) return;
	now_us++;
	if (chance(p)) { in_sched++; switch_to(pick()); in_sched--; }
}
void vs_yield (void) { if (!vs_active || !self_ || atomic_depth) return; in_sched++; switch_to(pick()); in_sched--; }
int vs_tid (void) { return self_ ? self_->id : -1; }
uint64_t vs_now (void) { return now_us; }
void vs_advance (uint64_t us) { now_us += us; }
void vs_set_maxsteps (uint64_t n) { max_steps = n; }
void vs_set_cov (unsigned c) { p_cov = c; }
void vs_atomic_begin (void) { atomic_depth++; }
void vs_atomic_end (void) { atomic_depth--; }
int vs_others_idle (void) { for (int i = 0; i < nT; i++) if (&T[i] != self_ && T[i].state != S_DONE && ready(&T[i])) return 0; return 1; }

#define REAL(ret, name, args) static ret (*r_##name) args
REAL(int, pthread_create, (pthread_t *, const pthread_attr_t *, void *(*)(void *), void *));
REAL(int, pthread_join, (pthread_t, void **));
REAL(int, pthread_cancel, (pthread_t));
REAL(int, epoll_wait, (int, struct epoll_event *, int, int));
REAL(int, poll, (struct pollfd *, nfds_t, int));
static void resolve (void) {
	if (r_pthread_create) return;
	r_pthread_join = dlsym(RTLD_NEXT, "pthread_join");
	r_pthread_cancel = dlsym(RTLD_NEXT, "pthread_cancel");
	r_epoll_wait = dlsym(RTLD_NEXT, "epoll_wait");
	r_poll = dlsym(RTLD_NEXT, "poll");
	r_pthread_create = dlsym(RTLD_NEXT, "pthread_create");
}
__attribute__((constructor)) static void ctor (void) { resolve(); }

void vs_init (uint64_t seed, unsigned pl, unsigned pc, unsigned pt) {
	resolve();
	rng = seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL; if (!rng) rng = 1;
	for (int i = 0; i < 8; i++) vs_rand();
	p_lock = pl; p_cov = pc; p_time = pt;
	struct vt *t = &T[nT]; memset(t, 0, sizeof(*t)); t->id = nT++; sem_init(&t->sem, 0, 0); t->state = S_RUN; t->pt = pthread_self();
	self_ = t; current = t; vs_active = 1; vs_crash_handlers();
}
void vs_end (void) { vs_active = 0; fflush(stdout); if (write(1, "\n", 1)) {} vs_flush(); }

/* threads */
static void thread_done (void *a) {
	struct vt *t = a;
	in_sched++;
	t->state = S_DONE;
	epoch++;
	if (vs_active) switch_to(pick());
}
static void *tramp (void *a) {
	struct vt *t = a;
	self_ = t;
	while (sem_wait(&t->sem) != 0) ;
	void *r = NULL;
	pthread_cleanup_push(thread_done, t);
	r = t->fn(t->arg);
	pthread_cleanup_pop(1);
	return r;
}
int pthread_create (pthread_t *pt, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
	resolve();
	if (!vs_active || !self_) return r_pthread_create(pt, attr, fn, arg);
	if (nT == MAXT) die("toomanythreads", 5);
	struct vt *t = &T[nT]; memset(t, 0, sizeof(*t)); t->id = nT++; sem_init(&t->sem, 0, 0); t->state = S_RUN; t->fn = fn; t->arg = arg;
	int rc = r_pthread_create(pt, attr, tramp, t);
	if (rc) { nT--; return rc; }
	t->pt = *pt;
	point(p_lock);
	return 0;
}
static struct vt *by_pt (pthread_t pt) { for (int i = nT - 1; i >= 0; i--) if (pthread_equal(T[i].pt, pt)) return &T[i]; return NULL; }
int pthread_join (pthread_t pt, void **ret) {
	resolve();
	struct vt *t = vs_active && self_ ? by_pt(pt) : NULL;
	if (t && t->state != S_DONE) { self_->join = t; self_->state = S_JOIN; block(); self_->state = S_RUN; }
	int rc = r_pthread_join(pt, ret);
	if (t) memset(&t->pt, 0xff, sizeof(t->pt));
	return rc;
}
int pthread_cancel (pthread_t pt) {
	resolve();
	struct vt *t = vs_active && self_ ? by_pt(pt) : NULL;
	if (!t) return r_pthread_cancel(pt);
	t->cancel = 1;
	point(p_lock);
	return 0;
}
static void maybe_cancel (void) {
	if (self_ && self_->cancel && !self_->nocancel && !self_->exited) { self_->exited = 1; self_->state = S_RUN; pthread_exit(PTHREAD_CANCELED); }
}
void pthread_testcancel (void) { if (vs_active) maybe_cancel(); }
int pthread_setcancelstate (int s, int *o) { if (self_) { if (o) *o = self_->nocancel ? PTHREAD_CANCEL_DISABLE : PTHREAD_CANCEL_ENABLE; self_->nocancel = s == PTHREAD_CANCEL_DISABLE; } return 0; }

/* mutexes */
int pthread_mutex_lock (pthread_mutex_t *m) {
	if (!vs_active || !self_) return 0;
	point(p_lock);
	struct lk *l = lk(m);
	if (l->owner == self_->id) {
		int k = m->__data.__kind & 3;
		if (k == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return 0; }
		if (k == PTHREAD_MUTEX_ERRORCHECK_NP) return EDEADLK;
		die("selfdeadlock", 3);
	}
	while ((l = lk(m))->owner != -1) { self_->state = S_MUTEX; self_->timed = 0; self_->obj = m; block(); self_->state = S_RUN; }
	l = lk(m); l->owner = self_->id; l->count = 1;
	return 0;
}
int pthread_mutex_trylock (pthread_mutex_t *m) {
	if (!vs_active || !self_) return 0;
	point(p_lock);
	struct lk *l = lk(m);
	if (l->owner == self_->id && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { l->count++; return 0; }
	if (l->owner != -1) { now_us++; return EBUSY; }
	l->owner = self_->id; l->count = 1; return 0;
}
static uint64_t abs_us (const struct timespec *ts) {
	uint64_t v = (uint64_t) ts->tv_sec * 1000000ULL + (uint64_t) ts->tv_nsec / 1000;
	return v >= VS_EPOCH_US ? v - VS_EPOCH_US : (v >= 1000000000ULL ? v - 1000000000ULL : 0);
}
int pthread_mutex_timedlock (pthread_mutex_t *m, const struct timespec *ts) {
	if (!vs_active || !self_) return 0;
	point(p_lock);
	struct lk *l = lk(m); uint64_t w = abs_us(ts);
	while ((l = lk(m))->owner != -1) {
		if (now_us >= w) return ETIMEDOUT;
		self_->state = S_MUTEX; self_->timed = 1; self_->wake = w; self_->obj = m; block(); self_->state = S_RUN; self_->timed = 0;
	}
	l->owner = self_->id; l->count = 1; return 0;
}
int pthread_mutex_unlock (pthread_mutex_t *m) {
	if (!vs_active || !self_) return 0;
	struct lk *l = lk(m);
	if (l->owner != self_->id) { lk_gc(l); return EPERM; }
	if (--l->count == 0) { l->owner = -1; lk_gc(l); }
	point(p_lock);
	return 0;
}
int pthread_mutex_destroy (pthread_mutex_t *m) {
	if (vs_active && self_) { struct lk *l = lk(m); int busy = l->owner != -1; if (busy) { l->owner = -1; } lk_gc(l); if (busy) vs_log("{\"e\":\"destroylocked\"}"); }
	return 0;
}
int pthread_rwlock_init (pthread_rwlock_t *r, const pthread_rwlockattr_t *a) { (void) a; memset(r, 0, sizeof(*r)); return 0; }
int pthread_rwlock_destroy (pthread_rwlock_t *r) { (void) r; return 0; }
int pthread_rwlock_rdlock (pthread_rwlock_t *r) {
	if (!vs_active || !self_) return 0;
	point(p_lock);
	struct lk *l;
	if (lk(r)->owner == self_->id) return EDEADLK;
	while ((l = lk(r))->owner != -1) { self_->state = S_RD; self_->obj = r; block(); self_->state = S_RUN; }
	l = lk(r); l->readers++; return 0;
}
int pthread_rwlock_wrlock (pthread_rwlock_t *r) {
	if (!vs_active || !self_) return 0;
	point(p_lock);
	struct lk *l;
	if (lk(r)->owner == self_->id) return EDEADLK;
	for (;;) { l = lk(r); if (l->owner == -1 && l->readers == 0) break; self_->state = S_WR; self_->timed = 0; self_->obj = r; block(); self_->state = S_RUN; }
	l->owner = self_->id; l->count = 1; return 0;
}
int pthread_rwlock_tryrdlock (pthread_rwlock_t *r) { if (!vs_active || !self_) return 0; point(p_lock); struct lk *l = lk(r); if (l->owner != -1) return EBUSY; l->readers++; return 0; }
int pthread_rwlock_trywrlock (pthread_rwlock_t *r) { if (!vs_active || !self_) return 0; point(p_lock); struct lk *l = lk(r); if (l->owner != -1 || l->readers) return EBUSY; l->owner = self_->id; l->count = 1; return 0; }
int pthread_rwlock_unlock (pthread_rwlock_t *r) {
	if (!vs_active || !self_) return 0;
	struct lk *l = lk(r);
	if (l->owner == self_->id) l->owner = -1; else if (l->readers > 0) l->readers--; else { lk_gc(l); return EPERM; }
	lk_gc(l); point(p_lock); return 0;
}
/* condition variables */
static int cwait (pthread_cond_t *c, pthread_mutex_t *m, int timed, uint64_t wake) {
	struct vt *s = self_;
	maybe_cancel();
	struct lk *l = lk(m); int cnt = l->count; l->owner = -1; l->count = 0; lk_gc(l);
	s->state = S_COND; s->obj = c; s->timed = timed; s->wake = wake; s->signalled = 0;
	block();
	int to = !s->signalled && timed;
	s->state = S_RUN; s->timed = 0;
	while ((l = lk(m))->owner != -1) { s->state = S_MUTEX; s->obj = m; block(); s->state = S_RUN; }
	l = lk(m); l->owner = s->id; l->count = cnt ? cnt : 1;
	maybe_cancel();
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait (pthread_cond_t *c, pthread_mutex_t *m) { if (!vs_active || !self_) return 0; return cwait(c, m, 0, 0); }
int pthread_cond_timedwait (pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) { if (!vs_active || !self_) return ETIMEDOUT; return cwait(c, m, 1, abs_us(ts)); }
int pthread_cond_signal (pthread_cond_t *c) {
	if (!vs_active || !self_) return 0;
	struct vt *w[MAXT]; int n = 0;
	for (int i = 0; i < nT; i++) if (T[i].state == S_COND && T[i].obj == c && !T[i].signalled) w[n++] = &T[i];
	if (n) w[vs_rand() % n]->signalled = 1;
	point(p_lock); return 0;
}
int pthread_cond_broadcast (pthread_cond_t *c) {
	if (!vs_active || !self_) return 0;
	for (int i = 0; i < nT; i++) if (T[i].state == S_COND && T[i].obj == c) T[i].signalled = 1;
	point(p_lock); return 0;
}
int pthread_cond_destroy (pthread_cond_t *c) { (void) c; return 0; }

/* time */
static void vsleep (uint64_t us) {
	if (!vs_active || !self_) return;
	maybe_cancel();
	self_->state = S_SLEEP; self_->wake = now_us + (us ? us : 1); block(); self_->state = S_RUN;
	maybe_cancel();
}
int sched_yield (void) { if (vs_active && self_) { now_us += 50; vs_yield(); } return 0; }
int usleep (useconds_t us) { vsleep(us); return 0; }
unsigned int sleep (unsigned int s) { vsleep((uint64_t) s * 1000000); return 0; }
int nanosleep (const struct timespec *ts, struct timespec *rem) { if (rem) { rem->tv_sec = 0; rem->tv_nsec = 0; } vsleep((uint64_t) ts->tv_sec * 1000000ULL + (uint64_t) ts->tv_nsec / 1000); return 0; }
int clock_nanosleep (clockid_t c, int flags, const struct timespec *ts, struct timespec *rem) {
	if (flags & TIMER_ABSTIME) { uint64_t w = abs_us(ts); vsleep(w > now_us ? w - now_us : 1); return 0; }
	return nanosleep(ts, rem);
}
static void tick (void) { if (vs_active && self_ && current == self_) now_us++; }
int gettimeofday (struct timeval *tv, void *tz) { (void) tz; tick(); uint64_t v = VS_EPOCH_US + now_us; tv->tv_sec = (time_t) (v / 1000000); tv->tv_usec = (suseconds_t) (v % 1000000); return 0; }
int clock_gettime (clockid_t c, struct timespec *ts) {
	if (c == CLOCK_PROCESS_CPUTIME_ID || c == CLOCK_THREAD_CPUTIME_ID) return (int) syscall(SYS_clock_gettime, c, ts);
	tick();
	uint64_t v = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? VS_EPOCH_US + now_us : 1000000000ULL + now_us;
	ts->tv_sec = (time_t) (v / 1000000); ts->tv_nsec = (long) (v % 1000000) * 1000; return 0;
}
time_t time (time_t *t) { time_t v = (time_t) ((VS_EPOCH_US + now_us) / 1000000); if (t) *t = v; return v; }

/* polling */
static int vpoll_block (int timeout_ms, uint64_t deadline) {
	struct vt *s = self_;
	s->state = S_POLL; s->timed = timeout_ms >= 0; s->wake = deadline; s->epoch = epoch;
	block();
	s->state = S_RUN; s->timed = 0;
	maybe_cancel();
	return timeout_ms >= 0 && now_us >= deadline;
}
int epoll_wait (int fd, struct epoll_event *ev, int max, int timeout) {
	resolve();
	if (!vs_active || !self_ || vs_realpoll) return r_epoll_wait(fd, ev, max, timeout);
	uint64_t dl = now_us + (timeout > 0 ? (uint64_t) timeout * 1000 : 0);
	point(p_lock);
	for (;;) {
		maybe_cancel();
		int n = r_epoll_wait(fd, ev, max, 0);
		if (n != 0) { epoch++; return n; }
		if (timeout == 0) return 0;
		if (vpoll_block(timeout, dl)) { n = r_epoll_wait(fd, ev, max, 0); return n; }
	}
}
int epoll_pwait (int fd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss) { (void) ss; return epoll_wait(fd, ev, max, timeout); }
int poll (struct pollfd *p, nfds_t n, int timeout) {
	resolve();
	if (!vs_active || !self_ || vs_realpoll) return r_poll(p, n, timeout);
	uint64_t dl = now_us + (timeout > 0 ? (uint64_t) timeout * 1000 : 0);
	for (;;) {
		int k = r_poll(p, n, 0);
		if (k != 0 || timeout == 0) return k;
		if (vpoll_block(timeout, dl)) return r_poll(p, n, 0);
	}
}
void __sanitizer_cov_trace_pc (void) { if (p_cov) point(p_cov); }
