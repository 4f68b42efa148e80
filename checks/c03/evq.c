/* Signalling threads and a dispatcher. argv: seed npasses mode ; mode 0: threads, 1: one thread, 2: large amounts */
#include "lib/log.h"
#include "lib/event/event.h"
#include "lib/event/event_functions.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <sys/syscall.h>
static struct rrr_event_queue *Q;
static int mode, np, running, ending, waitend, pausepct, partial, failpm, fns; static uint64_t last;
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static __thread int me;
static int again; /* the pipe refuses now and then */
static __thread int inpass;
ssize_t write (int fd, const void *p, size_t n) {
	if (inpass) { vs_yield(); if (again && R(100) < again) { errno = EAGAIN; return -1; } }
	return syscall(SYS_write, fd, p, n);
}
static int cancelpct;
static int retry_cb (void *arg) { (void) arg; vs_yield(); if (R(100) < cancelpct) { vs_log("{\"e\":\"pc\",\"t\":%d}", me); return 7; } return 0; }
static void pass1 (void) {
	int f = R(fns), n = R(5) ? 1 : R(4) ? R(256) : 255;
	if (mode == 2) n = 255 - (R(20) == 0);
	last = vs_now();
	vs_log("{\"e\":\"pb\",\"t\":%d,\"f\":%d,\"n\":%d}", me, f, n);
	inpass = 1; int r = rrr_event_pass(Q, (uint8_t) f, (uint8_t) n, me == 0 || R(3) == 0 ? retry_cb : R(2) ? retry_cb : NULL, NULL); inpass = 0;
	vs_log("{\"e\":\"pe\",\"t\":%d,\"ok\":%s,\"r\":%d}", me, r == 0 ? "true" : "false", r);
}
static const char *names[] = { "ok", "err", "exit" };
static int rets[] = { 0, RRR_EVENT_ERR, RRR_EVENT_EXIT };
static int handler (int f, uint16_t *amount) {
	int n = *amount, c = n; last = vs_now();
	if (!ending && R(100) < partial) c = R(3) ? R(n + 1) : R(2) ? 0 : 1;
	if (!ending && failpm && R(1000) < failpm) {
		int k = 1 + R(2); *amount = (uint16_t) R(n + 1);
		vs_log("{\"e\":\"hf\",\"t\":%d,\"f\":%d,\"n\":%d,\"ret\":\"%s\"}", me, f, n, names[k]);
		return rets[k];
	}
	*amount = (uint16_t) (n - c);
	vs_log("{\"e\":\"h\",\"t\":%d,\"f\":%d,\"n\":%d,\"c\":%d}", me, f, n, c);
	if (mode != 2 && !ending && R(12) == 0 && np > 0) { np--; int o = cancelpct; cancelpct = 30; pass1(); cancelpct = o; }
	return 0;
}
static int h0 (uint16_t *a, void *arg) { (void) arg; return handler(0, a); }
static int h1 (uint16_t *a, void *arg) { (void) arg; return handler(1, a); }
static int h2 (uint16_t *a, void *arg) { (void) arg; return handler(2, a); }
static int h3 (uint16_t *a, void *arg) { return handler(arg == &np ? 3 : 2, a); }
static int want[4];
static void pausecb (unsigned short *do_pause, unsigned short is_paused, void *arg) {
	int f = *(int *) arg, was = is_paused; last = vs_now();
	if (ending) want[f] = 0; else if (R(100) < pausepct) want[f] = !want[f];
	*do_pause = (unsigned short) want[f];
	vs_log("{\"e\":\"p\",\"t\":%d,\"f\":%d,\"was\":%s,\"now\":%s}", me, f, was ? "true" : "false", want[f] ? "true" : "false");
}
static int periodic (void *arg) {
	(void) arg;
	if (running == 0 && !ending) { ending = 1; last = vs_now(); }
	int k = 0;
	if (ending && vs_now() > last + 3000000) k = 2;
	else if (!ending && failpm && R(1000) < failpm) k = 1 + R(2);
	if (k) vs_log("{\"e\":\"per\",\"t\":%d,\"ret\":\"%s\"}", me, names[k]);
	if (k == 2) waitend = 1;
	return rets[k];
}
static void *thread (void *a) {
	me = (int) (intptr_t) a;
	for (;;) {
		if (np <= 0) break;
		np--; pass1();
		if (R(4) == 0) usleep((useconds_t) R(3000)); else if (R(200) == 0) usleep(200000); else if (R(3) == 0) vs_yield();
	}
	running--;
	return NULL;
}
int main (int argc, char **argv) {
	(void) argc;
	rrr_allocator_init(); rrr_log_init(); rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	np = atoi(argv[2]); mode = atoi(argv[3]);
	uint64_t seed = strtoull(argv[1], NULL, 10);
	static const int lk[] = { 30, 200, 500 }, cv[] = { 3, 20, 100 };
	vs_init(seed, mode == 0 ? (unsigned) lk[seed % 3] : 0, mode == 0 ? (unsigned) cv[(seed / 3) % 3] : 0, 0);
	vs_set_maxsteps(100000000);
	if (rrr_event_queue_new(&Q)) return 9;
	int fds[RRR_EVENT_QUEUE_FD_MAX]; size_t nf;
	rrr_event_queue_fds_get(fds, &nf, Q);
	if (R(2)) for (size_t i = 0; i < nf; i++) fcntl(fds[i], F_SETPIPE_SZ, 4096);
	again = R(3) ? 0 : R(40); cancelpct = R(2) ? 0 : 20; partial = R(3) ? R(80) : 0; pausepct = R(3) ? R(60) : 0; failpm = R(4) ? 0 : 1 + R(20); fns = 1 + R(4);
	rrr_event_function_set(Q, 0, h0, "f0"); rrr_event_function_set(Q, 1, h1, "f1"); rrr_event_function_set(Q, 2, h2, "f2"); rrr_event_function_set_with_arg(Q, 3, h3, &np, "f3");
	static int ids[] = { 0, 1, 2, 3 };
	if (pausepct) for (int i = 0; i < 4; i++) if (R(3)) rrr_event_callback_pause_set(Q, (uint8_t) i, pausecb, &ids[i]);
	if (R(2)) for (int i = 0; i < 4; i++) rrr_event_function_priority_set(Q, (uint8_t) i, (enum rrr_event_priority) R(RRR_EVENT_PRIORITY_COUNT));
	pthread_t t[3]; int nt = 0;
	if (mode == 0) { nt = 1 + R(3); running = nt; for (int i = 0; i < nt; i++) pthread_create(&t[i], NULL, thread, (void *) (intptr_t) (i + 1)); }
	do {
		if (mode != 0) { int k = mode == 2 ? np : R(300); running = 1; while (k-- > 0 && np > 0) { np--; int o = cancelpct; cancelpct = 100; pass1(); cancelpct = o; } running = np > 0; if (running) failpm = failpm ? 5 : 0; }
		if (mode == 1 && np > 0 && failpm == 0) failpm = 30;
		int n = rets[2]; (void) n;
		vs_log("{\"e\":\"db\"}");
		int r = rrr_event_dispatch(Q, (unsigned) (1000 + R(100000)), periodic, NULL);
		vs_log("{\"e\":\"de\",\"ret\":\"%s\"}", r == 0 ? "exit" : r == RRR_EVENT_ERR ? "err" : "other");
	} while (!waitend || !ending || running || vs_now() < last + 3000000);
	for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
	vs_log("{\"e\":\"quiet\"}");
	rrr_event_queue_destroy(Q);
	vs_end(); _exit(0);
}
