/* The channel between a writer and a reader.
 * argv: seed nops mode scratchdir ; mode 0: threads under the controlled scheduler, 1: two processes running freely, 2: two processes taking turns */
#include "lib/log.h"
#include "lib/mmap_channel.h"
#include "lib/rrr_shm.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/shm.h>
#include <sys/ipc.h>
#include <sys/syscall.h>
#define MAXID 40000
#define MAXEV 60000
static const char *dir;
int shm_open (const char *n, int f, mode_t m) { char p[512]; snprintf(p, sizeof p, "%s/shm%s", dir, n + 1); return open(p, f, m); }
int shm_unlink (const char *n) { char p[512]; snprintf(p, sizeof p, "%s/shm%s", dir, n + 1); return unlink(p); }
static struct sh { unsigned n; int attach; int sz[MAXID]; int seg[20000]; int nseg; int next; int stop; char ev[MAXEV][96]; } *S;
static int mode;
static __thread int faults, faulty;
static __thread uint64_t rs;
static uint32_t rnd (void) { if (mode == 0) return (uint32_t) vs_rand(); rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (uint32_t) (rs >> 11); }
static int R (int n) { return (int) (rnd() % (uint32_t) n); }
/* System V shared memory: counted, and refused now and then */
void *shmat (int id, const void *a, int f) {
	if (faulty && R(6) == 0) { faults++; errno = ENOMEM; return (void *) -1; }
	void *p = (void *) syscall(SYS_shmat, id, a, f); if (p != (void *) -1) __atomic_add_fetch(&S->attach, 1, __ATOMIC_SEQ_CST); return p;
}
int shmdt (const void *a) { int r = (int) syscall(SYS_shmdt, a); if (r == 0) __atomic_sub_fetch(&S->attach, 1, __ATOMIC_SEQ_CST); return r; }
int shmget (key_t k, size_t n, int f) { if (faulty && R(6) == 0) { faults++; errno = ENOSPC; return -1; } int id = (int) syscall(SYS_shmget, k, n, f); if (id != -1) { int i = __atomic_fetch_add(&S->nseg, 1, __ATOMIC_SEQ_CST); if (i < 20000) S->seg[i] = id; } return id; }
#define EV(...) do { unsigned i_ = __atomic_fetch_add(&S->n, 1, __ATOMIC_SEQ_CST); if (i_ < MAXEV) snprintf(S->ev[i_], 96, __VA_ARGS__); } while (0)
static struct rrr_mmap_channel *ch;
static int expect = 1, quiet, sizeclass, failpct = 0, faultpct = 0;
static unsigned char pat (int id, int i) { return (unsigned char) (id * 31 + i * 7 + (i >> 8) + 1); }
static int size (void) {
	switch (sizeclass) {
	case 0: return 1 + R(40);
	case 1: return 1 + R(3000);
	case 2: return 8192 - 3 + R(8);
	case 3: return 9216 - 3 + R(8) + (R(2) ? 4096 : 0);
	case 4: return 4096 - 3 + R(7);
	case 5: { static const int v[] = { 1, 64, 4095, 4096, 8192, 8193, 9216, 9217, 12288, 16384, 30000, 70000 }; return v[R(12)]; }
	default: return 1 + R(1 << R(17));
	}
}
static const char *name (int r) { return r == RRR_MMAP_CHANNEL_OK ? "ok" : r == RRR_MMAP_CHANNEL_FULL ? "full" : "error"; }
struct wa { int id, sz, fail, called; };
static int wcb (void *t, void *arg) {
	struct wa *a = arg; unsigned char *p = t; a->called++;
	if (mode == 0) vs_yield();
	for (int i = 0; i < a->sz; i++) { p[i] = a->fail ? 0xee : pat(a->id, i); if (mode == 0 && i % 4096 == 77) vs_yield(); }
	if (!quiet) EV("{\"e\":\"wc\",\"ok\":%s}", a->fail ? "false" : "true");
	return a->fail;
}
static int wr1 (void) {
	struct wa a = { .id = S->next, .sz = size(), .fail = !quiet && R(100) < failpct };
	if (a.id >= MAXID - 2) return 1;
	S->sz[a.id] = a.sz; faults = 0; faulty = !quiet && R(100) < faultpct;
	int r, au = !a.fail && R(2);
	if (!quiet) EV("{\"e\":\"wb\",\"auto\":%s}", au ? "true" : "false");
	if (!au) r = rrr_mmap_channel_write_using_callback(ch, NULL, (size_t) a.sz, wcb, &a, NULL, NULL);
	else {
		unsigned char *d = malloc((size_t) a.sz); for (int i = 0; i < a.sz; i++) d[i] = pat(a.id, i);
		r = rrr_mmap_channel_write(ch, NULL, d, (size_t) a.sz, NULL, NULL); free(d);
	}
	faulty = 0;
	if (r == 0) S->next++;
	if (!quiet) EV("{\"e\":\"we\",\"ret\":\"%s\",\"fault\":%d}", name(r), faults);
	return r;
}
struct ra { int fail, called; };
static int rcb (const void *d, size_t n, void *arg) {
	struct ra *a = arg; const unsigned char *p = d; int ok = (int) n == S->sz[expect]; a->called++;
	if (mode == 0) vs_yield();
	for (int i = 0; ok && i < (int) n; i++) { if (p[i] != pat(expect, i)) ok = 0; if (mode == 0 && i % 4096 == 99) vs_yield(); }
	if (!quiet || !ok) EV("{\"e\":\"rc\",\"id\":%d,\"ok\":%s}", ok ? expect : -1, a->fail ? "false" : "true");
	if (!a->fail) expect++;
	return a->fail;
}
static int rd1 (void) {
	struct ra a = { .fail = !quiet && R(100) < failpct }; int cnt = -1;
	faults = 0; faulty = !quiet && R(100) < faultpct;
	if (!quiet) EV("{\"e\":\"rb\"}");
	int r = rrr_mmap_channel_read_with_callback(&cnt, ch, rcb, &a);
	faulty = 0;
	const char *n = a.called == 0 && cnt == 0 && (r == RRR_MMAP_CHANNEL_OK || r == RRR_MMAP_CHANNEL_EMPTY) ? "none" : r == 0 ? "ok" : r == RRR_MMAP_CHANNEL_EMPTY ? "empty" : "error";
	if (!quiet) EV("{\"e\":\"re\",\"ret\":\"%s\",\"cnt\":%d,\"fault\":%d}", n, cnt, faults);
	return !(r == 0 && cnt == 1);
}
static void count1 (void) {
	int n = -1; unsigned long long a = 0, b = 0;
	EV("{\"e\":\"kb\"}");
	if (R(4)) rrr_mmap_channel_count(&n, ch); else { rrr_mmap_channel_get_counters_and_reset(&a, &b, ch); n = (int) a; }
	EV("{\"e\":\"kend\",\"n\":%d}", n);
}
static void many (int n, int wr) {
	if (n <= 0) return;
	quiet = 1; int k = 0, c = sizeclass; for (; k < n; k++) { if (wr && k == 20 && (c == 3 || c > 4)) sizeclass = R(3); /* not too many segments */ if ((wr ? wr1() : rd1()) != 0) break; } quiet = 0; sizeclass = c;
	EV("{\"e\":\"%smany\",\"n\":%d}", wr ? "w" : "r", k);
	if (k != n) EV("{\"e\":\"stopped\"}");
}
static int nops; static int done_w;
static void *writer (void *a) { (void) a; for (int i = 0; i < nops; i++) { if (R(30) == 0) sizeclass = R(7); wr1(); if (mode == 0 && R(3) == 0) vs_yield(); } __atomic_store_n(&S->stop, 1, __ATOMIC_SEQ_CST); done_w = 1; return NULL; }
static void *reader (void *a) { (void) a; for (int i = 0; i < 6 * nops; i++) { if (__atomic_load_n(&S->stop, __ATOMIC_SEQ_CST) && i > nops) break; rd1(); if (mode == 0 && R(3) == 0) vs_yield(); else if (mode == 1 && R(20) == 0) usleep(20); } return NULL; }
static void *counter (void *a) { (void) a; for (int i = 0; i < nops / 4; i++) { count1(); vs_yield(); } return NULL; }
static void drain (void) { int f = failpct, q = faultpct; failpct = faultpct = 0; for (int i = 0; i < 3000; i++) { int n = 0; rrr_mmap_channel_count(&n, ch); if (n == 0) break; rd1(); } count1(); failpct = f; faultpct = q; }
static int sk[2];
static void ask (int what, int n) { int m[2] = { what, n }; if (write(sk[0], m, sizeof m) != sizeof m || read(sk[0], m, 4) != 4) { EV("{\"e\":\"gone\"}"); } }
static void serve (void) {
	int m[2];
	while (read(sk[1], m, sizeof m) == sizeof m) {
		if (m[0] == 0) rd1(); else if (m[0] == 1) many(m[1], 0); else if (m[0] == 2) count1(); else if (m[0] == 3) reader(NULL); else if (m[0] == 4) drain(); else if (m[0] == 5) { failpct = m[1] & 255; faultpct = m[1] >> 8; }
		if (write(sk[1], m, 4) != 4) break;
	}
	_exit(0);
}
int main (int argc, char **argv) {
	(void) argc;
	dir = argv[4];
	rrr_allocator_init(); rrr_log_init(); rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	nops = atoi(argv[2]); mode = atoi(argv[3]);
	S = mmap(NULL, sizeof *S, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); S->next = 1;
	uint64_t seed = strtoull(argv[1], NULL, 10);
	static const int lk[] = { 30, 200, 500 }, cv[] = { 0, 20, 100 };
	vs_init(seed, mode == 0 ? lk[seed % 3] : 0, mode == 0 ? cv[(seed / 3) % 3] : 0, 0);
	rs = seed * 2654435761u + 88172645463325252ULL; for (int i = 0; i < 8; i++) rnd();
	if (rrr_mmap_channel_new(&ch, "chan") != 0) return 9;
	sizeclass = R(7); failpct = R(3) ? 0 : 20; faultpct = R(3) ? 0 : 50;
	int w0 = R(2) ? 0 : R(1025), r0 = w0 ? (R(2) ? w0 : R(w0 + 1)) : 0, w1 = R(3) ? 0 : R(1025 - (w0 - r0)), full = R(4) == 0;
	if (full) w1 = 1024 - (w0 - r0) - R(3);
	if (mode) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sk)) return 9;
		if (fork() == 0) { close(sk[0]); vs_active = 0; if (!freopen("/dev/null", "w", stdout)) _exit(9); rs = rs * 31 + 7; serve(); }
		close(sk[1]);
		ask(5, failpct | faultpct << 8);
	}
	many(w0, 1); if (mode) ask(1, r0); else many(r0, 0); many(w1, 1);
	if (mode == 0) {
		pthread_t t[3];
		int q = expect; (void) q;
		pthread_create(&t[0], NULL, writer, NULL); pthread_create(&t[1], NULL, reader, NULL); pthread_create(&t[2], NULL, counter, NULL);
		for (int i = 0; i < 3; i++) pthread_join(t[i], NULL);
		drain();
	}
	else if (mode == 1) {
		int m[2] = { 3, 0 }; if (write(sk[0], m, sizeof m) != sizeof m) return 9;
		writer(NULL);
		if (read(sk[0], m, 4) != 4) EV("{\"e\":\"gone\"}");
		ask(4, 0);
	}
	else {
		int bias = 50;
		for (int i = 0; i < nops; i++) {
			int x = R(100);
			if (R(40) == 0) { bias = R(3) * 40 + 10; sizeclass = R(7); }
			if (x < 4) { if (R(2)) count1(); else ask(2, 0); }
			else if (x < bias) wr1(); else ask(0, 0);
			if (R(50) == 0) rrr_mmap_channel_maintenance(ch);
		}
		ask(4, 0);
	}
	if (mode) { close(sk[0]); wait(NULL); }
	int left = 0; /* segments which would outlive both processes */
	for (int i = 0; i < S->nseg && i < 20000; i++) { struct shmid_ds ds; if (shmctl(S->seg[i], IPC_STAT, &ds) == 0 && !(ds.shm_perm.mode & SHM_DEST)) { left++; shmctl(S->seg[i], IPC_RMID, NULL); } }
	EV("{\"e\":\"end\",\"left\":%d}", left);
	for (unsigned i = 0; i < S->n && i < MAXEV; i++) vs_log("%s", S->ev[i]);
	rrr_mmap_channel_destroy(ch);
	rrr_shm_holders_cleanup();
	vs_end();
	_exit(0);
}
