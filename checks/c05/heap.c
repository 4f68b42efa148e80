/* Histories of allocations. argv: seed nops mode scratchdir ; mode 0 private, 1 shared, 2 shared by three processes, 3 threads */
#include "lib/log.h"
#include "lib/rrr_mmap.h"
#include "lib/rrr_mmap_stats.h"
#include "lib/rrr_shm.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <dirent.h>
#include <pthread.h>
#include <sys/socket.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#define MAXL 3000
static char *dir;
/* shared memory objects are files of the scratch directory */
int shm_open (const char *n, int f, mode_t m) { char p[512]; snprintf(p, sizeof p, "%s/shm%s", dir, n + 1); return open(p, f, m); }
int shm_unlink (const char *n) { char p[512]; snprintf(p, sizeof p, "%s/shm%s", dir, n + 1); return unlink(p); }
static int mode; static int nmaps (void);
static int files (void) { if (mode == 0 || mode == 3) return nmaps(); int n = 0; DIR *d = opendir(dir); struct dirent *e; while (d && (e = readdir(d))) n += !strncmp(e->d_name, "shm", 3); if (d) closedir(d); return n; }
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static struct rrr_mmap_collection *C;
static struct rrr_mmap_collection_private_data PD;
static int nextid;
struct blk { int id; long long sz; long long h, lo; void *p; };
static struct blk L[MAXL]; static int nl;
static unsigned char pat (int id, long long i) { return (unsigned char) (id * 31 + i * 7 + (i >> 8)); }
static void fill (unsigned char *p, int id, long long n) { for (long long i = 0; i < n; i++) { if (i >= 300 && i < n - 300 && i % 1009) continue; p[i] = pat(id, i); } }
static int okpat (unsigned char *p, int id, long long n) { for (long long i = 0; i < n; i++) { if (i >= 300 && i < n - 300 && i % 1009) continue; if (p[i] != pat(id, i)) return 0; } return 1; }
/* private segments are memory maps */
static struct { uintptr_t a; size_t n; } maps[512]; static int watch;
void *mmap (void *a, size_t n, int pr, int fl, int fd, off_t o) {
	void *p = (void *) syscall(SYS_mmap, a, n, pr, fl, fd, o);
	if (watch && p != MAP_FAILED && (mode == 0 || mode == 3)) for (int i = 0; i < 512; i++) if (!maps[i].a) { maps[i].a = (uintptr_t) p; maps[i].n = n; break; }
	return p;
}
int munmap (void *a, size_t n) {
	for (int i = 0; i < 512; i++) if (maps[i].a == (uintptr_t) a) maps[i].a = 0;
	return (int) syscall(SYS_munmap, a, n);
}
static void where (void *p, long long *h, long long *lo) {
	*h = *lo = -1;
	for (int i = 0; i < 512; i++) if (maps[i].a && (uintptr_t) p >= maps[i].a && (uintptr_t) p < maps[i].a + maps[i].n) { *h = i; *lo = (long long) ((uintptr_t) p - maps[i].a); }
}
static int nmaps (void) { int n = 0; for (int i = 0; i < 512; i++) n += maps[i].a != 0; return n; }
/* one operation, carried out in this process */
struct op { int what; int id; long long sz, min, h, lo; void *p; int ok; };
static void doit (struct op *o) {
	if (o->what == 0) {
		rrr_shm_handle sh = 0; rrr_mmap_handle mh = 0;
		if (mode == 1 || mode == 2) { o->p = rrr_mmap_collection_allocate_with_handles(&sh, &mh, C, (rrr_biglength) o->sz, (rrr_biglength) o->min); o->h = (long long) sh; o->lo = (long long) mh; }
		else o->p = rrr_mmap_collection_allocate(C, (rrr_biglength) o->sz, (rrr_biglength) o->min);
		if (o->p) fill(o->p, o->id, o->sz);
	}
	else {
		void *p = (mode == 1 || mode == 2) ? rrr_mmap_collection_resolve(C, (rrr_shm_handle) o->h, (rrr_mmap_handle) o->lo) : o->p;
		o->ok = okpat(p, o->id, o->sz);
		if (o->what == 1) { memset(p, 0xdd, (size_t) (o->sz < 300 ? o->sz : 300)); if (rrr_mmap_collection_free(&PD, p) != 0) o->ok = 0; }
	}
}
static int sk[3][2], np;
static void child (int k) {
	struct op o; ssize_t n;
	while ((n = read(sk[k][1], &o, sizeof o)) == sizeof o) { doit(&o); if (write(sk[k][1], &o, sizeof o) != sizeof o) break; }
	_exit(0);
}
static void any (struct op *o) {
	int k = np ? R(np + 1) - 1 : -1;
	if (k < 0) { doit(o); return; }
	if (write(sk[k][0], o, sizeof *o) != sizeof *o || read(sk[k][0], o, sizeof *o) != sizeof *o) { vs_log("{\"e\":\"childgone\"}"); vs_end(); _exit(0); }
}
static int sizeclass; static long long minsz; static long long livebytes;
static long long size (void) {
	switch (sizeclass) {
	case 0: return 1 + R(64);
	case 1: return 1 + R(5000);
	case 2: return (1 + R(40)) * 4096 - 528 + R(40) - 20;
	case 3: return R(4) ? 1 + R(300) : 1 + R(200000);
	case 4: return (1 + R(8)) * 16 - R(18) > 0 ? (1 + R(8)) * 16 - R(3) : 8;
	default: return 1 + R(1 << R(20));
	}
}
static int alloc1 (int strict) {
	int before = files();
	struct op o = { .what = 0, .id = ++nextid, .sz = size(), .min = minsz };
	if (o.sz < 1) o.sz = 1;
	any(&o);
	if (!o.p) { vs_log("{\"e\":\"refuse\",\"sz\":%lld}", o.sz); return 1; }
	if (mode == 0) where(o.p, &o.h, &o.lo);
	vs_log("{\"e\":\"alloc\",\"id\":%d,\"h\":%lld,\"lo\":%lld,\"sz\":%lld,\"grew\":%s}", o.id, o.h, o.lo, o.sz, files() > before ? "true" : "false");
	L[nl++] = (struct blk) { o.id, o.sz, o.h, o.lo, o.p };
	return 0;
}
static void free1 (int i, int look) {
	struct op o = { .what = look ? 2 : 1, .id = L[i].id, .sz = L[i].sz, .h = L[i].h, .lo = L[i].lo, .p = L[i].p };
	any(&o);
	vs_log("{\"e\":\"%s\",\"id\":%d,\"ok\":%s}", look ? "look" : "free", o.id, o.ok ? "true" : "false");
	if (!look) L[i] = L[--nl];
}
static void maint (void) {
	struct rrr_mmap_stats st; rrr_mmap_collection_maintenance(&st, C);
	vs_log("{\"e\":\"maint\",\"n\":%d,\"files\":%d}", (int) st.mmap_total_count, files());
}
static void *thread (void *a) {
	int n = (int) (intptr_t) a; static __thread struct blk my[64]; int k = 0;
	for (int i = 0; i < n; i++) {
		if (k < 60 && (k == 0 || R(100) < 55)) {
			struct op o = { .what = 0, .sz = size(), .min = minsz }; if (o.sz < 1) o.sz = 1;
			o.p = rrr_mmap_collection_allocate(C, (rrr_biglength) o.sz, (rrr_biglength) o.min);
			if (!o.p) { vs_log("{\"e\":\"refuse\",\"sz\":%lld}", o.sz); continue; }
			vs_atomic_begin(); o.id = ++nextid; where(o.p, &o.h, &o.lo); vs_log("{\"e\":\"alloc\",\"id\":%d,\"h\":%lld,\"lo\":%lld,\"sz\":%lld,\"grew\":false}", o.id, o.h, o.lo, o.sz); vs_atomic_end();
			fill(o.p, o.id, o.sz);
			my[k++] = (struct blk) { o.id, o.sz, o.h, o.lo, o.p };
		}
		else {
			int j = R(k), ok = okpat(my[j].p, my[j].id, my[j].sz);
			vs_log("{\"e\":\"free\",\"id\":%d,\"ok\":%s}", my[j].id, ok ? "true" : "false");
			if (rrr_mmap_collection_free(&PD, my[j].p) != 0) vs_log("{\"e\":\"freefailed\",\"id\":%d}", my[j].id);
			my[j] = my[--k];
		}
		if (R(30) == 0) { struct rrr_mmap_stats st; rrr_mmap_collection_maintenance(&st, C); }
	}
	while (k) { k--; int ok = okpat(my[k].p, my[k].id, my[k].sz); vs_log("{\"e\":\"free\",\"id\":%d,\"ok\":%s}", my[k].id, ok ? "true" : "false"); rrr_mmap_collection_free(&PD, my[k].p); }
	return NULL;
}
int main (int argc, char **argv) {
	(void) argc;
	rrr_allocator_init(); rrr_log_init(); rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	int n = atoi(argv[2]); mode = atoi(argv[3]); dir = argv[4];
	vs_init(strtoull(argv[1], NULL, 10), mode == 3 ? 300 : 0, mode == 3 ? 30 : 0, 0);
	if (rrr_mmap_collection_new(&C, mode == 1 || mode == 2, "heap") != 0) return 9;
	rrr_mmap_collection_private_data_init(&PD, C);
	static const long long mins[] = { 1, 1024, 4096, 65536, 1 << 20 };
	watch = 1;
	minsz = mins[R(5)]; sizeclass = R(6);
	if (mode == 2) for (int k = 0; k < 2; k++) {
		if (socketpair(AF_UNIX, SOCK_STREAM, 0, sk[k])) return 9;
		if (fork() == 0) { vs_active = 0; for (int j = 0; j <= k; j++) close(sk[j][0]); child(k); }
		close(sk[k][1]); np++;
	}
	if (mode == 3) {
		pthread_t t[3];
		for (int i = 0; i < 3; i++) pthread_create(&t[i], NULL, thread, (void *) (intptr_t) (n / 3));
		for (int i = 0; i < 3; i++) pthread_join(t[i], NULL);
	}
	else {
		int domaint = R(3) == 0, style = R(5);
		for (int s = 0; s < n; s++) {
			int x = R(100);
			livebytes = 0; for (int i = 0; i < nl; i++) livebytes += L[i].sz;
			if (livebytes > 24000000 || nl > 900) { while (nl > 4) free1(R(nl), 0); continue; }
			if (R(60) == 0) { sizeclass = R(6); style = R(5); }
			if (style == 0) { /* everything stays until it is all freed; one old one pins each segment */
				int k = 1 + R(200); for (int i = 0; i < k && nl < 900; i++, s++) alloc1(1);
				int keep = R(3); while (nl > keep) { free1(R(nl), 0); s++; }
			}
			else if (style == 1 && nl) { free1(0, 0); alloc1(1); s++; }
			else if (x < 55) alloc1(1);
			else if (x < 90 && nl) free1(R(4) ? R(nl) : nl - 1, 0);
			else if (x < 94 && nl) free1(R(nl), 1);
			else if (x < 96 && domaint) maint();
			else if (x < 97 && R(6) == 0) { /* all segments */
				int c = sizeclass; long long m = minsz; minsz = 1; sizeclass = 2; int k = 0;
				for (; k < 200 && nl < MAXL - 2; k++) { s++; if (alloc1(1)) break; }
				sizeclass = c; minsz = m;
				while (nl > 10) { free1(R(nl), 0); s++; }
			}
		}
		if (R(2)) { while (nl) free1(R(nl), 0); for (int i = 0; i < 15; i++) maint(); for (int i = 0; i < 30; i++) alloc1(1); }
		while (nl) free1(R(nl), 0);
	}
	for (int k = 0; k < np; k++) close(sk[k][0]);
	while (np && wait(NULL) > 0);
	rrr_mmap_collection_destroy(C);
	rrr_shm_holders_cleanup();
	vs_log("{\"e\":\"end\",\"files\":%d}", files());
	vs_end(); _exit(0);
}
