/* Drives src/lib/fifo_protected.c with scripted threads under a controlled scheduler.
 * stdin: seed lock cov time / lines "T" start a thread, then its ops:
 *  w n <spec...> | w d <spec..> : write; spec = flags[:order], flags o a d e (combined)
 *  r <decisions>                : read; one letter per callback, last repeats
 *  x [d]                        : with_write_lock_do (d: delayed write inside)
 *  y                            : yield / c: count if nothing is in progress */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/fifo_protected.h"
#include "vsched.h"
#include <pthread.h>
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#define MAXT 8
struct op { char k; char spec[4096]; char kind; };
static struct op *ops[MAXT]; static int nops[MAXT], nthreads;
static struct rrr_fifo_protected B;
static int inprog, next_id = 1;
static int destroying;
struct item { unsigned magic; int id; };
static int idof (char *d) { struct item *i = (void *) d; if (i == NULL || i->magic != 0xfeedbeef) return -1; return i->id; }
static char *mk (int id) { struct item *i = rrr_allocate(sizeof *i); i->magic = 0xfeedbeef; i->id = id; return (char *) i; }
static void freecb (void *d) {
	int id = idof(d);
	if (destroying) vs_log("{\"e\":\"df\",\"id\":%d}", id); else vs_log("{\"e\":\"fr\",\"t\":%d,\"id\":%d}", vs_tid(), id);
	((struct item *) d)->magic = 0xdeadbeef; rrr_free(d);
}
struct wr { char *p; };
static int wcb (char **data, unsigned long *size, uint64_t *order, void *arg) {
	struct wr *w = arg; char f[128]; int n = 0, ret = 0, any = 0, drop = 0, err = 0; unsigned long o = 0;
	if (vs_rand() % 8 < 1) vs_yield();
	f[0] = 0;
	while (*w->p == ' ') w->p++;
	while (*w->p && *w->p != ' ') {
		char c = *w->p++;
		const char *s = NULL;
		if (c == 'a') { s = "again"; ret |= RRR_FIFO_PROTECTED_WRITE_AGAIN; }
		if (c == 'd') { s = "drop"; ret |= RRR_FIFO_PROTECTED_WRITE_DROP; drop = 1; }
		if (c == 'e') { s = "err"; ret |= RRR_FIFO_PROTECTED_GLOBAL_ERR; err = 1; }
		if (c == ':') { o = strtoul(w->p, &w->p, 10); ret |= RRR_FIFO_PROTECTED_WRITE_ORDERED; s = "ordered"; }
		if (s) n += sprintf(f + n, "%s\"%s\"", any++ ? "," : "", s);
	}
	int id = next_id++;
	if (!drop && !err) { *data = mk(id); *size = sizeof(struct item); }
	*order = o;
	vs_log("{\"e\":\"wc\",\"t\":%d,\"id\":%d,\"o\":%lu,\"f\":[%s]}", vs_tid(), id, o, f);
	return ret;
}
static void dowrite (char kind, const char *spec) {
	struct wr w = { (char *) spec };
	vs_log("{\"e\":\"ws\",\"t\":%d,\"k\":\"%c\"}", vs_tid(), kind);
	int r = kind == 'd' ? rrr_fifo_protected_write_delayed(&B, wcb, &w) : rrr_fifo_protected_write(&B, wcb, &w);
	vs_log("{\"e\":\"we\",\"t\":%d,\"r\":%d}", vs_tid(), r);
}
static int rcb (void *arg, char *data, unsigned long size) {
	char **p = arg; char c = **p; if ((*p)[1] && (*p)[1] != ' ') (*p)++;
	const char *f = ""; int ret = 0, fr = 0;
	int id = idof(data);
	if (size != sizeof(struct item)) id = -2;
	switch (c) {
		case 'f': f = "\"free\""; ret = RRR_FIFO_PROTECTED_SEARCH_FREE; fr = 1; break;
		case 's': f = "\"stop\""; ret = RRR_FIFO_PROTECTED_SEARCH_STOP; break;
		case 'S': f = "\"stop\",\"free\""; ret = RRR_FIFO_PROTECTED_SEARCH_STOP|RRR_FIFO_PROTECTED_SEARCH_FREE; fr = 1; break;
		case 'c': f = "\"cberr\""; ret = RRR_FIFO_PROTECTED_CALLBACK_ERR; break;
		case 'C': f = "\"cberr\",\"free\""; ret = RRR_FIFO_PROTECTED_CALLBACK_ERR|RRR_FIFO_PROTECTED_SEARCH_FREE; fr = 1; break;
		case 'g': f = "\"gerr\""; ret = RRR_FIFO_PROTECTED_GLOBAL_ERR; break;
	}
	vs_log("{\"e\":\"rc\",\"t\":%d,\"id\":%d,\"f\":[%s]}", vs_tid(), id, f);
	vs_yield();
	if (c == 'w') dowrite('n', "o");
	if (c == 'd') dowrite('d', "o");
	if (!fr) { ((struct item *) data)->magic = 0xdeadbeef; rrr_free(data); }
	return ret;
}
static void doread (const char *dec) {
	char *p = (char *) dec;
	vs_log("{\"e\":\"rs\",\"t\":%d}", vs_tid());
	int r = rrr_fifo_protected_read_clear_forward(&B, rcb, &p);
	vs_log("{\"e\":\"re\",\"t\":%d,\"r\":%d}", vs_tid(), r);
}
static int xcb (void *a, void *b) {
	vs_log("{\"e\":\"xs\",\"t\":%d}", vs_tid());
	vs_yield();
	if (a) dowrite('d', "o");
	vs_yield();
	vs_log("{\"e\":\"xe\",\"t\":%d}", vs_tid());
	return 0;
}
static void count (void) {
	vs_atomic_begin();
	if (!inprog) vs_log("{\"e\":\"cn\",\"n\":%lu}", (unsigned long) rrr_fifo_protected_get_entry_count(&B));
	vs_atomic_end();
}
static void *thr (void *a) {
	int t = (int)(long) a;
	for (int i = 0; i < nops[t]; i++) {
		struct op *o = &ops[t][i];
		if (o->k != 'c' && o->k != 'y') inprog++;
		switch (o->k) {
			case 'w': dowrite(o->kind, o->spec); break;
			case 'r': doread(o->spec); break;
			case 'x': rrr_fifo_protected_with_write_lock_do(&B, xcb, o->kind == 'd' ? &B : NULL, NULL); break;
			case 'y': vs_yield(); break;
			case 'c': count(); break;
		}
		if (o->k != 'c' && o->k != 'y') inprog--;
		vs_yield();
	}
	return NULL;
}
int main (void) {
	static char line[70000]; unsigned long long seed; unsigned a, b, c;
	if (!fgets(line, sizeof line, stdin) || sscanf(line, "%llu %u %u %u", &seed, &a, &b, &c) != 4) return 9;
	int t = -1;
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		if (*line == 'T') { t++; continue; }
		ops[t] = realloc(ops[t], (nops[t] + 1) * sizeof(struct op));
		struct op *o = &ops[t][nops[t]++]; memset(o, 0, sizeof *o);
		o->k = line[0];
		if (o->k == 'w' || o->k == 'x') { o->kind = line[1] ? line[2] : 0; strncpy(o->spec, strlen(line) > 4 ? line + 4 : "", sizeof o->spec - 1); }
		else if (o->k == 'r') strncpy(o->spec, strlen(line) > 2 ? line + 2 : "k", sizeof o->spec - 1);
	}
	nthreads = t + 1;
	rrr_log_init();
	rrr_fifo_protected_init(&B, freecb);
	vs_log("{\"e\":\"cfg\",\"max\":%d}", RRR_FIFO_PROTECTED_MAX_READS);
	vs_init(seed, a, b, c);
	pthread_t pt[MAXT];
	for (int i = 0; i < nthreads; i++) pthread_create(&pt[i], NULL, thr, (void *)(long) i);
	for (int i = 0; i < nthreads; i++) pthread_join(pt[i], NULL);
	count();
	if (seed & 1) {
		int lim = 0;
		while (rrr_fifo_protected_get_entry_count(&B) && lim++ < 100) doread("k");
		doread("k"); doread("k");
		count();
		struct rrr_fifo_protected_stats st; rrr_fifo_protected_get_stats(&st, &B);
		vs_log("{\"e\":\"st\",\"w\":%llu,\"d\":%llu}", (unsigned long long) st.total_entries_written, (unsigned long long) st.total_entries_deleted);
	}
	destroying = 1;
	rrr_fifo_protected_destroy(&B);
	vs_log("{\"e\":\"de\"}");
	vs_end();
	_exit(0);
}
