/* Random operations on src/lib/fifo.c, recorded as a trace. argv: seed nops */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/fifo.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
struct item { unsigned magic; int id; int refs; };
static struct rrr_fifo B[3];
static int next_id = 1, quietref, cur_b, depth, destroying;
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static struct item *mk (void) { struct item *i = malloc(sizeof *i); i->magic = 0xfeedbeef; i->id = next_id++; i->refs = 1; return i; }
static int idof (void *d) { struct item *i = d; return i && i->magic == 0xfeedbeef ? i->id : -1; }
static void drop (struct item *i) { if (--i->refs == 0) { i->magic = 0xdeadbeef; free(i); } }
static void inc (void *d) { vs_log("{\"e\":\"inc\",\"id\":%d}", idof(d)); ((struct item *) d)->refs++; }
static void dec (void *d) {
	if (destroying) vs_log("{\"e\":\"dd\",\"b\":%d,\"id\":%d}", cur_b, idof(d)); else vs_log("{\"e\":\"dec\",\"id\":%d}", idof(d));
	drop(d);
}
/* our own reference is dropped when the operation has returned */
static struct item *mine[4096]; static int nmine;
static void release (void) { for (int i = 0; i < nmine; i++) drop(mine[i]); nmine = 0; }
static int pk;  /* flavour of callbacks in this operation */
static int wcb1 (char **data, unsigned long *size, uint64_t *order, void *arg) {
	int left = *(int *) arg; (*(int *) arg)--;
	int ret = 0; char f[64] = ""; int x = R(20), id = 0; unsigned o = (unsigned) R(8);
	if (x == 0) { ret = RRR_FIFO_WRITE_DROP; strcpy(f, "\"drop\""); }
	else if (x == 1) { ret = RRR_FIFO_GLOBAL_ERR; strcpy(f, "\"err\""); }
	else {
		struct item *i = mk(); mine[nmine++] = i; *data = (char *) i; *size = sizeof *i; *order = o; id = i->id;
		if (pk & 1) { ret |= RRR_FIFO_WRITE_ORDERED; strcat(f, "\"ordered\""); }
	}
	if (left > 1 && x != 1) { ret |= RRR_FIFO_WRITE_AGAIN; if (*f) strcat(f, ","); strcat(f, "\"again\""); }
	vs_log("{\"e\":\"wc\",\"id\":%d,\"o\":%u,\"f\":[%s]}", id, o, f);
	return ret;
}
static void dowrite (int b) {
	int n = 1 + R(4);
	vs_log("{\"e\":\"wb\",\"b\":%d}", b);
	int r = rrr_fifo_write(&B[b], wcb1, &n);
	vs_log("{\"e\":\"we\",\"r\":%d}", r);
}
static int cb (void *arg, char *data, unsigned long size) {
	char k = *(char *) arg; const char *f = ""; int ret = 0; int x = R(10); struct item *it = (struct item *) data; int id = idof(data);
	if (size != sizeof(struct item)) id = -2;
	int take = 0;
	if (pk == 7 && x > 5) x = 5;
	if (k == 's') switch (x) {
		case 0: f = "\"stop\""; ret = RRR_FIFO_SEARCH_STOP; break;
		case 1: case 2: f = "\"give\",\"free\""; ret = RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE; break;
		case 3: case 4: f = "\"give\""; ret = RRR_FIFO_SEARCH_GIVE; take = 1; break;
		case 5: if (R(3) == 0) { f = "\"give\",\"stop\""; ret = RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_STOP; take = 1; } else if (R(3) == 0) { f = "\"give\",\"free\",\"stop\""; ret = RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP; } break;
		case 6: if (R(3) == 0) { f = "\"cberr\""; ret = RRR_FIFO_CALLBACK_ERR; } break;
	}
	else if (k == 'c') { take = 1; switch (x) {
		case 0: case 1: case 2: f = "\"free\""; ret = RRR_FIFO_SEARCH_FREE; take = 0; break;
		case 3: if (R(3) == 0) { f = "\"stop\""; ret = RRR_FIFO_SEARCH_STOP; } break;
		case 4: if (R(3) == 0) { f = "\"stop\",\"free\""; ret = RRR_FIFO_SEARCH_STOP|RRR_FIFO_SEARCH_FREE; take = 0; } break;
		case 5: if (R(3) == 0) { f = "\"cberr\""; ret = RRR_FIFO_CALLBACK_ERR; } break;
		case 6: if (R(3) == 0) { f = "\"gerr\",\"free\""; ret = RRR_FIFO_GLOBAL_ERR|RRR_FIFO_SEARCH_FREE; take = 0; } break;
	} }
	else switch (x) {
		case 0: if (R(3) == 0) { f = "\"stop\""; ret = RRR_FIFO_SEARCH_STOP; } break;
		case 1: if (R(2) == 0) { f = "\"cberr\""; ret = RRR_FIFO_CALLBACK_ERR; } break;
		case 2: if (R(3) == 0) { f = "\"gerr\""; ret = RRR_FIFO_GLOBAL_ERR; } break;
	}
	vs_log("{\"e\":\"cb\",\"id\":%d,\"f\":[%s]}", id, f);
	if (take) mine[nmine++] = it;
	if (k == 'c' && ret == 0 && x > 7 && depth < 2) { depth++; dowrite(cur_b); depth--; }
	return ret;
}
static int wipecb (void *arg, char **data, unsigned long size) {
	int take = R(2);
	vs_log("{\"e\":\"cb\",\"id\":%d,\"f\":[%s]}", idof(*data), take ? "\"take\"" : "");
	if (take) { mine[nmine++] = (struct item *) *data; *data = NULL; }
	return 0;
}
static int looped;
static int rpcb (char **data, unsigned long *size, uint64_t *order, void *arg) {
	if (*data == NULL) {
		int n = 1 + (R(3) == 0); int keep = pk; pk = 0;
		int r = wcb1(data, size, order, &n); pk = keep; return r;
	}
	struct item *it = (struct item *) *data; int id = idof(it); unsigned long o = *order; int x = R(9), ret = 0; const char *f = "";
	int nid = 0, no = 0, take = 0;
	switch (x) {
		case 0: if (R(2)) { f = "\"stop\""; ret = RRR_FIFO_SEARCH_STOP; } break;
		case 1: f = "\"give\",\"free\""; ret = RRR_FIFO_SEARCH_GIVE|RRR_FIFO_SEARCH_FREE; break;
		case 2: f = "\"give\""; ret = RRR_FIFO_SEARCH_GIVE; take = 1; break;
		case 3: case 4: f = "\"replace\",\"free\""; ret = RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_FREE; break;
		case 5: f = "\"replace\""; ret = RRR_FIFO_SEARCH_REPLACE; take = 1; break;
		case 6: if (R(3) == 0) { f = "\"replace\",\"free\",\"stop\""; ret = RRR_FIFO_SEARCH_REPLACE|RRR_FIFO_SEARCH_FREE|RRR_FIFO_SEARCH_STOP; } break;
		case 7: if (R(3) == 0) { f = "\"cberr\""; ret = RRR_FIFO_CALLBACK_ERR; } break;
	}
	if (take) mine[nmine++] = it;
	if (ret & RRR_FIFO_SEARCH_REPLACE) { struct item *i = mk(); mine[nmine++] = i; *data = (char *) i; *size = sizeof *i; no = R(8); *order = (uint64_t) no; nid = i->id; }
	vs_log("{\"e\":\"rp\",\"id\":%d,\"o\":%lu,\"f\":[%s],\"n\":%d,\"no\":%d}", id, o, f, nid, no);
	return ret;
}
int main (int argc, char **argv) {
	rrr_log_init();
	vs_init(strtoull(argv[1], NULL, 10), 0, 0, 0);
	int n = atoi(argv[2]);
	int ordered = R(3) == 0;
	rrr_fifo_init_custom_refcount(&B[1], inc, dec); rrr_fifo_init_custom_refcount(&B[2], inc, dec);
	for (int i = 0; i < n; i++) {
		int b = 1 + R(2); cur_b = b; char k; int r, m, a; pk = 0;
		switch (R(9)) {
			case 0: case 1: case 2: pk = ordered ? 1 : R(6) == 0; dowrite(b); break;
			case 3: k = 's'; vs_log("{\"e\":\"ob\",\"k\":\"search\",\"b\":%d,\"m\":0,\"a\":0}", b); r = rrr_fifo_search(&B[b], cb, &k); vs_log("{\"e\":\"oe\",\"r\":%d}", r); break;
			case 4: a = R(2); vs_log("{\"e\":\"ob\",\"k\":\"replace\",\"b\":%d,\"m\":0,\"a\":%d}", b, a); r = rrr_fifo_search_and_replace(&B[b], rpcb, NULL, a); vs_log("{\"e\":\"oe\",\"r\":%d}", r); break;
			case 5: if (R(2)) { k = 'r'; vs_log("{\"e\":\"ob\",\"k\":\"read\",\"b\":%d,\"m\":0,\"a\":0}", b); r = rrr_fifo_read(&B[b], cb, &k); }
				else { k = 'r'; m = R(6); vs_log("{\"e\":\"ob\",\"k\":\"min\",\"b\":%d,\"m\":%d,\"a\":0}", b, m); r = rrr_fifo_read_minimum(&B[b], NULL, cb, &k, (uint64_t) m); }
				vs_log("{\"e\":\"oe\",\"r\":%d}", r); break;
			case 6: if (R(2)) { k = 'c'; vs_log("{\"e\":\"ob\",\"k\":\"clear\",\"b\":%d,\"m\":0,\"a\":0}", b); r = rrr_fifo_read_clear_forward_all(&B[b], cb, &k); vs_log("{\"e\":\"oe\",\"r\":%d}", r); } break;
			case 7: if (R(4) == 0) { vs_log("{\"e\":\"ob\",\"k\":\"wipe\",\"b\":%d,\"m\":0,\"a\":0}", b); rrr_fifo_clear_with_callback(&B[b], wipecb, NULL); vs_log("{\"e\":\"oe\",\"r\":0}"); } break;
			case 8: if (R(3) == 0) { vs_log("{\"e\":\"mg\",\"a\":%d,\"b\":%d}", b, 3 - b); rrr_fifo_merge(&B[b], &B[3 - b]); } break;
		}
		release();
		for (int x = 1; x <= 2; x++) vs_log("{\"e\":\"cn\",\"b\":%d,\"n\":%lu}", x, (unsigned long) rrr_fifo_get_entry_count(&B[x]));
	}
	destroying = 1;
	for (cur_b = 1; cur_b <= 2; cur_b++) rrr_fifo_destroy(&B[cur_b]);
	vs_log("{\"e\":\"end\"}");
	vs_end();
	_exit(0);
}
