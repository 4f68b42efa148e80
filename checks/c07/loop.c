/* Random histories of a send loop with virtual time. argv: seed nops */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "lib/event/event.h"
#include "lib/send_loop.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/messages/msg_msg.h"
#include "lib/util/rrr_time.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#define MAXE 400
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static struct rrr_event_queue *Q;
static struct rrr_send_loop *L;
static struct rrr_msg_holder *E[MAXE];
static int inq[MAXE], ne, indisp, runret;
static int p_fail, burst;
static uint64_t until;
static long long T (void) { return (long long) vs_now(); }
static int idof (const struct rrr_msg_holder *h) { for (int i = 0; i < ne; i++) if (E[i] == h) return i + 1; return -1; }
static const char *rcs[] = { "ok", "notready", "soft", "hard" };
static int rcv (void) {
	if (burst > 0) { burst--; return 1; }
	int x = R(1000);
	if (x < p_fail) { if (R(3) == 0) burst = R(6); return 1; }
	x = R(100);
	return x < 12 ? 2 : x < 15 ? 3 : 0;
}
static int push_cb (struct rrr_msg_holder *e, void *arg) {
	(void) arg;
	int id = idof(e), r = rcv();
	vs_log("{\"e\":\"try\",\"id\":%d,\"rc\":\"%s\",\"t\":%lld}", id, rcs[r], T());
	if (r != 1 && id > 0) inq[id - 1] = 0;
	return r == 0 ? 0 : r == 1 ? RRR_SEND_LOOP_NOT_READY : r == 2 ? RRR_SEND_LOOP_SOFT_ERROR : RRR_SEND_LOOP_HARD_ERROR;
}
static int ret_cb (struct rrr_msg_holder *e, void *arg) {
	(void) arg;
	int id = idof(e), r = R(12) ? 0 : 1;
	vs_log("{\"e\":\"ret\",\"id\":%d,\"rc\":\"%s\",\"t\":%lld}", id, r ? "hard" : "ok", T());
	if (id > 0) inq[id - 1] = 0;
	return r;
}
static void run_cb (void *arg) { (void) arg; vs_log("{\"e\":\"rede\",\"n\":%d,\"t\":%lld}", rrr_send_loop_count(L), T()); }
static int per (RRR_EVENT_FUNCTION_PERIODIC_ARGS) { (void) arg; return vs_now() >= until ? RRR_EVENT_EXIT : 0; }
static void params (int first) {
	static const char *acts[] = { "retry", "drop", "return" };
	static const int lim[] = { 0, 0, 3000, 50000, 300000, 2000000 };
	int o = R(2), a = R(3); long long ttl = lim[R(6)], to = lim[R(6)];
	uint64_t ttlv = (uint64_t) ttl, tov = (uint64_t) to;
	if (R(8) == 0) { ttl = -1; ttlv = R(2) ? UINT64_MAX : 3000000000000000ULL; }
	if (R(8) == 0) { to = -1; tov = R(2) ? UINT64_MAX : 3000000000000000ULL; }
	enum rrr_send_loop_action act;
	if (rrr_send_loop_action_from_str(&act, acts[a]) != 0) _exit(9);
	vs_log("{\"e\":\"par\",\"order\":%s,\"ttl\":%lld,\"timeout\":%lld,\"action\":\"%s\"}", o ? "true" : "false", ttl, to, a == 2 ? "ret" : acts[a]);
	if (first) { if (rrr_send_loop_new(&L, Q, "loop", o, ttlv, tov, act, push_cb, ret_cb, run_cb, NULL) != 0) _exit(9); }
	else rrr_send_loop_set_parameters(L, o, ttlv, tov, act);
}
static int touchmod;
static int cmp (const struct rrr_msg_holder *e, const struct rrr_msg_holder *r, void *arg) { (void) e; (void) arg; return idof(r) % touchmod != 0; }
static void sync_inq (void) { /* the loop holds a reference to every entry it keeps */ for (int i = 0; i < ne; i++) inq[i] = rrr_msg_holder_usercount(E[i]) > 1; }
int main (int argc, char **argv) {
	(void) argc;
	rrr_allocator_init();
	rrr_log_init();
	rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	if (rrr_event_queue_new(&Q) != 0) return 9;
	vs_init(strtoull(argv[1], NULL, 10), 0, 0, 0);
	vs_advance(100000000);
	int n = atoi(argv[2]);
	p_fail = R(3) ? R(600) : 0;
	params(1);
	for (int s = 0; s < n && ne < MAXE - 2; s++) {
		int x = R(100);
		sync_inq();
		if (x < 30) {
			struct rrr_msg_msg *m; struct rrr_msg_holder *h;
			long long ts = T() + (R(3) ? -R(4000) : R(2) ? -R(1000000) : R(100000));
			if (rrr_msg_msg_new_empty(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, VS_EPOCH_US + (uint64_t) ts, 0, 0) != 0) return 9;
			if (rrr_msg_holder_new(&h, MSG_TOTAL_SIZE(m), NULL, 0, 0, m) != 0) return 9;
			E[ne++] = h;
			rrr_msg_holder_lock(h);
			rrr_send_loop_entry_prepare(L, h);
			vs_log("{\"e\":\"prep\",\"id\":%d,\"ts\":%lld,\"t\":%lld,\"idx\":%lld}", ne, ts, T(), (long long) rrr_msg_holder_send_index(h));
			if (R(12)) {
				int u = R(8) == 0;
				vs_log("{\"e\":\"%s\",\"id\":%d,\"t\":%lld}", u ? "unsh" : "push", ne, T());
				if (u) rrr_send_loop_unshift(L, h); else rrr_send_loop_push(L, h);
			}
			rrr_msg_holder_unlock(h);
			if (R(3)) vs_advance((uint64_t) R(20000));
		}
		else if (x < 42) { /* put back something which has been given out */
			int i = ne ? R(ne) : -1;
			if (i >= 0 && R(2)) i = ne - 1 - R(ne > 6 ? 6 : ne);
			if (i < 0 || inq[i]) continue;
			rrr_msg_holder_lock(E[i]);
			int k = R(4), did;
			if (k == 0) {
				rrr_send_loop_entry_prepare(L, E[i]);
				vs_log("{\"e\":\"prep\",\"id\":%d,\"ts\":%lld,\"t\":%lld,\"idx\":%lld}", i + 1, (long long) (((struct rrr_msg_msg *) E[i]->message)->timestamp - VS_EPOCH_US), T(), (long long) rrr_msg_holder_send_index(E[i]));
				rrr_send_loop_push(L, E[i]);
				vs_log("{\"e\":\"push\",\"id\":%d,\"t\":%lld}", i + 1, T());
			}
			else if (k == 1) { rrr_send_loop_unshift_if_timed_out(&did, L, E[i]); vs_log("{\"e\":\"unsht\",\"id\":%d,\"t\":%lld,\"did\":%s}", i + 1, T(), did ? "true" : "false"); }
			else { rrr_send_loop_unshift(L, E[i]); vs_log("{\"e\":\"unsh\",\"id\":%d,\"t\":%lld}", i + 1, T()); }
			rrr_msg_holder_unlock(E[i]);
		}
		else if (x < 62) {
			int r = rrr_send_loop_run(L);
			vs_log("{\"e\":\"re\",\"err\":%d,\"n\":%d,\"t\":%lld}", r != 0, rrr_send_loop_count(L), T());
			if (R(2)) { rrr_send_loop_event_add_or_remove(L); vs_log("{\"e\":\"aor\",\"pending\":%s}", rrr_send_loop_event_pending(L) ? "true" : "false"); }
		}
		else if (x < 78) {
			until = vs_now() + (uint64_t) (R(3) ? R(30000) : R(3) ? R(700000) : R(3000000));
			if (R(5) == 0) rrr_send_loop_event_remove(L);
			vs_log("{\"e\":\"disp\",\"t\":%lld}", T());
			int r = rrr_event_dispatch(Q, 5000, per, NULL);
			vs_log("{\"e\":\"dend\",\"rc\":%d,\"n\":%d,\"t\":%lld}", r, rrr_send_loop_count(L), T());
		}
		else if (x < 86) vs_advance((uint64_t) (R(3) ? R(100000) : R(1500000)));
		else if (x < 89) params(0);
		else if (x < 93 && ne) {
			int i = R(ne), first = 1; char b[8192]; int k = 0;
			touchmod = 1 + R(3); b[0] = 0;
			sync_inq();
			for (int j = 0; j < ne; j++) if (j != i && inq[j] && (j + 1) % touchmod == 0) { k += sprintf(b + k, "%s%d", first ? "" : ",", j + 1); first = 0; }
			rrr_msg_holder_lock(E[i]);
			rrr_send_loop_entry_touch_related(L, E[i], cmp, NULL);
			rrr_msg_holder_unlock(E[i]);
			vs_log("{\"e\":\"touch\",\"ids\":[%s],\"t\":%lld}", b, T());
		}
		else if (x < 94) { rrr_send_loop_clear(L); vs_log("{\"e\":\"clear\"}"); }
		else if (x < 97) { p_fail = R(3) ? R(900) : 0; }
		else vs_log("{\"e\":\"count\",\"n\":%d}", rrr_send_loop_count(L));
	}
	rrr_send_loop_destroy(L);
	for (int i = 0; i < ne; i++) {
		if (rrr_msg_holder_usercount(E[i]) != 1) { vs_log("{\"e\":\"refcount\",\"id\":%d,\"n\":%d}", i + 1, rrr_msg_holder_usercount(E[i])); break; }
		rrr_msg_holder_decref(E[i]);
	}
	vs_log("{\"e\":\"end\"}");
	vs_end(); _exit(0);
}
