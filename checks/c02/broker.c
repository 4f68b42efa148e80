/* Instances exchanging messages through the message broker. argv: seed nmsgs mode
   mode 0: any readers per sender, 1: readers stop at some point (writers must be able to give up),
   2: competing readers of which one has another sender too,
   3: forwarding from a slot with two readers to a slot read by the other one */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/rrr_config.h"
#include "lib/instances.h"
#include "lib/instance_friends.h"
#include "lib/poll_helper.h"
#include "lib/message_broker.h"
#include "lib/event/event.h"
#include "lib/event/event_functions.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/message_holder/message_holder_collection.h"
#include "lib/messages/msg_msg.h"
#include "lib/mqtt/mqtt_topic.h"
#include "lib/fifo_protected.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <pthread.h>
#define MAXI 4
static const char *names[] = { "", "i1", "i2", "i3", "i4" };
static const char *topics[] = { "", "a", "a/b", "b", "b/c", "a/b/c" };
static const char *filters[] = { "", "a", "a/#", "+/b", "#", "b/+", "+" };
static struct I {
	struct rrr_instance inst; struct rrr_instance_module_data mod; struct rrr_instance_runtime_data rt;
	struct rrr_message_broker_costumer *c; struct rrr_event_queue *q; struct rrr_msg_holder_collection coll;
	int n, ns, snd[MAXI], nr, dup, slot, filter, inv, bs, hook, fwd, stopped, lazy;
} in[MAXI + 1];
static struct rrr_message_broker *B;
static int N, mode, nmsg, budget, nid, writers, stop, cancel, failpm; static uint64_t last;
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static __thread int me;
static int cancel_cb (void *arg) { (void) arg; return cancel; }
static void mkname (char *b, unsigned mask) { char *p = b; *p++ = '['; for (int i = 1; i <= N; i++) if (mask >> i & 1) p += sprintf(p, "%s%d", p[-1] == '[' ? "" : ",", i); strcpy(p, "]"); }
static unsigned maskof (int id, int k) { unsigned x = (unsigned) id * 2654435761U + (unsigned) k * 40503U; x ^= x >> 13; return x % 3 ? 0 : (x >> 4) & (unsigned) ((2 << N) - 2); }
static void coll_make (struct rrr_instance_friend_collection *c, unsigned mask) {
	memset(c, 0, sizeof(*c));
	for (int i = 1; i <= N; i++) if (mask >> i & 1) if (rrr_instance_friend_collection_append(c, &in[i].inst, NULL)) abort();
}
static int msg_id (const struct rrr_msg_holder *e, int *ok, int *top) {
	const struct rrr_msg_msg *m = e->message; int id = 0;
	*ok = e->data_length == MSG_TOTAL_SIZE(m) && MSG_DATA_LENGTH(m) >= 8;
	if (!*ok) return 0;
	const unsigned char *d = (const unsigned char *) MSG_DATA_PTR(m); memcpy(&id, d, 4);
	for (unsigned i = 4; i < MSG_DATA_LENGTH(m); i++) if (d[i] != (unsigned char) (id * 7 + (int) i)) *ok = 0;
	*top = -1;
	for (int i = 0; i < 6; i++) if (strlen(topics[i]) == MSG_TOPIC_LENGTH(m) && !memcmp(topics[i], MSG_TOPIC_PTR(m), MSG_TOPIC_LENGTH(m))) *top = i;
	if (*top < 0) { *top = 0; *ok = 0; }
	return id;
}
static struct rrr_msg_msg *mk (int id, int top) {
	unsigned char d[64]; int n = 8 + R(50);
	memcpy(d, &id, 4); for (int i = 4; i < n; i++) d[i] = (unsigned char) (id * 7 + i);
	struct rrr_msg_msg *m; if (rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, topics[top], (rrr_u16) strlen(topics[top]), (char *) d, (rrr_u32) n)) abort();
	return m;
}
static int hook (struct rrr_msg_holder *e, void *arg) {
	struct I *s = arg; int ok, t;
	if (s->hook) { struct rrr_instance_friend_collection c; coll_make(&c, maskof(msg_id(e, &ok, &t), 9)); rrr_msg_holder_nexthops_set(e, &c); rrr_instance_friend_collection_clear(&c); }
	return 0;
}
struct wr { struct I *s; int more, id; unsigned mask; };
static void item (char *b, struct I *s, int id, unsigned mask, int top, int src) {
	char nh[32]; mkname(nh, s->hook ? maskof(id, 9) : mask);
	sprintf(b, "{\"id\":%d,\"nh\":%s,\"top\":%d,\"src\":%d}", id, nh, top, src);
}
static int write_cb (struct rrr_msg_holder *e, void *arg) {
	struct wr *w = arg; int ret = 0, top = R(6), id = ++nid; char b[128];
	last = vs_now();
	w->more--;
	if (R(8) == 0) { rrr_msg_holder_unlock(e); return RRR_MESSAGE_BROKER_DROP | (w->more > 0 ? RRR_MESSAGE_BROKER_AGAIN : 0); }
	struct rrr_msg_msg *m = mk(id, top);
	rrr_msg_holder_set_data_unlocked(e, m, MSG_TOTAL_SIZE(m));
	item(b, w->s, id, w->mask, top, 0);
	vs_log("{\"e\":\"pub\",\"t\":%d,\"s\":%d,\"m\":%s}", me, w->s->n, b);
	if (w->more > 0) ret |= RRR_MESSAGE_BROKER_AGAIN;
	rrr_msg_holder_unlock(e);
	return ret;
}
static void fresh (struct rrr_msg_holder **e, int id, int top) {
	struct rrr_msg_msg *m = mk(id, top);
	if (rrr_msg_holder_new(e, MSG_TOTAL_SIZE(m), NULL, 0, 0, m)) abort();
}
static int source_sends (struct I *s) { /* one write by the instance's own thread */
	struct rrr_instance_friend_collection nh; unsigned mask = maskof(R(1000000), 1); int r, k = R(5); if (mode == 1 && k == 3) k = 4; /* cloning can not be cancelled */
	coll_make(&nh, mask); last = vs_now();
	if (k < 3) {
		struct wr w = { s, R(4) ? 1 : 1 + R(6), 0, mask };
		vs_log("{\"e\":\"wb\",\"t\":%d,\"s\":%d,\"ms\":[]}", me, s->n);
		r = rrr_message_broker_write_entry(s->c, NULL, 0, 0, R(2) || mask ? &nh : NULL, write_cb, &w, cancel_cb, NULL);
	} else {
		char l[900] = "", b[128]; struct rrr_msg_holder_collection c; memset(&c, 0, sizeof(c)); int n = k == 3 ? 1 : 1 + R(4); struct rrr_msg_holder *e = NULL;
		for (int i = 0; i < n; i++) {
			int id = ++nid, top = R(6); fresh(&e, id, top); item(b, s, id, mask, top, 0); if (*l) strcat(l, ","); strcat(l, b);
			if (k == 4) RRR_LL_APPEND(&c, e);
		}
		vs_log("{\"e\":\"wb\",\"t\":%d,\"s\":%d,\"ms\":[%s]}", me, s->n, l);
		if (k == 3) { r = rrr_message_broker_clone_and_write_entry(s->c, e, &nh); rrr_msg_holder_decref(e); }
		else { r = rrr_message_broker_write_entries_from_collection_unsafe(s->c, &c, &nh, cancel_cb, NULL); rrr_msg_holder_collection_clear(&c); }
	}
	last = vs_now();
	vs_log("{\"e\":\"we\",\"t\":%d,\"ok\":%s,\"now\":%d}", me, r == 0 ? "true" : "false", (int) (vs_now() / 1000));
	rrr_instance_friend_collection_clear(&nh);
	return r;
}
static void uid (struct I *s) {
	uint64_t v = 0; rrr_message_broker_get_next_unique_id(&v, s->c);
	vs_log("{\"e\":\"uid\",\"t\":%d,\"s\":%d,\"v\":%d}", me, s->n, (int) v);
}
static void *writer (void *a) {
	int v = (int) (intptr_t) a; struct I *s = &in[v % 10]; me = 10 + v; uint64_t r;
	while (nmsg > 0 && !cancel) {
		nmsg--;
		if (source_sends(s) && cancel) break;
		if (R(6) == 0) uid(s);
		r = (uint64_t) R(100);
		if (r < 40) usleep((useconds_t) R(3000)); else if (r < 42) usleep(300000); else if (r < 70) vs_yield();
	}
	writers--;
	return NULL;
}
static int poll_cb (RRR_MODULE_POLL_CALLBACK_SIGNATURE) {
	struct I *s = arg; int ok, top, id = msg_id(entry, &ok, &top); char b[128]; last = vs_now();
	vs_log("{\"e\":\"rd\",\"t\":%d,\"r\":%d,\"id\":%d,\"top\":%d,\"ok\":%s}", me, s->n, id, top, ok ? "true" : "false");
	if (R(2)) vs_yield();
	if (R(10) == 0 && s->nr) uid(s); /* forwarding comes last: the entry is locked */
	if (s->nr && s->fwd && budget > 0 && R(5) && !cancel) {
		struct rrr_instance_friend_collection nh; unsigned mask = maskof(R(1000000), 2); coll_make(&nh, mask); int r = 0;
		budget--;
		if (s->fwd == 3) {
			struct rrr_msg_holder *e; fresh(&e, ++nid, top); RRR_LL_APPEND(&s->coll, e);
		} else {
			item(b, s, id, mask, top, s->fwd == 1 ? -1 : 0);
			vs_log("{\"e\":\"wb\",\"t\":%d,\"s\":%d,\"ms\":[%s]}", me, s->n, b);
			if (s->fwd == 1) r = rrr_message_broker_incref_and_write_entry_unsafe(s->c, entry, &nh, cancel_cb, NULL);
			else r = rrr_message_broker_clone_and_write_entry(s->c, entry, &nh);
			vs_log("{\"e\":\"we\",\"t\":%d,\"ok\":%s,\"now\":%d}", me, r == 0 ? "true" : "false", (int) (vs_now() / 1000));
		}
		rrr_instance_friend_collection_clear(&nh);
	}
	rrr_msg_holder_unlock(entry);
	if (s->lazy && R(20) == 0) usleep((useconds_t) R(700000));
	return 0;
}
static int data_available (uint16_t *amount, void *arg) {
	struct I *s = arg; uint16_t a0 = *amount;
	int r = rrr_poll_do_poll_delete_custom_arg(amount, &s->rt, poll_cb, s);
	if (r != 0 || *amount > a0 + 1) vs_log("{\"e\":\"pollerr\",\"t\":%d,\"ret\":%d}", me, r);
	if (RRR_LL_COUNT(&s->coll) > 0) {
		char l[4096] = "", b[128]; int ok, t, n = 0;
		RRR_LL_ITERATE_BEGIN(&s->coll, struct rrr_msg_holder); int id = msg_id(node, &ok, &t); item(b, s, id, 0, t, 0); if (n++) strcat(l, ","); strcat(l, b); RRR_LL_ITERATE_END();
		vs_log("{\"e\":\"wb\",\"t\":%d,\"s\":%d,\"ms\":[%s]}", me, s->n, l);
		r = rrr_message_broker_write_entries_from_collection_unsafe(s->c, &s->coll, NULL, cancel_cb, NULL); rrr_msg_holder_collection_clear(&s->coll);
		vs_log("{\"e\":\"we\",\"t\":%d,\"ok\":%s,\"now\":%d}", me, r == 0 ? "true" : "false", (int) (vs_now() / 1000));
	}
	return 0;
}
static int periodic (void *arg) { struct I *s = arg; if (stop && (stop == 1 || R(3) == 0)) { s->stopped = 1; return RRR_EVENT_EXIT; } return 0; }
static void *reader (void *a) { struct I *s = a; me = s->n; rrr_event_dispatch(s->q, 100000, periodic, s); return NULL; }
static const char *tf (int b) { return b ? "true" : "false"; }
static void counts (void) {
	char l[400] = "";
	for (int i = 1; i <= N; i++) { unsigned n; int rl; rrr_message_broker_get_entry_count_and_ratelimit(&n, &rl, in[i].c); sprintf(l + strlen(l), "%s%d", i > 1 ? "," : "", in[i].nr ? (int) n : 0); }
	vs_log("{\"e\":\"quiet\",\"count\":[%s]}", l);
}
int main (int argc, char **argv) {
	(void) argc;
	rrr_allocator_init(); rrr_log_init(); rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	nmsg = atoi(argv[2]); mode = atoi(argv[3]); budget = nmsg * 2;
	uint64_t seed = strtoull(argv[1], NULL, 10);
	static const int lk[] = { 0, 30, 200 }, cv[] = { 3, 20, 60 };
	vs_init(seed, (unsigned) lk[seed % 3], (unsigned) cv[(seed / 3) % 3], 0);
	vs_set_maxsteps(3000000);
	N = 2 + R(3);
	if (rrr_message_broker_new(&B, NULL)) return 9;
	for (int i = 1; i <= N; i++) {
		struct I *s = &in[i]; s->n = i; s->dup = R(2); s->slot = R(3) == 0; s->bs = R(3) > 0; s->hook = R(4) == 0; s->fwd = R(4); if (mode == 1 && s->fwd == 2) s->fwd = 1; s->lazy = R(4) == 0; s->filter = R(3) ? 0 : R(7); s->inv = s->filter && R(3) == 0;
	}
	if (mode == 2) { N = 4; for (int i = 1; i <= 4; i++) { struct I *s = &in[i]; s->n = i; s->bs = 1; s->dup = s->slot = s->hook = s->fwd = s->lazy = s->filter = s->inv = 0; } vs_set_maxsteps(2000000); }
	if (mode == 3) { N = 3; for (int i = 1; i <= 3; i++) { struct I *s = &in[i]; s->n = i; s->bs = s->dup = 1; s->slot = i < 3; s->fwd = i == 2; s->hook = s->lazy = s->filter = s->inv = 0; } }
	/* edges: i reads from j; no slots in loops */
	int e[MAXI + 1][MAXI + 1] = {{0}}, edges = 0, equal = mode < 2;
	if (mode == 2) e[3][1] = e[3][2] = e[4][1] = 1; else if (mode == 3) e[2][1] = e[3][1] = e[3][2] = 1; else
	for (int i = 1; i <= N; i++) for (int j = 1; j <= N; j++) if (i != j && R(100) < (j < i ? 60 : 15)) e[i][j] = 1;
	/* competing readers have no other senders */
	if (equal) for (int j = 1; j <= N; j++) { int n = 0; for (int i = 1; i <= N; i++) n += e[i][j]; if (!in[j].dup && n > 1) for (int i = 1; i <= N; i++) if (e[i][j]) for (int k = 1; k <= N; k++) if (k != j) e[i][k] = 0; }
	for (int j = 1; j <= N; j++) for (int i = 1; i < j; i++) if (e[i][j]) for (int k = i; k <= j; k++) in[k].slot = 0; /* loops need buffers */
	/* forwarding from a slot with more readers to another slot */
	if (mode < 2) for (int j = 1; j <= N; j++) { int n = 0; for (int i = 1; i <= N; i++) n += e[i][j]; if (in[j].slot && n > 1) for (int i = 1; i <= N; i++) if (e[i][j] && in[i].fwd) in[i].slot = 0; }
	for (int i = 1; i <= N; i++) for (int j = 1; j <= N; j++) if (e[i][j]) { edges++; in[j].nr++; }
	if (!edges) { e[N][1] = 1; in[1].nr = 1; edges = 1; }
	for (int i = 1; i <= N; i++) {
		struct I *s = &in[i];
		if (rrr_message_broker_costumer_register(&s->c, B, names[i], s->slot, hook, s)) return 9;
		if (rrr_event_queue_new(&s->q)) return 9;
		rrr_event_function_set_with_arg(s->q, RRR_EVENT_FUNCTION_MESSAGE_BROKER_DATA_AVAILABLE, data_available, s, "data available");
		rrr_message_broker_costumer_event_queue_set(B, names[i], s->q);
		s->mod.instance_name = names[i]; s->mod.module_name = "test"; s->inst.module_data = &s->mod;
		if (!s->bs) s->inst.misc_flags |= RRR_INSTANCE_MISC_OPTIONS_DISABLE_BACKSTOP;
		if (s->inv) s->inst.misc_flags |= RRR_INSTANCE_MISC_OPTIONS_TOPIC_FILTER_INVERT;
		if (s->filter) { struct rrr_mqtt_topic_token *t; if (rrr_mqtt_topic_tokenize(&t, filters[s->filter])) return 9; s->rt.init_data.topic_first_token = t; s->rt.init_data.topic_str = filters[s->filter]; }
		s->rt.init_data.instance = &s->inst; s->rt.init_data.module = &s->mod; s->rt.message_broker_handle = s->c;
	}
	for (int i = 1; i <= N; i++) {
		int o[MAXI + 1]; for (int j = 1; j <= N; j++) o[j] = j;
		for (int j = N; j > 1; j--) { int k = 1 + R(j), t = o[j]; o[j] = o[k]; o[k] = t; }
		for (int j = 1; j <= N; j++) if (e[i][o[j]]) { in[i].snd[in[i].ns++] = o[j]; if (rrr_message_broker_sender_add(in[i].c, in[o[j]].c)) return 9; }
		if (in[i].nr == 0) in[i].dup = 0;
		if (in[i].dup && rrr_message_broker_setup_split_output_buffer(in[i].c, (rrr_length) in[i].nr)) return 9;
	}
	char l[2000] = "";
	for (int i = 1; i <= N; i++) {
		struct I *s = &in[i]; char b[64] = ""; for (int k = 0; k < s->ns; k++) sprintf(b + strlen(b), "%s%d", k ? "," : "", s->snd[k]);
		sprintf(l + strlen(l), "%s{\"snd\":[%s],\"dup\":%s,\"slot\":%s,\"bs\":%s,\"filter\":%d,\"inv\":%s}", i > 1 ? "," : "", b, tf(s->dup), tf(s->slot), tf(s->bs), s->filter, tf(s->inv));
	}
	vs_log("{\"e\":\"cfg\",\"i\":[%s]}", l);
	pthread_t t[40]; int nt = 0;
	for (int i = 1; i <= N; i++) if (in[i].ns) pthread_create(&t[nt++], NULL, reader, &in[i]);
	for (int i = 1; i <= N; i++) if (in[i].nr) { int k = in[i].ns ? R(2) : 1 + R(2); while (k-- > 0) { writers++; pthread_create(&t[nt++], NULL, writer, (void *) (intptr_t) (i + 10 * k)); } }
	if (writers == 0) for (int i = 1; i <= N; i++) if (in[i].nr) { writers++; pthread_create(&t[nt++], NULL, writer, (void *) (intptr_t) i); break; }
	last = vs_now();
	if (mode == 1) { usleep((useconds_t) R(500000)); stop = 1 + R(2); usleep((useconds_t) R(900000)); vs_log("{\"e\":\"cancel\",\"now\":%d}", (int) (vs_now() / 1000)); cancel = 1; }
	while (writers > 0 || vs_now() < last + 3000000) { usleep(200000); if (vs_now() > last + 60000000) { vs_log("{\"e\":\"stuck\"}"); vs_end(); _exit(0); } }
	if (mode != 1) { counts(); stop = 1; }
	else stop = 1;
	for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
	vs_log("{\"e\":\"end\"}");
	for (int i = 1; i <= N; i++) rrr_message_broker_costumer_unregister(B, in[i].c);
	rrr_message_broker_destroy(B);
	vs_end(); _exit(0);
}
