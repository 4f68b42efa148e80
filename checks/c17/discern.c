/* Parses routing programs and routes messages; script on stdin, see check.py */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/discern_stack.h"
#include "lib/discern_stack_helper.h"
#include "lib/parse.h"
#include "lib/instances.h"
#include "lib/instance_friends.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/array.h"
#include "lib/messages/msg_msg.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct rrr_discern_stack_collection C;
/* Destinations as instances.c keeps them: real collections of (dummy) instances */
static struct { char name[64]; struct rrr_instance inst; struct rrr_instance_module_data md; } I[16]; static int nI;
static struct rrr_instance_friend_collection hops;
static struct rrr_instance *inst (const char *d) {
	for (int i = 0; i < nI; i++) if (!strcmp(I[i].name, d)) return &I[i].inst;
	strcpy(I[nI].name, d); I[nI].md.instance_name = I[nI].name; I[nI].inst.module_data = &I[nI].md;
	return &I[nI++].inst;
}
static int ap_t (RRR_DISCERN_STACK_APPLY_CB_ARGS) { (void)arg; vs_log("{\"e\":\"apply\",\"d\":\"%s\",\"v\":true}", destination); rrr_instance_friend_collection_remove(&hops, inst(destination)); if (rrr_instance_friend_collection_append(&hops, inst(destination), NULL)) vs_log("{\"e\":\"append failed\"}"); return 0; }
static int ap_f (RRR_DISCERN_STACK_APPLY_CB_ARGS) { (void)arg; vs_log("{\"e\":\"apply\",\"d\":\"%s\",\"v\":false}", destination); rrr_instance_friend_collection_remove(&hops, inst(destination)); return 0; }
static char names[65536];
static int name_cb (const char *s, const char *d, void *arg) { (void)s;(void)arg; sprintf(names + strlen(names), "%s\"%s\"", names[0] ? "," : "", d); return 0; }
static char *unhex (const char *h, size_t *n) { size_t l = strlen(h) / 2; char *r = malloc(l + 1); for (size_t i = 0; i < l; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); r[i] = (char) v; } r[l] = 0; *n = l; return r; }
static const char *fault_name (int f) {
	switch (f) {
		case RRR_DISCERN_STACK_FAULT_END_MISSING: case RRR_DISCERN_STACK_FAULT_SYNTAX_ERROR: case RRR_DISCERN_STACK_FAULT_INVALID_VALUE: case RRR_DISCERN_STACK_FAULT_VALUE_MISSING: return "lexical";
		case RRR_DISCERN_STACK_FAULT_INVALID_TYPE: return "type";
		case RRR_DISCERN_STACK_FAULT_STACK_COUNT: return "count";
		case RRR_DISCERN_STACK_FAULT_STACK_OVERFLOW: return "overflow";
		default: return "?";
	}
}
int main (void) {
	static char line[1 << 20];
	rrr_log_init();
	fclose(stderr); freopen("/dev/null", "w", stderr);
	vs_init(1, 0, 0, 0);
	int anon = 0;
	while (fgets(line, sizeof line, stdin)) {
		line[strcspn(line, "\n")] = 0;
		char *f[8] = {0}; int nf = 0;
		for (char *p = line; p && nf < 8; ) { f[nf++] = p; p = strchr(p, '\t'); if (p) *p++ = 0; }
		if (!strcmp(f[0], "new")) { rrr_discern_stack_collection_clear(&C); vs_log("{\"e\":\"new\"}"); }
		else if (!strcmp(f[0], "def")) {
			/* def mode hex json; mode c: parse into another collection and clone from it */
			size_t n; char *t = unhex(f[2], &n); char name[32]; sprintf(name, "d%d", anon++);
			struct rrr_discern_stack_collection tmp = {0};
			enum rrr_discern_stack_fault fault = 0; struct rrr_parse_pos pos;
			rrr_parse_pos_init(&pos, t, (rrr_length) n);
			int r = rrr_discern_stack_interpret(f[1][0] == 'c' ? &tmp : &C, &fault, &pos, name);
			if (f[1][0] == 'c') {
				const struct rrr_discern_stack *s = rrr_discern_stack_collection_get(&tmp, name);
				if ((s != NULL) != (r == 0)) vs_log("{\"e\":\"bad get\"}");
				if (s) { if (rrr_discern_stack_collection_add_cloned(&C, s)) vs_log("{\"e\":\"clone failed\"}"); }
				rrr_discern_stack_collection_clear(&tmp);
			}
			vs_log("{\"e\":\"def\",\"res\":\"%s\",\"pos\":%u,\"toks\":%s}", r == 0 ? "ok" : fault_name((int) fault), (unsigned) pos.pos, f[3]);
			memset(t, 'x', n); free(t);
			names[0] = 0; rrr_discern_stack_collection_iterate_destination_names(&C, name_cb, NULL);
			vs_log("{\"e\":\"dests\",\"names\":[%s]}", names);
		}
		else if (!strcmp(f[0], "msg")) {
			/* msg topichex arr tags datahex json alljson */
			size_t n; char *t = unhex(f[1], &n); struct rrr_msg_msg *m = NULL;
			if (f[2][0] == '1') {
				struct rrr_array a = {0};
				for (char *p = f[3]; p && *p; ) { char *q = strchr(p, ','); if (q) *q++ = 0; rrr_array_push_value_u64_with_tag(&a, *p == '-' ? NULL : p, 7); p = q; }
				if (rrr_array_new_message_from_array(&m, &a, 1, n ? t : NULL, (rrr_u16) n)) vs_log("{\"e\":\"array failed\"}");
				rrr_array_clear(&a);
			}
			else {
				size_t dn; char *d = unhex(f[4], &dn);
				if (rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, n ? t : NULL, (rrr_u16) n, dn ? d : NULL, (rrr_u32) dn)) vs_log("{\"e\":\"msg failed\"}");
				free(d);
			}
			free(t);
			vs_log("%s", f[5]);
			struct rrr_discern_stack_helper_callback_data h = { m, 0 };
			struct rrr_discern_stack_callbacks cb = { rrr_discern_stack_helper_topic_filter_resolve_cb, rrr_discern_stack_helper_array_tag_resolve_cb, &h, ap_f, ap_t, NULL };
			enum rrr_discern_stack_fault fault = 0;
			int r = rrr_discern_stack_collection_execute(&fault, &C, &cb);
			if (r != 0 && r != RRR_DISCERN_STACK_BAIL) vs_log("{\"e\":\"exec error\"}");
			struct rrr_msg_holder *e1 = NULL, *e2 = NULL;
			rrr_msg_holder_new(&e1, 0, NULL, 0, 0, NULL);
			rrr_msg_holder_nexthops_set(e1, &hops);
			rrr_msg_holder_clone_no_data(&e2, e1);
			rrr_instance_friend_collection_clear(&hops);
			rrr_msg_holder_decref(e1);
			/* route as object over all names of the script */
			char b[4096] = ""; static char lst[65536]; strcpy(lst, f[6]);
			for (char *p = lst; p && *p; ) { char *q = strchr(p, ','); if (q) *q++ = 0; sprintf(b + strlen(b), "%s\"%s\":%s", b[0] ? "," : "", p, rrr_msg_holder_nexthop_ok(e2, inst(p)) ? "true" : "false"); p = q; }
			char al[4096] = ""; strcpy(lst, f[7]);
			vs_log("{\"e\":\"end\",\"bail\":%s,\"route\":{%s},\"all\":%s}", r == RRR_DISCERN_STACK_BAIL ? "true" : "false", b, f[7]); (void)al;
			rrr_msg_holder_decref(e2);
			rrr_free(m);
		}
	}
	rrr_discern_stack_collection_clear(&C);
	vs_end(); _exit(0);
}
