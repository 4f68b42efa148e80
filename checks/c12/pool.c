/* Random request/release histories of the packet id pool. argv: seed nphases */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/mqtt/mqtt_id_pool.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static struct rrr_mqtt_id_pool P;
static unsigned char used[65536];
static int nused;
static int R (int n) { return (int) (vs_rand() % (uint64_t) n); }
static int lo = 0, hi = 0;
static void flush (void) { if (lo) vs_log("{\"e\":\"get\",\"lo\":%d,\"hi\":%d}", lo, hi); lo = hi = 0; }
static int get (void) {
	int id = rrr_mqtt_id_pool_get_id(&P);
	if (id == 0) { flush(); vs_log("{\"e\":\"no\"}"); return 0; }
	if (lo && id == hi + 1) hi = id; else { flush(); lo = hi = id; }
	if (!used[id]) nused++;
	used[id] = 1;
	return id;
}
static void rel (int a, int b) {
	flush();
	if (a == b) vs_log("{\"e\":\"rel\",\"lo\":%d,\"hi\":%d}", a, b);
	else vs_log("{\"e\":\"rel\",\"lo\":%d,\"hi\":%d}", a, b);
	int rev = R(2);
	for (int i = 0; i <= b - a; i++) { int id = rev ? b - i : a + i; rrr_mqtt_id_pool_release_id(&P, (uint16_t) id); used[id] = 0; nused--; }
}
static int pick (void) { int s = 1 + R(65535); for (int i = 0; i < 65535; i++) { int id = 1 + (s - 1 + i) % 65535; if (used[id]) return id; } return 0; }
int main (int argc, char **argv) {
	rrr_log_init();
	vs_init(strtoull(argv[1], NULL, 10), 0, 0, 0);
	int n = atoi(argv[2]);
	rrr_mqtt_id_pool_init(&P);
	for (int p = 0; p < n; p++) {
		int x = R(12), k;
		if (x < 3) { k = 1 + R(40); for (int i = 0; i < k; i++) get(); }
		else if (x < 4) { k = 1 + R(40000); for (int i = 0; i < k && nused < 65535; i++) get(); }
		else if (x < 5) { k = nused > 65000 ? 70000 : 65536 - R(3) - nused; for (int i = 0; i < k && nused < 65535; i++) if (!get()) break; if (nused == 65535) { get(); get(); } }
		else if (x < 8) { k = 1 + R(20); for (int i = 0; i < k && nused; i++) { int a = pick(); if (R(3) == 0) { flush(); } rel(a, a); if (R(2)) get(); } }
		else if (x < 9 && nused) { int a = R(2) ? pick() : used[65535] ? 65535 : pick(); int b = a; int m = R(5) ? R(2000) : 65536; while (b - a < m && b < 65535 && used[b + 1]) b++; while (b - a < m && a > 1 && used[a - 1]) a--; rel(a, b); }
		else if (x < 10) { /* around the ends and the word limits */
			int ends[] = { 1, 2, 31, 32, 33, 64, 65, 16384, 16385, 32768, 32769, 49152, 49153, 65504, 65505, 65534, 65535 };
			for (int i = 0; i < 4; i++) { int a = ends[R(17)]; if (used[a]) rel(a, a); }
			k = R(6); for (int i = 0; i < k; i++) get();
		}
		else if (x < 11 && R(12) == 0) { flush(); vs_log("{\"e\":\"clr\"}"); rrr_mqtt_id_pool_clear(&P); memset(used, 0, sizeof used); nused = 0; }
		else { while (nused > 20 && R(300)) { int a = pick(); rel(a, a); if (R(3)) get(); } }
	}
	flush();
	rrr_mqtt_id_pool_destroy(&P);
	vs_log("{\"e\":\"end\"}");
	vs_end(); _exit(0);
}
