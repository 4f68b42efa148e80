/* In-process MQTT broker with raw TCP clients, virtual time. Commands on stdin (see mq.py). */
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/event/event.h"
#include "lib/net_transport/net_transport.h"
#include "lib/net_transport/net_transport_config.h"
#include "lib/mqtt/mqtt_broker.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/mqtt/mqtt_session_ram.h"
#include "lib/rrr_config.h"
#include "vsched.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>
#include <signal.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/ioctl.h>
#include <netinet/tcp.h>
#include <dlfcn.h>
#define MAXC 128
/* No Nagle delays in the kernel: time is virtual */
static int nodelay (int fd) { int one = 1; if (fd >= 0) setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); return fd; }
int accept (int s, struct sockaddr *a, socklen_t *l) { static int (*r)(int, struct sockaddr *, socklen_t *); if (!r) r = dlsym(RTLD_NEXT, "accept"); return nodelay(r(s, a, l)); }
int accept4 (int s, struct sockaddr *a, socklen_t *l, int f) { static int (*r)(int, struct sockaddr *, socklen_t *, int); if (!r) r = dlsym(RTLD_NEXT, "accept4"); return nodelay(r(s, a, l, f)); }
static int fds[MAXC];
static struct rrr_event_queue *Q;
static struct rrr_mqtt_broker_data *B;
static struct rrr_mqtt_acl acl;
static uint64_t until;
static int port;
static int per (RRR_EVENT_FUNCTION_PERIODIC_ARGS) { (void) arg; return vs_now() >= until ? RRR_EVENT_EXIT : 0; }
static void run (unsigned ms, unsigned step_us) {
	until = vs_now() + (uint64_t) ms * 1000;
	int r = rrr_event_dispatch(Q, step_us, per, NULL);
	if (r != 0) { vs_log("{\"e\":\"brokerexit\",\"rc\":%d}", r); vs_end(); _exit(0); }
}
static void drain (int c) {
	static char h[300000]; static unsigned char b[100000]; size_t n = 0; ssize_t k; int eof = 0;
	if (fds[c] < 0) return;
	for (;;) {
		k = recv(fds[c], b, sizeof b, MSG_DONTWAIT);
		if (k > 0) { for (ssize_t i = 0; i < k && n < sizeof h - 4; i++) n += (size_t) sprintf(h + n, "%02x", b[i]); continue; }
		if (k == 0 || (errno != EAGAIN && errno != EINTR)) eof = 1;
		break;
	}
	h[n] = 0;
	while (n > 0) { size_t m = n > 60000 ? 60000 : n; vs_log("{\"e\":\"raw\",\"c\":%d,\"hex\":\"%.*s\"}", c, (int) m, h); memmove(h, h + m, n - m + 1); n -= m; }
	if (eof) { vs_log("{\"e\":\"eof\",\"c\":%d}", c); close(fds[c]); fds[c] = -1; }
}
int main (int argc, char **argv) {
	/* argv: retry_s closewait_us max_keepalive pwfile|- aclfile|- noanon discdeny maxsock */
	struct rrr_log_hook *hk = NULL; (void) hk; (void) argc;
	signal(SIGPIPE, SIG_IGN);
	memset(fds, 0xff, sizeof fds);
	rrr_allocator_init();
	rrr_log_init();
	rrr_strerror_init();
	rrr_config_init(getenv("VF_DEBUG") ? (unsigned) atoi(getenv("VF_DEBUG")) : 0, 0, 0, 0, 0, 0, 0, 0, 0, getenv("TMPDIR") ? getenv("TMPDIR") : "/tmp");
	if (rrr_event_queue_new(&Q) != 0) return 9;
	if (strcmp(argv[5], "-")) {
		int r = rrr_mqtt_acl_entry_collection_populate_from_file(&acl, argv[5]);
		vs_log("{\"e\":\"acl\",\"ok\":%s}", r ? "false" : "true");
		if (r) { vs_flush(); return 0; }
	}
	else rrr_mqtt_acl_entry_collection_push_allow_all(&acl);
	struct rrr_mqtt_common_init_data id = { "broker", (uint64_t) (atof(argv[1]) * 1000000), (uint64_t) atoll(argv[2]), (unsigned) atoi(argv[8]) };
	vs_init(1, 0, 0, 0);
	if (rrr_mqtt_broker_new(&B, &id, Q, (uint16_t) atoi(argv[3]), strcmp(argv[4], "-") ? argv[4] : NULL, "mqtt", &acl, atoi(argv[6]), atoi(argv[7]), rrr_mqtt_session_collection_ram_new_broker, NULL) != 0) return 9;
	for (int i = 0; ; i++) {
		struct rrr_net_transport_config cfg = RRR_NET_TRANSPORT_CONFIG_PLAIN_INITIALIZER;
		/* a port nobody else uses, held by a bound but not listening socket while we ask for it is not possible: try */
		int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a;
		bind(s, (void *) &a, sizeof a); getsockname(s, (void *) &a, &l); port = ntohs(a.sin_port); close(s);
		if (rrr_mqtt_broker_listen_ipv4_and_ipv6(B, &cfg, (uint16_t) port) == 0) break;
		if (i > 20) return 9;
	}
	static char line[400000];
	while (fgets(line, sizeof line, stdin)) {
		char *save, *cmd = strtok_r(line, " \n", &save); if (!cmd) continue;
		if (!strcmp(cmd, "open")) {
			int c = atoi(strtok_r(NULL, " \n", &save)); int one = 1;
			fds[c] = socket(AF_INET, SOCK_STREAM, 0);
			vs_log("{\"e\":\"open\",\"c\":%d}", c);
			struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK), .sin_port = htons((uint16_t) port) };
			if (connect(fds[c], (void *) &a, sizeof a) != 0) { vs_log("{\"e\":\"noconnect\"}"); break; }
			setsockopt(fds[c], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
		}
		else if (!strcmp(cmd, "send")) {
			int c = atoi(strtok_r(NULL, " \n", &save)); char *h = strtok_r(NULL, " \n", &save);
			static unsigned char b[200000]; size_t n = 0; for (; h && h[0] && h[1]; h += 2) { unsigned v; sscanf(h, "%2x", &v); b[n++] = (unsigned char) v; }
			if (fds[c] >= 0 && send(fds[c], b, n, MSG_NOSIGNAL) != (ssize_t) n) vs_log("{\"e\":\"sendfail\",\"c\":%d}", c);
		}
		else if (!strcmp(cmd, "tx")) { /* send the last part of a packet, and log it */
			int c = atoi(strtok_r(NULL, " \n", &save)); char *h = strtok_r(NULL, " \n", &save); char *s = strtok_r(NULL, "\n", &save);
			static unsigned char b[200000]; size_t n = 0; for (; h && h[0] && h[1] && h[0] != '-'; h += 2) { unsigned v; sscanf(h, "%2x", &v); b[n++] = (unsigned char) v; }
			if (fds[c] >= 0) { vs_log("{\"e\":\"tx\",\"c\":%d,\"p\":%s}", c, s); send(fds[c], b, n, MSG_NOSIGNAL); }
		}
		else if (!strcmp(cmd, "log")) { char *s = strtok_r(NULL, "\n", &save); if (s) vs_log("%s", s); }
		else if (!strcmp(cmd, "close")) { int c = atoi(strtok_r(NULL, " \n", &save)); drain(c); if (fds[c] >= 0) { close(fds[c]); vs_log("{\"e\":\"cl\",\"c\":%d}", c); } fds[c] = -1; }
		else if (!strcmp(cmd, "reset")) { int c = atoi(strtok_r(NULL, " \n", &save)); drain(c); struct linger l = { 1, 0 }; if (fds[c] >= 0) { setsockopt(fds[c], SOL_SOCKET, SO_LINGER, &l, sizeof l); close(fds[c]); vs_log("{\"e\":\"cl\",\"c\":%d}", c); } fds[c] = -1; }
		else if (!strcmp(cmd, "run")) { unsigned ms = (unsigned) atoi(strtok_r(NULL, " \n", &save)); vs_log("{\"e\":\"adv\",\"t\":%llu}", (unsigned long long) (vs_now() / 1000)); run(ms, ms > 500 ? 100000 : ms >= 20 ? 10000 : 1000); }
		else if (!strcmp(cmd, "drain")) for (int c = 0; c < MAXC; c++) drain(c);
		else if (!strcmp(cmd, "tick")) { for (int c = 0; c < MAXC; c++) drain(c); vs_log("{\"e\":\"tick\",\"t\":%llu}", (unsigned long long) (vs_now() / 1000)); vs_flush(); fflush(NULL); }
	}
	vs_log("{\"e\":\"end\"}"); fflush(NULL);
	vs_end();
	_exit(0);
}
