/* An MQTT broker on a free port, which is printed. argv: retry_s max_keepalive pwfile|- aclfile|- noanon discdeny */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include "lib/log.h"
#include "lib/allocator.h"
#include "lib/rrr_strerror.h"
#include "lib/event/event.h"
#include "lib/net_transport/net_transport.h"
#include "lib/net_transport/net_transport_config.h"
#include "lib/mqtt/mqtt_broker.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/mqtt/mqtt_session_ram.h"
#include "lib/rrr_config.h"
RRR_CONFIG_DEFINE_DEFAULT_LOG_PREFIX("demo");
static int per (RRR_EVENT_FUNCTION_PERIODIC_ARGS) { (void) arg; return getppid() == 1 ? RRR_EVENT_EXIT : 0; }
int main (int argc, char **argv) {
	struct rrr_event_queue *Q; struct rrr_mqtt_broker_data *B; struct rrr_mqtt_acl acl = {0}; int port = 0; (void) argc;
	signal(SIGPIPE, SIG_IGN);
	rrr_allocator_init(); rrr_log_init(); rrr_strerror_init();
	rrr_config_init(0, 0, 0, 0, 0, 0, 0, 0, 0, "/tmp");
	if (rrr_event_queue_new(&Q) != 0) return 9;
	if (strcmp(argv[4], "-")) { if (rrr_mqtt_acl_entry_collection_populate_from_file(&acl, argv[4])) return 9; }
	else rrr_mqtt_acl_entry_collection_push_allow_all(&acl);
	struct rrr_mqtt_common_init_data id = { "broker", (uint64_t) (atof(argv[1]) * 1000000), 200000, 100 };
	if (rrr_mqtt_broker_new(&B, &id, Q, (uint16_t) atoi(argv[2]), strcmp(argv[3], "-") ? argv[3] : NULL, "mqtt", &acl, atoi(argv[5]), atoi(argv[6]), rrr_mqtt_session_collection_ram_new_broker, NULL) != 0) return 9;
	for (int i = 0; ; i++) {
		struct rrr_net_transport_config cfg = RRR_NET_TRANSPORT_CONFIG_PLAIN_INITIALIZER;
		int s = socket(AF_INET, SOCK_STREAM, 0); struct sockaddr_in a = { .sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK) }; socklen_t l = sizeof a;
		bind(s, (void *) &a, sizeof a); getsockname(s, (void *) &a, &l); port = ntohs(a.sin_port); close(s);
		if (rrr_mqtt_broker_listen_ipv4_and_ipv6(B, &cfg, (uint16_t) port) == 0) break;
		if (i > 20) return 9;
	}
	printf("PORT %d\n", port); fflush(stdout);
	rrr_event_dispatch(Q, 100000, per, NULL);
	_exit(3);
}
