From f672c4015c460851ef1bec6499bc563f6c89358c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 01/33] fix: store order of entry in ordered writes to
 protected FIFO

The order value of new entries was never stored by rrr_fifo_protected_write,
hence ordered writes compared with zero and the entries came out in the wrong order.
---
 src/lib/fifo_protected.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index f8c9c56..c09792c 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -422,6 +422,8 @@ static void __rrr_fifo_protected_write_update_pointers (
 ) {
 	struct rrr_fifo_protected_entry *pos = buffer->gptr_first;
 
+	entry->order = order;
+
 	if (pos == NULL) {
 		buffer->gptr_first = entry;
 		buffer->gptr_last = entry;
-- 
2.43.0


From 834a8a8c0d9b0a8227b7e879981ba911ad71e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 02/33] fix: do not put back entries of others when protected
 FIFO read stops at last entry

When reading was stopped at the last of the taken entries and there were more entries in the
buffer behind it, the buffer start was set to the entry following the taken ones. If another reader
had taken those entries meanwhile, the buffer would point to entries about to be freed.
---
 src/lib/fifo_protected.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index c09792c..e999f19 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -589,7 +589,7 @@ int rrr_fifo_protected_read_clear_forward (
 					pthread_cleanup_push(__rrr_fifo_protected_unlock_void, buffer);
 					struct rrr_fifo_protected_entry *new_first = next;
 
-					if (next == NULL) {
+					if (next == stop) {
 						// We are done anyway
 					}
 					else {
-- 
2.43.0


From 194aa1461ece494489f68c8cbe8742723a57d33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 03/33] fix: return error from protected FIFO delayed write
 when callback fails

The error flag was cleared while checking the callback return value and success was returned.
---
 src/lib/fifo_protected.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/fifo_protected.c b/src/lib/fifo_protected.c
index e999f19..66793bb 100644
--- a/src/lib/fifo_protected.c
+++ b/src/lib/fifo_protected.c
@@ -935,6 +935,7 @@ int rrr_fifo_protected_write_delayed (
 				if ((ret &= ~RRR_FIFO_PROTECTED_GLOBAL_ERR) != 0) {
 					RRR_BUG("BUG: Callback returned GLOBAL_ERR along with return values %i in rrr_fifo_protected_delayed_write\n", ret);
 				}
+				ret = RRR_FIFO_PROTECTED_GLOBAL_ERR;
 				goto out;
 			}
 			else if ((ret & RRR_FIFO_PROTECTED_WRITE_DROP) == RRR_FIFO_PROTECTED_WRITE_DROP) {
-- 
2.43.0


From 3ff7183ea212e3f38adf4e7d318dac20f624b396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 04/33] fix: keep previous pointer valid after replacing entry
 in FIFO search_and_replace

After an entry had been replaced the previous pointer was not advanced, and giving away the
following entry would unlink the replaced entry as well or leave a freed entry in the list.
---
 src/lib/fifo.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/fifo.c b/src/lib/fifo.c
index af9227b..d6212bd 100644
--- a/src/lib/fifo.c
+++ b/src/lib/fifo.c
@@ -545,6 +545,8 @@ int rrr_fifo_search_and_replace (
 
 				__rrr_fifo_entry_destroy(buffer, entry);
 				rrr_length_dec_bug (&buffer->entry_count);
+
+				entry = prev;
 			}
 			else {
 				if (entry->data == data) {
@@ -565,7 +567,6 @@ int rrr_fifo_search_and_replace (
 				rrr_length_dec_bug (&buffer->entry_count);
 			}
 
-			entry = prev;
 			did_something = 1;
 		}
 		if ((actions & RRR_FIFO_SEARCH_STOP) != 0) {
-- 
2.43.0


From 72b78c67f20a28f0c14cd846705f39d2b4437394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:57 +0000
Subject: [PATCH 05/33] fix: do not read past end of topic when matching
 wildcard with empty last level

---
 src/lib/mqtt/mqtt_topic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 0eb0c94..25f7df7 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -191,7 +191,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 
@@ -202,7 +202,7 @@ int rrr_mqtt_topic_match_topic_and_linear_with_end (
 			assert(topic_token_pos == 0);
 			assert(filter_token_pos == 0);
 
-			if (*topic_pos == '$') {
+			if (topic_pos < topic_end && *topic_pos == '$') {
 				return RRR_MQTT_TOKEN_MISMATCH;
 			}
 			for (; topic_pos < topic_end; topic_pos++) {
-- 
2.43.0


From 96d8ee5c62368d2665fade000f83cdaa09a6c7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 06/33] fix: allow as many MQTT PUBLISH in flight as the
 receive maximum

The counter includes the packet being checked, hence a client with receive
maximum 1 would never receive any QoS 1 or 2 PUBLISH. A QoS 2 PUBLISH
remains in flight until PUBCOMP.
---
 src/lib/mqtt/mqtt_session_ram.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index ade8871..bf546d6 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2439,10 +2439,9 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		goto out;
 	}
 
+	// A QoS 2 PUBLISH is in flight until PUBCOMP is received
 	if (	publish->is_outbound &&
 		RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) > 0 &&
-		publish->qos_packets.pubcomp == NULL &&
-		publish->qos_packets.pubrec == NULL &&
 		publish->planned_expiry_time == 0
 	) {
 		counters->incomplete_qos_publish_counter++;
@@ -2450,10 +2449,10 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 
 	if (	publish->last_attempt == 0 &&
 		publish->is_outbound != 0 && (
-			counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->max_in_flight ||
+			counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->max_in_flight ||
 			(
 				iterate_callback_data->ram_session->session_properties.numbers.receive_maximum != 0 &&
-				counters->incomplete_qos_publish_counter >= iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
+				counters->incomplete_qos_publish_counter > iterate_callback_data->ram_session->session_properties.numbers.receive_maximum
 			)
 		)
 	) {
-- 
2.43.0


From 33efcc5cbe38fc36ca690bd99c6a5d086e59c91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:17 +0000
Subject: [PATCH 07/33] fix: do not destroy MQTT sessions without expiry after
 disconnect

Sessions which should never expire were destroyed by the heartbeat timeout
shortly after disconnection. V3.1 clean sessions end upon disconnect.
---
 src/lib/mqtt/mqtt_broker.c      | 2 +-
 src/lib/mqtt/mqtt_session_ram.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index f558227..78ac345 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -578,7 +578,7 @@ static int _rrr_mqtt_broker_handle_connect_session_init (
 	if (!RRR_MQTT_P_IS_V5(connect)) {
 		// Default for version 3.1 is that sessions do not expire,
 		// only use clean session to control this
-		session_properties.numbers.session_expiry = 0xffffffff;
+		session_properties.numbers.session_expiry = RRR_MQTT_P_CONNECT_GET_FLAG_CLEAN_START(connect) ? 0 : 0xffffffff;
 	}
 
 	struct rrr_mqtt_common_parse_properties_data_connect callback_data = {
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index bf546d6..1388ba9 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2794,7 +2794,7 @@ static int __rrr_mqtt_session_ram_notify_disconnect (
 	}
 	else {
 		if (ram_session->session_properties.numbers.session_expiry == 0xffffffff) { // 8 f's
-			ram_session->expire_time = 0; // Never
+			ram_session->expire_time = UINT64_MAX; // Never. Value must not be zero, heartbeats stop when client is disconnected.
 		}
 		else if (ram_session->session_properties.numbers.session_expiry == 0) {
 			ram_session->expire_time = rrr_time_get_64(); // Now
-- 
2.43.0


From 99bc11f8fcf606619eddc81a37d8a62b30fb122c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 08/33] fix: discard queued publishes upon MQTT clean start in
 broker

Outbound publishes of the previous session were kept and sent to the client
of the new clean session. Only clients are to preserve them.
---
 src/lib/mqtt/mqtt_session_ram.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 1388ba9..79673fd 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -97,6 +97,9 @@ struct rrr_mqtt_session_collection_ram_data {
 	// Checks and modifications to perform before transmitting publish (broker handles expiry)
 	int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS);
 
+	// Keep outbound publishes when a session is cleaned (used by client)
+	int preserve_publish_on_clean;
+
 	// Packets in this queue are retained and will be published upon new subscriptions matching
 	// topics.
 	struct rrr_mqtt_p_queue retain_buffer;
@@ -1222,7 +1225,8 @@ static int __rrr_mqtt_session_ram_clean_preserve_publish_and_release_id_callback
 
 	// We need to check for all possible complete states, just like when housekeeping
 	// the queue. Complete packets are not preserved.
-	if (	RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
+	if (	preserve_callback_data->ram_session->ram_data->preserve_publish_on_clean &&
+			RRR_MQTT_P_GET_TYPE(packet) == RRR_MQTT_P_TYPE_PUBLISH &&
 			packet->planned_expiry_time == 0 &&
 			(
 					(RRR_MQTT_P_PUBLISH_GET_FLAG_QOS(publish) == 1 && publish->qos_packets.puback == NULL) ||
@@ -1289,7 +1293,7 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 		0
 	};
 
-	// We preserve the outbound PUBLISH packets
+	// In the client, we preserve the outbound PUBLISH packets
 	// by re-queing them after the list is emptied (QOS0 are deleted, QOS1-2 are preserved).
 	rrr_fifo_clear_with_callback (
 			&ram_session->to_remote_buffer.buffer,
@@ -1316,6 +1320,14 @@ static int __rrr_mqtt_session_ram_clean_final (struct rrr_mqtt_session_ram *ram_
 		goto out;
 	}
 
+	if (!ram_session->ram_data->preserve_publish_on_clean) {
+		rrr_fifo_clear_with_callback (
+				&ram_session->to_remote_delayed_buffer.buffer,
+				__rrr_mqtt_session_ram_packet_id_release_callback,
+				NULL
+		);
+	}
+
 	rrr_fifo_clear_with_callback (
 			&ram_session->from_remote_buffer.buffer,
 			__rrr_mqtt_session_ram_packet_id_release_callback,
@@ -3178,6 +3190,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 		struct rrr_mqtt_session_collection **sessions,
 		int (*delivery_method)(RRR_MQTT_SESSION_RAM_DELIVERY_METHOD_ARGS),
 		int (*pretransmit_method)(RRR_MQTT_SESSION_RAM_PRETRANSMIT_METHOD_ARGS),
+		int preserve_publish_on_clean,
 		void *arg
 ) {
 	int ret = 0;
@@ -3209,6 +3222,7 @@ static int __rrr_mqtt_session_collection_ram_new (
 
 	ram_data->delivery_method = delivery_method;
 	ram_data->pretransmit_method = pretransmit_method;
+	ram_data->preserve_publish_on_clean = preserve_publish_on_clean;
 
 	*sessions = (struct rrr_mqtt_session_collection *) ram_data;
 
@@ -3228,6 +3242,7 @@ int rrr_mqtt_session_collection_ram_new_broker (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_forward,
 			__rrr_mqtt_session_ram_pretransmit_forward,
+			0, // Do not preserve publishes when cleaning session
 			arg
 	);
 }
@@ -3237,6 +3252,7 @@ int rrr_mqtt_session_collection_ram_new_client (struct rrr_mqtt_session_collecti
 			sessions,
 			__rrr_mqtt_session_ram_delivery_local,
 			__rrr_mqtt_session_ram_pretransmit_local,
+			1, // Preserve publishes when cleaning session
 			arg
 	);
 }
-- 
2.43.0


From 3150986cd7aaf59d613b87c9d45d46ee53116659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 09/33] fix: respect maximum packet size of client for retained
 MQTT publishes

---
 src/lib/mqtt/mqtt_session_ram.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 79673fd..08aa89e 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -3000,6 +3000,15 @@ static int __rrr_mqtt_p_queue_publish_from_retain_callback (
 
 	struct rrr_mqtt_p_publish *new_publish = NULL;
 
+	const struct rrr_mqtt_session_properties_numbers *numbers = &callback_data->ram_session->session_properties.numbers;
+	if ( numbers->maximum_packet_size != 0 &&
+	     publish->received_size > (int64_t) numbers->maximum_packet_size
+	) {
+		RRR_MSG_0("Not sending matching RETAIN PUBLISH to client, packet size exceeds set maximum packet size %" PRIrrrl ">%u\n",
+				publish->received_size, numbers->maximum_packet_size);
+		goto out;
+	}
+
 	if ((new_publish = rrr_mqtt_p_clone_publish (
 			publish,
 			1, 0, 0 // Preserve type flags, but DUP and Retain flags are always overwritten elsewhere
-- 
2.43.0


From ab9e408f8dc5eb35254c1cb304c65fd43dd107a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:02 +0000
Subject: [PATCH 10/33] fix: prevent overflow of MQTT will delay interval

---
 src/lib/mqtt/mqtt_session_ram.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 08aa89e..6683e9b 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1018,7 +1018,7 @@ static int __rrr_mqtt_session_ram_will_publish_notify_disconnect (
 	}
 
 	// Initialize. Delay interval is stored in seconds, multiply by 10^6.
-	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + (ram_session->will_publish->will_delay_interval * 1000 * 1000);
+	ram_session->will_publish->planned_expiry_time = rrr_time_get_64() + ((uint64_t) ram_session->will_publish->will_delay_interval * 1000 * 1000);
 
 	// Clear any WILL message unless explicitly told by client to publish it.
 	// In version 3.1, the will PUBLISH is always cleared (reason_v5 will
@@ -2712,7 +2712,7 @@ static int __rrr_mqtt_session_ram_iterate_send_queue (
 	struct iterate_send_queue_callback_data callback_data = {
 			callback,
 			callback_arg,
-			ram_session->complete_publish_grace_time_s * 1000 * 1000,
+			(uint64_t) ram_session->complete_publish_grace_time_s * 1000 * 1000,
 			ram_session->retry_interval_usec,
 			ram_data,
 			ram_session,
-- 
2.43.0


From 0b8471466c439243ec08bc8591a45871d19d7827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:46 +0000
Subject: [PATCH 11/33] fix: reject reserved MQTT client ID prefix when no such
 session exists

The pointers, and not the values pointed to, were checked.
---
 src/lib/mqtt/mqtt_broker.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 78ac345..e0aea8f 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -383,7 +383,7 @@ static int __rrr_mqtt_broker_handle_connect_will (
 		)) != 0) {
 			RRR_MSG_0("Could not create publish will message data in %s, ret %i, reason %u\n",
 					__func__, ret, *reason_v5);
-			if (ret == RRR_MQTT_SOFT_ERROR && reason_v5 == 0) {
+			if (ret == RRR_MQTT_SOFT_ERROR && *reason_v5 == 0) {
 				*reason_v5 = RRR_MQTT_P_5_REASON_UNSPECIFIED_ERROR;
 				goto out;
 			}
@@ -478,7 +478,7 @@ static int __rrr_mqtt_broker_handle_connect_check_client_identifier (
 				ret = RRR_MQTT_SESSION_INTERNAL_ERROR;
 				goto out;
 			}
-			if (session == NULL) {
+			if (*session == NULL) {
 				RRR_DBG_2("Client ID cannot begin with '" RRR_MQTT_BROKER_CLIENT_PREFIX "' unless a session with such name already exists\n");
 				*reason_v5 = RRR_MQTT_P_5_REASON_CLIENT_ID_REJECTED;
 				goto out;
-- 
2.43.0


From da9c61ed8c91b66be98fec617974ccd82d3c0044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:59 +0000
Subject: [PATCH 12/33] fix: apply ACL rules to MQTT will messages

A user without WRITE access to a topic could publish to it by means of a
will message.
---
 src/lib/mqtt/mqtt_broker.c | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index e0aea8f..8078fca 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -413,6 +413,8 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 ) {
 	int ret = RRR_MQTT_OK;
 
+	struct rrr_mqtt_topic_token *will_topic_token = NULL;
+
 	if (connect->username != NULL && *(connect->username) != '\0') {
 		if (connect->password == NULL || *(connect->password) == '\0') {
 			RRR_DBG_2("Invalid CONNECT, username given but no password. The RRR MQTT broker requires passwords.\n");
@@ -443,7 +445,28 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 		goto out;
 	}
 
+	// The will message must be subject to the same rules as PUBLISH packets
+	if (RRR_MQTT_P_CONNECT_GET_FLAG_WILL(connect) != 0) {
+		if (rrr_mqtt_topic_tokenize(&will_topic_token, connect->will_topic) != 0) {
+			RRR_MSG_0("Could not tokenize will topic in %s\n", __func__);
+			ret = RRR_MQTT_INTERNAL_ERROR;
+			goto out;
+		}
+		if (rrr_mqtt_acl_check_access (
+				data->acl,
+				will_topic_token,
+				RRR_MQTT_ACL_ACTION_RW,
+				connect->username,
+				rrr_mqtt_topic_match_tokens_recursively
+		) != RRR_MQTT_ACL_RESULT_ALLOW) {
+			RRR_DBG_2("Received CONNECT with will topic '%s' denied by ACL\n", connect->will_topic);
+			*reason_v5 = RRR_MQTT_P_5_REASON_NOT_AUTHORIZED;
+			goto out;
+		}
+	}
+
 	out:
+	rrr_mqtt_topic_token_destroy(will_topic_token);
 	return ret;
 }
 
-- 
2.43.0


From 2f3fc5e389f1799404bef1c974bdcd891407fa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 13/33] fix: compare complete hashes when checking passwords

With base64 hashes, any password of which the encoding began with the stored
hash was accepted.
---
 src/lib/passwd.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/lib/passwd.c b/src/lib/passwd.c
index 1169b79..e345322 100644
--- a/src/lib/passwd.c
+++ b/src/lib/passwd.c
@@ -145,6 +145,26 @@ void rrr_passwd_permission_collection_remove_duplicates (
 	RRR_LL_ITERATE_END_CHECK_DESTROY(target, 0; __rrr_passwd_permission_destroy(node));
 }
 
+static int __rrr_passwd_base64_is_equal (
+		const char *a,
+		const char *b
+) {
+	// Line breaks made by the encoder might not be present in password file
+	do {
+		while (*a == '\n') {
+			a++;
+		}
+		while (*b == '\n') {
+			b++;
+		}
+		if (*a != *b) {
+			return 0;
+		}
+	} while (*a++ && *b++);
+
+	return 1;
+}
+
 static int __rrr_passwd_check_base64 (
 		const char *hash,
 		const char *password
@@ -165,7 +185,7 @@ static int __rrr_passwd_check_base64 (
 		goto out;
 	}
 
-	if (memcmp(hash, base64_tmp, strlen(hash)) == 0) {
+	if (__rrr_passwd_base64_is_equal(hash, (const char *) base64_tmp)) {
 		ret = 0; // Authenticated
 	}
 	else {
@@ -268,7 +288,7 @@ static int __rrr_passwd_check_openssl (
 		goto out;
 	}
 
-	if (memcmp(tmp, hash_raw, RRR_PASSWD_HASH_KEY_LENGTH) == 0) {
+	if (hash_raw_length == RRR_PASSWD_HASH_KEY_LENGTH && memcmp(tmp, hash_raw, RRR_PASSWD_HASH_KEY_LENGTH) == 0) {
 		ret = 0; // Authenticated
 	}
 	else {
-- 
2.43.0


From 6322b3ce8c4038c647ebe5cade531afcd00ccfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:35 +0000
Subject: [PATCH 14/33] fix: do not abort when MQTT v5 SUBSCRIBE has No Local
 or Retain As Published set

---
 src/lib/mqtt/mqtt_assemble.c     |  2 +-
 src/lib/mqtt/mqtt_session_ram.c  | 22 ++++++++++++++++++----
 src/lib/mqtt/mqtt_subscription.c |  2 +-
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/lib/mqtt/mqtt_assemble.c b/src/lib/mqtt/mqtt_assemble.c
index 3206194..82a0494 100644
--- a/src/lib/mqtt/mqtt_assemble.c
+++ b/src/lib/mqtt/mqtt_assemble.c
@@ -378,7 +378,7 @@ int __rrr_mqtt_assemble_sub_usub_callback (struct rrr_mqtt_subscription *sub, vo
 	struct assemble_sub_usub_callback_data *callback_data = arg;
 	struct rrr_mqtt_payload_buf_session *session = callback_data->session;
 
-	if (sub->nl > 0 || sub->rap > 0 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
+	if (sub->nl > 1 || sub->rap > 1 || sub->retain_handling > 2 || sub->qos_or_reason_v5 > 2) {
 		RRR_BUG("Invalid flags/QoS in %s\n", __func__);
 	}
 
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 6683e9b..3052ffa 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -295,6 +295,7 @@ static int __rrr_mqtt_session_ram_retain_buffer_write_callback (
 
 struct receive_forwarded_publish_data {
 	struct rrr_mqtt_session_ram *session;
+	const struct rrr_mqtt_session_ram *publisher;
 };
 
 static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
@@ -309,6 +310,12 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 
 	struct rrr_mqtt_p_publish *new_publish = NULL;
 
+	if (subscription->nl && session == callback_data->publisher) {
+		RRR_DBG_3("Not forwarding matching PUBLISH to client %s, No Local is set for the subscription\n",
+				session->client_id_);
+		goto out;
+	}
+
 	if ( session->session_properties.numbers.maximum_packet_size != 0 &&
 	     publish->received_size > (int64_t) session->session_properties.numbers.maximum_packet_size
 	) {
@@ -326,8 +333,9 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 		goto out;
 	}
 
-	// Always clear retain flag per specification
-	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, 0);
+	// Clear retain flag per specification unless subscription has Retain As Published set
+	const uint8_t retain = subscription->rap ? RRR_MQTT_P_PUBLISH_GET_FLAG_RETAIN(publish) : 0;
+	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, retain);
 
 	// Always clear dup flag per speficiation
 	RRR_MQTT_P_PUBLISH_SET_FLAG_DUP(new_publish, 0);
@@ -366,12 +374,13 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish_match_callback (
 
 static int __rrr_mqtt_session_ram_receive_forwarded_publish (
 		struct rrr_mqtt_session_ram *ram_session,
+		const struct rrr_mqtt_session_ram *publisher,
 		const struct rrr_mqtt_p_publish *publish,
 		rrr_length *match_count
 ) {
 	int ret = RRR_MQTT_SESSION_OK;
 
-	struct receive_forwarded_publish_data callback_data = { ram_session };
+	struct receive_forwarded_publish_data callback_data = { ram_session, publisher };
 
 	// Note : We always send one PUBLISH per matching subscription and do
 	//        not check for overlaps. Other brokers might treat this different
@@ -396,6 +405,7 @@ static int __rrr_mqtt_session_ram_receive_forwarded_publish (
 
 static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 		struct rrr_mqtt_session_collection_ram_data *ram_data,
+		const struct rrr_mqtt_session_ram *publisher,
 		const struct rrr_mqtt_p_publish *publish
 ) {
 	int ret = RRR_FIFO_OK;
@@ -404,7 +414,7 @@ static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 
 	RRR_LL_ITERATE_BEGIN(ram_data, struct rrr_mqtt_session_ram);
 		rrr_length match_count = 0;
-		int ret_tmp = __rrr_mqtt_session_ram_receive_forwarded_publish(node, publish, &match_count);
+		int ret_tmp = __rrr_mqtt_session_ram_receive_forwarded_publish(node, publisher, publish, &match_count);
 		total_match_count += match_count;
 
 		if (ret_tmp != RRR_MQTT_SESSION_OK) {
@@ -426,6 +436,7 @@ static int __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 
 static int __rrr_mqtt_session_collection_ram_delivery_forward_final (
 		struct rrr_mqtt_session_collection_ram_data *ram_data,
+		const struct rrr_mqtt_session_ram *publisher,
 		struct rrr_mqtt_p_publish *publish
 ) {
 	int ret = RRR_MQTT_SESSION_OK;
@@ -464,6 +475,7 @@ static int __rrr_mqtt_session_collection_ram_delivery_forward_final (
 
 	if ((ret = __rrr_mqtt_session_collection_ram_forward_publish_to_clients (
 			ram_data,
+			publisher,
 			publish
 	)) != 0) {
 		goto out;
@@ -538,6 +550,7 @@ static int __rrr_mqtt_session_ram_delivery_forward (
 
 	return __rrr_mqtt_session_collection_ram_delivery_forward_final (
 			ram_session->ram_data,
+			ram_session,
 			publish
 	);
 }
@@ -988,6 +1001,7 @@ static int __rrr_mqtt_session_ram_will_publish_maintain (
 
 		ret = __rrr_mqtt_session_collection_ram_delivery_forward_final (
 				ram_data,
+				ram_session,
 				publish
 		);
 
diff --git a/src/lib/mqtt/mqtt_subscription.c b/src/lib/mqtt/mqtt_subscription.c
index 10fc0bf..0409c92 100644
--- a/src/lib/mqtt/mqtt_subscription.c
+++ b/src/lib/mqtt/mqtt_subscription.c
@@ -60,7 +60,7 @@ int rrr_mqtt_subscription_new (
 
 	*target = NULL;
 
-	if (nl > 0 || rap > 0 || retain_handling > 2) {
+	if (nl > 1 || rap > 1 || retain_handling > 2) {
 		RRR_BUG("Invalid flags in %s\n", __func__);
 	}
 
-- 
2.43.0


From ea70e50e0e8fa7ea3b6d0dcd82953c2fc06e7eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:04 +0000
Subject: [PATCH 15/33] fix: do not send retained MQTT messages when retain
 handling says so

---
 src/lib/mqtt/mqtt_session_ram.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 3052ffa..063914c 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2989,6 +2989,12 @@ static int __rrr_mqtt_session_ram_receive_new_subscription_callback (
 
 	struct rrr_mqtt_subscription *subscription_new = NULL;
 
+	// Retain handling 2 is to not send retained messages. The others, 0 and 1, are
+	// treated the same, this function is only called for new subscriptions.
+	if (subscription->retain_handling == 2) {
+		return 0;
+	}
+
 	if (rrr_mqtt_subscription_clone(&subscription_new, subscription) != 0) {
 		RRR_MSG_0("Could not clone subscription in %s\n", __func__);
 		return 1;
-- 
2.43.0


From 4d5c72a6c06136fbea83d7af5f1cad7e109e7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:11 +0000
Subject: [PATCH 16/33] fix: do not let MQTT subscriptions with wildcards
 bypass ACL rules

---
 src/lib/mqtt/mqtt_acl.c    | 22 +++++++++++----
 src/lib/mqtt/mqtt_acl.h    |  4 +++
 src/lib/mqtt/mqtt_broker.c |  9 ++++--
 src/lib/mqtt/mqtt_topic.c  | 58 +++++++++++++++++++++++++-------------
 src/lib/mqtt/mqtt_topic.h  |  4 +++
 5 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/lib/mqtt/mqtt_acl.c b/src/lib/mqtt/mqtt_acl.c
index db0f2a0..ea7be14 100644
--- a/src/lib/mqtt/mqtt_acl.c
+++ b/src/lib/mqtt/mqtt_acl.c
@@ -579,30 +579,42 @@ int rrr_mqtt_acl_check_access (
 		int (*match_function) (
 				const struct rrr_mqtt_topic_token *a,
 				const struct rrr_mqtt_topic_token *b
+		),
+		int (*overlap_function) (
+				const struct rrr_mqtt_topic_token *a,
+				const struct rrr_mqtt_topic_token *b
 		)
 ) {
 	int ret = RRR_MQTT_ACL_RESULT_DENY;
 
 	RRR_LL_ITERATE_BEGIN(collection, const struct rrr_mqtt_acl_entry);
-		if (match_function(node->first_token, first_token) == RRR_MQTT_TOKEN_MATCH) {
+		const int is_match = match_function(node->first_token, first_token) == RRR_MQTT_TOKEN_MATCH;
+
+		// An entry which only applies to some of the requested topics can deny the
+		// request but not grant it
+		if (is_match || (overlap_function != NULL && overlap_function(node->first_token, first_token) == RRR_MQTT_TOKEN_MATCH)) {
 			RRR_DBG_2 ("ACL matched %s requested level %s default action %s\n",
 					node->topic_orig, RRR_MQTT_ACL_ACTION_TO_STR(requested_access_level), RRR_MQTT_ACL_ACTION_TO_STR(node->default_action));
 
-			ret = __rrr_mqtt_acl_check_access_single(node->default_action, requested_access_level);
+			int result = __rrr_mqtt_acl_check_access_single(node->default_action, requested_access_level);
 
 			RRR_DBG_2 ("ACL result is %s (after default)\n",
-					RRR_MQTT_ACL_ACTION_RESULT_TO_STR(ret));
+					RRR_MQTT_ACL_ACTION_RESULT_TO_STR(result));
 
 			if (username != NULL && *username != '\0') {
 				const struct rrr_mqtt_acl_entry *entry = node;
 				RRR_LL_ITERATE_BEGIN(entry, const struct rrr_mqtt_acl_user_entry);
 					if (strcmp(node->username, username) == 0) {
-						ret = __rrr_mqtt_acl_check_access_single(node->action, requested_access_level);
+						result = __rrr_mqtt_acl_check_access_single(node->action, requested_access_level);
 						RRR_DBG_2 ("ACL result is %s (after username %s match)\n",
-								RRR_MQTT_ACL_ACTION_RESULT_TO_STR(ret), username);
+								RRR_MQTT_ACL_ACTION_RESULT_TO_STR(result), username);
 					}
 				RRR_LL_ITERATE_END();
 			}
+
+			if (is_match || result != RRR_MQTT_ACL_RESULT_ALLOW) {
+				ret = result;
+			}
 		}
 	RRR_LL_ITERATE_END();
 
diff --git a/src/lib/mqtt/mqtt_acl.h b/src/lib/mqtt/mqtt_acl.h
index 8deb662..e624809 100644
--- a/src/lib/mqtt/mqtt_acl.h
+++ b/src/lib/mqtt/mqtt_acl.h
@@ -73,6 +73,10 @@ int rrr_mqtt_acl_check_access (
 		int (*match_function) (
 				const struct rrr_mqtt_topic_token *a,
 				const struct rrr_mqtt_topic_token *b
+		),
+		int (*overlap_function) (
+				const struct rrr_mqtt_topic_token *a,
+				const struct rrr_mqtt_topic_token *b
 		)
 );
 
diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index 8078fca..a550910 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -457,7 +457,8 @@ static int __rrr_mqtt_broker_handle_connect_auth (
 				will_topic_token,
 				RRR_MQTT_ACL_ACTION_RW,
 				connect->username,
-				rrr_mqtt_topic_match_tokens_recursively
+				rrr_mqtt_topic_match_tokens_recursively,
+				NULL
 		) != RRR_MQTT_ACL_RESULT_ALLOW) {
 			RRR_DBG_2("Received CONNECT with will topic '%s' denied by ACL\n", connect->will_topic);
 			*reason_v5 = RRR_MQTT_P_5_REASON_NOT_AUTHORIZED;
@@ -1088,7 +1089,8 @@ static int __rrr_mqtt_broker_acl_handler_subscribe (
 				node->token_tree,
 				RRR_MQTT_ACL_ACTION_RO,
 				connection->username,
-				rrr_mqtt_topic_match_tokens_recursively_acl
+				rrr_mqtt_topic_match_tokens_recursively_acl,
+				rrr_mqtt_topic_overlap_tokens_recursively_acl
 		);
 		if (ret_tmp == RRR_MQTT_ACL_RESULT_ALLOW) {
 			RRR_DBG_2("ACL: Subscription '%s' for client '%s' allowed\n", node->topic_filter, connection->client_id);
@@ -1112,7 +1114,8 @@ static int __rrr_mqtt_broker_acl_handler_publish (
 			publish->token_tree_,
 			RRR_MQTT_ACL_ACTION_RW,
 			connection->username,
-			rrr_mqtt_topic_match_tokens_recursively
+			rrr_mqtt_topic_match_tokens_recursively,
+			NULL
 	);
 
 	if (ret == RRR_MQTT_ACL_RESULT_DENY && !RRR_MQTT_P_IS_V5(publish) && broker->disconnect_on_v31_publish_deny != 0) {
diff --git a/src/lib/mqtt/mqtt_topic.c b/src/lib/mqtt/mqtt_topic.c
index 25f7df7..3144e78 100644
--- a/src/lib/mqtt/mqtt_topic.c
+++ b/src/lib/mqtt/mqtt_topic.c
@@ -285,47 +285,65 @@ int rrr_mqtt_topic_match_str (
 
 // Both token trees may contain # and +
 // The master token is usually an ACL entry and the slave a subscription request
-// The # of a slave topic will only match the master topic if the master topic is also # on the same level
+// Match only if the master covers all topics which the slave may match
 int rrr_mqtt_topic_match_tokens_recursively_acl (
 		const struct rrr_mqtt_topic_token *token_master,
 		const struct rrr_mqtt_topic_token *token_slave
 ) {
+	if (token_master == NULL && token_slave == NULL) {
+		return RRR_MQTT_TOKEN_MATCH;
+	}
+
 	if (token_master == NULL || token_slave == NULL) {
 		return RRR_MQTT_TOKEN_MISMATCH;
 	}
 
-//	printf ("Match ACL %s vs %s\n", token_master->data, token_slave->data);
-
 	if (*(token_master->data) == '#') {
-//		printf ("Match by master #\n");
 		return RRR_MQTT_TOKEN_MATCH;
 	}
-	else if (*(token_slave->data) == '#') {
-//		printf ("Mismatch by slave #\n");
+
+	if (*(token_slave->data) == '#') {
 		return RRR_MQTT_TOKEN_MISMATCH;
 	}
-	else if (*(token_master->data) == '+' || *(token_slave->data) == '+') {
-//		printf ("Preliminary match by slave or master +\n");
-		if (*(token_master->data) == '$') {
-//			printf ("Mismatch by master $\n");
-			return RRR_MQTT_TOKEN_MISMATCH;
-		}
-		// + matches everything on this level, continue
+
+	// Note that a + in the slave will only match + in the master
+	if (*(token_master->data) != '+' && strcmp(token_master->data, token_slave->data) != 0) {
+		return RRR_MQTT_TOKEN_MISMATCH;
 	}
-	else if (strcmp(token_master->data, token_slave->data) != 0) {
-		// no wildcard, string on levels must be identical
-//		printf ("Mismatch by token inequality\n");
+
+	return rrr_mqtt_topic_match_tokens_recursively_acl(token_master->next, token_slave->next);
+}
+
+// As above, but match if there are any topics which both the master and the slave may match
+int rrr_mqtt_topic_overlap_tokens_recursively_acl (
+		const struct rrr_mqtt_topic_token *token_master,
+		const struct rrr_mqtt_topic_token *token_slave
+) {
+	if (token_master == NULL && token_slave == NULL) {
+		return RRR_MQTT_TOKEN_MATCH;
+	}
+
+	if (token_master == NULL || token_slave == NULL) {
+		return RRR_MQTT_TOKEN_MISMATCH;
+	}
+
+	if (*(token_master->data) == '$' && (*(token_slave->data) == '#' || *(token_slave->data) == '+')) {
+		// Wildcards of a subscription do not match levels beginning with $
 		return RRR_MQTT_TOKEN_MISMATCH;
 	}
 
-	if (token_master->next == NULL && token_slave->next == NULL) {
-//		printf ("Match by no more tokens\n");
+	if (*(token_master->data) == '#' || *(token_slave->data) == '#') {
 		return RRR_MQTT_TOKEN_MATCH;
 	}
 
-//	printf ("Preliminary match by token equality\n");
+	if ( *(token_master->data) != '+' &&
+	     *(token_slave->data) != '+' &&
+	     strcmp(token_master->data, token_slave->data) != 0
+	) {
+		return RRR_MQTT_TOKEN_MISMATCH;
+	}
 
-	return rrr_mqtt_topic_match_tokens_recursively_acl(token_master->next, token_slave->next);
+	return rrr_mqtt_topic_overlap_tokens_recursively_acl(token_master->next, token_slave->next);
 }
 
 void rrr_mqtt_topic_token_destroy (
diff --git a/src/lib/mqtt/mqtt_topic.h b/src/lib/mqtt/mqtt_topic.h
index 5580ee9..c6b7808 100644
--- a/src/lib/mqtt/mqtt_topic.h
+++ b/src/lib/mqtt/mqtt_topic.h
@@ -70,6 +70,10 @@ int rrr_mqtt_topic_match_tokens_recursively_acl (
 		const struct rrr_mqtt_topic_token *token_master,
 		const struct rrr_mqtt_topic_token *token_slave
 );
+int rrr_mqtt_topic_overlap_tokens_recursively_acl (
+		const struct rrr_mqtt_topic_token *token_master,
+		const struct rrr_mqtt_topic_token *token_slave
+);
 void rrr_mqtt_topic_token_destroy (
 		struct rrr_mqtt_topic_token *first_token
 );
-- 
2.43.0


From 38d3a5c7dce2a7aa25d5d3aff2038ff30f7a0d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 17/33] fix: accept MQTT v5 PUBACK, PUBREC, PUBREL and PUBCOMP
 with reason but without properties

The property length may be left out, such packets were treated as
incomplete and the client was disconnected.
---
 src/lib/mqtt/mqtt_parse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index 18577aa..fe9d8c1 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -1062,6 +1062,9 @@ int rrr_mqtt_parse_def_puback (struct rrr_mqtt_parse_session *session) {
 			RRR_BUG("Unknown packet type %u in %s\n", RRR_MQTT_P_GET_TYPE(def_puback), __func__);
 		}
 
+		// Property length may be left out if there are no properties
+		PARSE_CHECK_NO_MORE_DATA();
+
 		PARSE_PROPERTIES_IF_V5(def_puback,properties);
 	}
 
-- 
2.43.0


From 1572a4eac2485c1d641642958f07b699b71e1143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:35 +0000
Subject: [PATCH 18/33] fix: do not count length of binary MQTT properties
 twice

Any MQTT v5 packet with correlation or authentication data followed by
another property was treated as malformed. Also free the property when
the packet is not yet complete.
---
 src/lib/mqtt/mqtt_parse.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/lib/mqtt/mqtt_parse.c b/src/lib/mqtt/mqtt_parse.c
index fe9d8c1..ed2c7e0 100644
--- a/src/lib/mqtt/mqtt_parse.c
+++ b/src/lib/mqtt/mqtt_parse.c
@@ -679,8 +679,6 @@ static int __rrr_mqtt_parse_property_blob (RRR_PROPERTY_PARSER_DEFINITION) {
 	target->length_orig = blob_length;
 	target->internal_data_type = RRR_MQTT_PROPERTY_DATA_TYPE_INTERNAL_BLOB;
 
-	bytes_parsed += blob_length;
-
 	*bytes_parsed_final = bytes_parsed;
 
 	return ret;
@@ -795,7 +793,7 @@ static int __rrr_mqtt_parse_properties (
 		start = end;
 		ret = property_parsers[property_def->internal_data_type](property_tmp, session, start, &bytes_parsed);
 		if (ret != 0) {
-			return ret;
+			goto out;
 		}
 		end = start + bytes_parsed;
 
-- 
2.43.0


From 7ecf9107765115cd7736af6c14c18fbda669905c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:54 +0000
Subject: [PATCH 19/33] fix: do not destroy MQTT session shortly after client
 reconnects

The heartbeat time from before the client disconnected was used, and the
session could be considered timed out before the first heartbeat of the
new connection.
---
 src/lib/mqtt/mqtt_session_ram.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 063914c..8f7e1dd 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -1387,6 +1387,7 @@ static int __rrr_mqtt_session_ram_init (
 	ram_session->retry_interval_usec = retry_interval_usec;
 	ram_session->max_in_flight = max_in_flight;
 	ram_session->expire_time = 0;
+	ram_session->heartbeat_time = rrr_time_get_64(); // Time might be old after client has been away
 	ram_session->complete_publish_grace_time_s = complete_publish_grace_time_s;
 
 	if (clean_session) {
-- 
2.43.0


From 3e5352d119965db173c50b621c1904a90b05d0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 20/33] fix: publish MQTT will when connection is lost while
 sending to client

---
 src/lib/mqtt/mqtt_broker.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/mqtt/mqtt_broker.c b/src/lib/mqtt/mqtt_broker.c
index a550910..2e71ab8 100644
--- a/src/lib/mqtt/mqtt_broker.c
+++ b/src/lib/mqtt/mqtt_broker.c
@@ -1059,7 +1059,6 @@ static int __rrr_mqtt_broker_event_handler (
 ) {
 	struct rrr_mqtt_broker_data *data = static_arg;
 
-	(void)(connection);
 	(void)(arg);
 
 	int ret = RRR_MQTT_OK;
@@ -1067,6 +1066,12 @@ static int __rrr_mqtt_broker_event_handler (
 	switch (event) {
 		case RRR_MQTT_CONN_EVENT_DISCONNECT:
 			data->stats.total_connections_closed++;
+
+			// The connection was lost without any DISCONNECT packet and no error has been
+			// set, for instance when sending fails. This is not a normal disconnection.
+			if (!RRR_MQTT_CONN_STATE_IS_CLOSED_OR_CLOSE_WAIT(connection)) {
+				RRR_MQTT_CONN_SET_DISCONNECT_REASON_IF_ZERO(connection, RRR_MQTT_P_5_REASON_UNSPECIFIED_ERROR);
+			}
 			break;
 		default:
 			break;
-- 
2.43.0


From 4ed19ac95db8148afd0857a424d0a99f811abc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:39 +0000
Subject: [PATCH 21/33] fix: do not let message expiry break MQTT handshakes in
 progress

---
 src/lib/mqtt/mqtt_session_ram.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 8f7e1dd..9a5ab58 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -2454,8 +2454,9 @@ static int __rrr_mqtt_session_ram_iterate_send_queue_callback_process_publish (
 		if ((ret = iterate_callback_data->ram_session->ram_data->pretransmit_method (&do_drop, publish)) != 0) {
 			goto out;
 		}
-		if (do_drop) {
-
+		// Expiry does not apply once the handshake has begun
+		if (do_drop && publish->is_outbound && publish->last_attempt == 0 && !RRR_MQTT_P_PUBLISH_GET_FLAG_DUP(publish)) {
+			*delete_now = 1;
 			goto out;
 		}
 	}
-- 
2.43.0


From 41877ffa976379f7ef4ded9b0fbe17defa4fed41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 22/33] fix: reduce MQTT message expiry interval by all time
 spent waiting in broker

---
 src/lib/mqtt/mqtt_packet.h      | 1 -
 src/lib/mqtt/mqtt_session_ram.c | 8 +++-----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lib/mqtt/mqtt_packet.h b/src/lib/mqtt/mqtt_packet.h
index a83720e..7b74326 100644
--- a/src/lib/mqtt/mqtt_packet.h
+++ b/src/lib/mqtt/mqtt_packet.h
@@ -333,7 +333,6 @@ struct rrr_mqtt_p_publish {
 
 	uint64_t create_time;
 	uint32_t message_expiry_interval;
-	uint8_t message_expiry_interval_properties_updated;
 
 	uint8_t payload_format_indicator;
 	uint16_t topic_alias;
diff --git a/src/lib/mqtt/mqtt_session_ram.c b/src/lib/mqtt/mqtt_session_ram.c
index 9a5ab58..ca6b128 100644
--- a/src/lib/mqtt/mqtt_session_ram.c
+++ b/src/lib/mqtt/mqtt_session_ram.c
@@ -574,16 +574,15 @@ static int __rrr_mqtt_session_ram_pretransmit_forward (
 		goto out;
 	}
 
-	// Only update the properties which is sent to the client. Preserve
+	// Only update the properties which is sent to the client, and do it every time
+	// as the PUBLISH may have to wait for others which are in flight. Preserve
 	// the original value in case it needs to be checked for expiration.
-	if (!publish->message_expiry_interval_properties_updated && (ret = __rrr_mqtt_session_ram_update_publish_expiry_interval_properties (
+	if (publish->last_attempt == 0 && (ret = __rrr_mqtt_session_ram_update_publish_expiry_interval_properties (
 			publish
 	)) != 0) {
 		goto out;
 	}
 
-	publish->message_expiry_interval_properties_updated = 1;
-
 	out:
 	return ret;
 }
@@ -3040,7 +3039,6 @@ static int __rrr_mqtt_p_queue_publish_from_retain_callback (
 		goto out;
 	}
 
-	new_publish->message_expiry_interval_properties_updated = 0;
 	new_publish->is_outbound = 1;
 	RRR_MQTT_P_PUBLISH_SET_FLAG_RETAIN(new_publish, 1);
 
-- 
2.43.0


From e393e8a164189d77159343fe559ae9efd650c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:17 +0000
Subject: [PATCH 23/33] fix: do not time out messages immediately when send
 timeout is very long

The subtraction wrapped when the timeout exceeded the current time.
---
 src/lib/message_holder/message_holder_util.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/message_holder/message_holder_util.c b/src/lib/message_holder/message_holder_util.c
index 82fcac3..d2854d1 100644
--- a/src/lib/message_holder/message_holder_util.c
+++ b/src/lib/message_holder/message_holder_util.c
@@ -172,13 +172,15 @@ void rrr_msg_holder_util_timeout_check (
 		uint64_t timeout_us,
 		struct rrr_msg_holder *entry
 ) {
+	const uint64_t time_now = rrr_time_get_64();
+
 	// TTL timeout takes precedence if both times have expired
 
 	if (ttl_us > 0 && !rrr_msg_msg_ttl_ok(entry->message, ttl_us)) {
 		*ttl_timeout = 1;
 		*timeout = 0;
 	}
-	else if (timeout_us > 0 && entry->send_time > 0 && entry->send_time < (rrr_time_get_64() - timeout_us)) {
+	else if (timeout_us > 0 && entry->send_time > 0 && time_now > timeout_us && entry->send_time < time_now - timeout_us) {
 		*ttl_timeout = 0;
 		*timeout = 1;
 	}
-- 
2.43.0


From fc9af1c9371a9220aa9090294cc0b9da89a22eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:08 +0000
Subject: [PATCH 24/33] fix: drop messages upon write timeout in file module as
 documented

The timeout action was never set and defaulted to retry, which causes timed
out messages to stay in the send loop forever without being written.
---
 src/modules/p_file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modules/p_file.c b/src/modules/p_file.c
index 2ab2f53..04b9b47 100644
--- a/src/modules/p_file.c
+++ b/src/modules/p_file.c
@@ -447,6 +447,8 @@ static int file_parse_config (struct file_data *data, struct rrr_instance_config
 	RRR_INSTANCE_CONFIG_PARSE_OPTIONAL_UNSIGNED("file_write_timeout_ms", write_timeout_ms, RRR_FILE_DEFAULT_WRITE_TIMEOUT_MS);
 	RRR_INSTANCE_CONFIG_PARSE_OPTIONAL_UNSIGNED("file_ttl_seconds", ttl_s, RRR_FILE_DEFAULT_TTL);
 
+	data->write_timeout_action = RRR_SEND_LOOP_ACTION_DROP;
+
 	if (data->timeout_s != 0 && data->timeout_s * 1000 < data->write_timeout_ms) {
 		RRR_MSG_0("Value for parameter file_timeout_s was less than file_write_timeout_ms in file instance %s, this is an invalid configuration.\n", config->name_debug);
 		ret_keep = 1;
-- 
2.43.0


From 2b666ea13e46f4063b74bd641163125503ec7f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:43 +0000
Subject: [PATCH 25/33] fix: make room for block padding in new mmap heaps

Allocations of some sizes larger than the minimum heap size failed as the
padded block did not fit in the heap created for it.
---
 src/lib/rrr_mmap.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 7b6864e..4b41760 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -433,6 +433,8 @@ static int __rrr_mmap_init (
 #ifdef RRR_MMAP_SENTINEL_DEBUG
 	heap_size += sizeof(rrr_mmap_sentinel_template);
 #endif
+	// Block sizes are padded when allocated
+	heap_size += RRR_MMAP_HEAP_CHUNK_MIN_SIZE;
 
 	rrr_biglength heap_size_padded = heap_size + (4096 - (heap_size % 4096));
 
-- 
2.43.0


From 788a032aea45aafc9bba4f76de4dd3553c3d2aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:49 +0000
Subject: [PATCH 26/33] fix: free SHM with handle 0 when cleaning up mmap

Handle 0 is valid, the memory was never released until the collection was
destroyed.
---
 src/lib/rrr_mmap.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index 4b41760..ad681aa 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -492,7 +492,7 @@ static int __rrr_mmap_init (
 static void __rrr_mmap_cleanup (
 		struct rrr_mmap *mmap
 ) {
-	if (mmap->shm_heap) {
+	if (mmap->collection->shm_master != NULL) {
 		rrr_shm_collection_master_free(mmap->collection->shm_master, mmap->shm_heap);
 	}
 	else {
-- 
2.43.0


From 3c337dd63fd40f5aede534e022f5474a75dd2f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:38 +0000
Subject: [PATCH 27/33] fix: look for free space in the whole mmap heap

When the search started at the index used last and the end of the heap was
reached, freed blocks of previous indexes were never found again.
---
 src/lib/rrr_mmap.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/rrr_mmap.c b/src/lib/rrr_mmap.c
index ad681aa..19b8dcf 100644
--- a/src/lib/rrr_mmap.c
+++ b/src/lib/rrr_mmap.c
@@ -278,8 +278,7 @@ static void *__rrr_mmap_allocate_with_handles (
 
 		if (block_pos > mmap->heap_size) {
 			// Out of memory, not room for another index.
-			result = NULL;
-			goto out_unlock;
+			break;
 		}
 
 		rrr_biglength merge_j = 0;
@@ -299,8 +298,7 @@ static void *__rrr_mmap_allocate_with_handles (
 				// Allocate new block
 				if ((block_pos + req_size_padded) > mmap->heap_size) {
 					// Out of memory, allocation would overrun end
-					result = NULL;
-					goto out_unlock;
+					goto check_retry;
 				}
 				index->block_sizes[j] = req_size_padded;
 				index->block_used_map |= used_mask;
@@ -356,6 +354,8 @@ static void *__rrr_mmap_allocate_with_handles (
 		}
 	}
 
+	check_retry:
+
 	if (retry_count--) {
 		block_pos = 0;
 		goto retry;
-- 
2.43.0


From 53b244698568a7021eb4e1fde8408408d49708e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:29 +0000
Subject: [PATCH 28/33] fix: handle failing shmat in mmap channel

shmat returns (void *) -1 and not NULL upon failure.
---
 src/lib/mmap_channel.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/lib/mmap_channel.c b/src/lib/mmap_channel.c
index 3b689b7..66744b8 100644
--- a/src/lib/mmap_channel.c
+++ b/src/lib/mmap_channel.c
@@ -243,14 +243,18 @@ static int __rrr_mmap_channel_allocate (
 		} while (shmid <= 0);
 
 		block->shmid = shmid;
-		block->size_capacity = data_size;
 
-		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == NULL) {
+		if ((block->ptr_shm_or_mmap_writer = shmat(shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("shmat failed in %s: %s\n", __func__, rrr_strerror(errno));
+			block->ptr_shm_or_mmap_writer = NULL;
+			block->shmid = 0;
+			shmctl(shmid, IPC_RMID, NULL);
 			ret = 1;
 			goto out;
 		}
 
+		block->size_capacity = data_size;
+
 		if (shmctl(shmid, IPC_RMID, NULL) != 0) {
 			RRR_MSG_0("shmctl IPC_RMID failed in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
@@ -458,7 +462,7 @@ int rrr_mmap_channel_read_with_callback (
 	if (block->shmid != 0) {
 		const char *data_pointer = NULL;
 
-		if ((data_pointer = shmat(block->shmid, NULL, 0)) == NULL) {
+		if ((data_pointer = shmat(block->shmid, NULL, 0)) == (void *) -1) {
 			RRR_MSG_0("Could not get shm pointer in %s: %s\n", __func__, rrr_strerror(errno));
 			ret = 1;
 			goto out_unlock;
-- 
2.43.0


From 1d4d23bb977917bc7127543ab636c16c82fb8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:57 +0000
Subject: [PATCH 29/33] fix: do not leave deferred event amount behind when
 function is unpaused

---
 src/lib/event/event.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/event/event.c b/src/lib/event/event.c
index f44b983..3b6391a 100644
--- a/src/lib/event/event.c
+++ b/src/lib/event/event.c
@@ -189,6 +189,10 @@ static void __rrr_event_unpause (
 	for (uint8_t i = 0; i <= RRR_EVENT_FUNCTION_MAX; i++) {
 		if (queue->functions[i].is_paused) {
 			event_add(queue->functions[i].signal_event, NULL);
+			if (queue->deferred_amount[i] > 0) {
+				// Amount is no longer readable from the file descriptor
+				event_active(queue->functions[i].signal_event, 0, 0);
+			}
 		}
 	}
 }
-- 
2.43.0


From e0be016d6bebabe0456e716b48d07f185245f22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:06 +0000
Subject: [PATCH 30/33] fix: use after free when writing existing entries to
 message slot

---
 src/lib/message_holder/message_holder_slot.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 62ac996..2814d33 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -472,12 +472,14 @@ int rrr_msg_holder_slot_write_incref (
 ) {
 	int ret = 0;
 
+	// Incref must be done first, a reader may decref the entry as soon as it is written
+	rrr_msg_holder_incref(entry_new);
+
 	if ((ret = __rrr_msg_holder_slot_write(slot, entry_new, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		rrr_msg_holder_decref(entry_new);
 		goto out;
 	}
 
-	rrr_msg_holder_incref(entry_new);
-
 	out:
 	return ret;
 }
@@ -491,11 +493,12 @@ int rrr_msg_holder_slot_write_from_collection (
 	int ret = 0;
 
 	while (RRR_LL_COUNT(collection) > 0) {
-		struct rrr_msg_holder *entry = RRR_LL_FIRST(collection);
+		// Shift must be done first, a reader may destroy the entry as soon as it is written
+		struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
 		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+			RRR_LL_UNSHIFT(collection, entry);
 			goto out;
 		}
-		(void)RRR_LL_SHIFT(collection);
 	}
 
 	out:
-- 
2.43.0


From eecc0888d2a69ecdb0d81f1a47358e276b477320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:44 +0000
Subject: [PATCH 31/33] fix: notify readers of each entry when writing multiple
 entries to message slot

---
 src/lib/message_broker.c                     | 57 +++++++++++++-------
 src/lib/message_holder/message_holder_slot.c | 17 +++---
 2 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index 4943116..e2036d7 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1330,31 +1330,50 @@ int rrr_message_broker_write_entries_from_collection_unsafe (
 	RRR_LL_ITERATE_END();
 
 	if (costumer->slot != NULL) {
-		ret = rrr_msg_holder_slot_write_from_collection(costumer->slot, collection, check_cancel_callback, check_cancel_callback_arg);
-	}
-	else {
-		ret = rrr_fifo_protected_write(&costumer->main_queue, __rrr_message_broker_write_entries_from_collection_callback, collection);
-	}
-
-	while (written_entries > 0) {
-		if (written_entries > 0xff) {
-			ret = __rrr_message_broker_write_notifications_send (
-					costumer,
-					0xff,
+		// The readers must be notified about each entry, the next one
+		// cannot be written to the slot before they have read it.
+		while (RRR_LL_COUNT(collection) > 0) {
+			if ((ret = rrr_msg_holder_slot_write_from_collection (
+					costumer->slot,
+					collection,
 					check_cancel_callback,
 					check_cancel_callback_arg
-			);
-			written_entries -= 0xff;
-		}
-		else {
-			ret = __rrr_message_broker_write_notifications_send (
+			)) != 0) {
+				goto out;
+			}
+			if ((ret = __rrr_message_broker_write_notifications_send (
 					costumer,
-					(uint8_t) written_entries,
+					1,
 					check_cancel_callback,
 					check_cancel_callback_arg
-			);
-			written_entries = 0;
+			)) != 0) {
+				goto out;
+			}
+		}
+		goto out;
+	}
+
+	if ((ret = rrr_fifo_protected_write (
+			&costumer->main_queue,
+			__rrr_message_broker_write_entries_from_collection_callback,
+			collection
+	)) != 0) {
+		RRR_MSG_0("Error while writing to buffer in %s\n", __func__);
+		ret = RRR_MESSAGE_BROKER_ERR;
+		goto out;
+	}
+
+	while (written_entries > 0) {
+		const uint8_t amount = (uint8_t) (written_entries > 0xff ? 0xff : written_entries);
+		if ((ret = __rrr_message_broker_write_notifications_send (
+				costumer,
+				amount,
+				check_cancel_callback,
+				check_cancel_callback_arg
+		)) != 0) {
+			goto out;
 		}
+		written_entries -= amount;
 	}
 
 	out:
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 2814d33..2e5d352 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -484,6 +484,7 @@ int rrr_msg_holder_slot_write_incref (
 	return ret;
 }
 
+// Writes the first entry of the collection
 int rrr_msg_holder_slot_write_from_collection (
 		struct rrr_msg_holder_slot *slot,
 		struct rrr_msg_holder_collection *collection,
@@ -492,13 +493,15 @@ int rrr_msg_holder_slot_write_from_collection (
 ) {
 	int ret = 0;
 
-	while (RRR_LL_COUNT(collection) > 0) {
-		// Shift must be done first, a reader may destroy the entry as soon as it is written
-		struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
-		if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
-			RRR_LL_UNSHIFT(collection, entry);
-			goto out;
-		}
+	if (RRR_LL_COUNT(collection) == 0) {
+		goto out;
+	}
+
+	// Shift must be done first, a reader may destroy the entry as soon as it is written
+	struct rrr_msg_holder *entry = RRR_LL_SHIFT(collection);
+	if ((ret = __rrr_msg_holder_slot_write (slot, entry, check_cancel_callback, check_cancel_callback_arg)) != 0) {
+		RRR_LL_UNSHIFT(collection, entry);
+		goto out;
 	}
 
 	out:
-- 
2.43.0


From 4b07ddb2bc7dd0999a04101aca27bc31f7ea110b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:17 +0000
Subject: [PATCH 32/33] fix: keep backstop working for duplicated messages and
 slots

The source of a message was replaced with the costumer itself respectively
lost when messages passed through duplicated buffers and slots, the originator
would then get its own messages back.
---
 src/lib/message_broker.c                     | 10 ++++++++--
 src/lib/message_holder/message_holder_slot.c |  5 ++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index e2036d7..e7346fa 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -1108,6 +1108,7 @@ struct rrr_message_broker_clone_and_write_entry_callback_data {
 	struct rrr_message_broker_costumer *costumer;
 	const struct rrr_msg_holder *source;
 	const rrr_msg_holder_nexthops *nexthops;
+	int preserve_source;
 };
 
 static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECTED_WRITE_CALLBACK_ARGS) {
@@ -1126,6 +1127,9 @@ static int __rrr_message_broker_clone_and_write_entry_callback (RRR_FIFO_PROTECT
 	rrr_msg_holder_lock(target);
 	ret |= __rrr_message_broker_entry_prepare(callback_data->costumer, target, callback_data->nexthops);
 	ret |= __rrr_message_broker_pre_buffer_hook(callback_data->costumer, target);
+	if (callback_data->preserve_source) {
+		target->source = callback_data->source->source;
+	}
 	rrr_msg_holder_unlock(target);
 
 	if (ret != 0) {
@@ -1196,7 +1200,8 @@ int rrr_message_broker_clone_and_write_entry (
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			nexthops
+			nexthops,
+			0
 		};
 
 		if (rrr_fifo_protected_write (
@@ -1540,7 +1545,8 @@ static int __rrr_message_broker_split_buffers_fill_callback (RRR_FIFO_PROTECTED_
 		struct rrr_message_broker_clone_and_write_entry_callback_data callback_data = {
 			costumer,
 			entry,
-			&entry->nexthops
+			&entry->nexthops,
+			1 // Backstop must work also for duplicated messages
 		};
 
 		// Use delayed write in case there are other threads reading from their buffer
diff --git a/src/lib/message_holder/message_holder_slot.c b/src/lib/message_holder/message_holder_slot.c
index 2e5d352..5bb83c7 100644
--- a/src/lib/message_holder/message_holder_slot.c
+++ b/src/lib/message_holder/message_holder_slot.c
@@ -229,7 +229,10 @@ int rrr_msg_holder_slot_read (
 	}
 
 	rrr_msg_holder_lock(slot->entry);
-	ret = rrr_msg_holder_util_clone_no_locking(&entry_new, slot->entry);
+	if ((ret = rrr_msg_holder_util_clone_no_locking(&entry_new, slot->entry)) == 0) {
+		// Backstop must work also for messages passing through slots
+		entry_new->source = slot->entry->source;
+	}
 	rrr_msg_holder_unlock(slot->entry);
 
 	if (ret != 0) {
-- 
2.43.0


From d425b4609c3a27f924976ac28ff6b95973d5477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:29 +0000
Subject: [PATCH 33/33] fix: threads may get the same unique id from message
 broker

The counter was read after the lock had been released.
---
 src/lib/message_broker.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/lib/message_broker.c b/src/lib/message_broker.c
index e7346fa..c46621e 100644
--- a/src/lib/message_broker.c
+++ b/src/lib/message_broker.c
@@ -988,8 +988,7 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		void *callback_arg_2
 ) {
 	uint64_t *unique_counter = callback_arg_1;
-
-	(void)(callback_arg_2);
+	uint64_t *result = callback_arg_2;
 
 	(*unique_counter)++;
 
@@ -997,6 +996,8 @@ int __rrr_message_broker_get_next_unique_id_callback (
 		*unique_counter = 1;
 	}
 
+	*result = *unique_counter;
+
 	return 0;
 }
 
@@ -1013,7 +1014,7 @@ int rrr_message_broker_get_next_unique_id (
 				costumer->slot,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
@@ -1023,14 +1024,12 @@ int rrr_message_broker_get_next_unique_id (
 				&costumer->main_queue,
 				__rrr_message_broker_get_next_unique_id_callback,
 				&costumer->unique_counter,
-				NULL
+				result
 		)) != 0) {
 			goto out;
 		}
 	}
 
-	*result = costumer->unique_counter;
-
 	out:
 	return ret;
 }
-- 
2.43.0

