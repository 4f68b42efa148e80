#!/usr/bin/env python3
# Source of properties.jsonl (run: python3 properties_src.py > properties.jsonl)
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Shared message FIFO: every entry is read exactly once and in order",
  "Entries written to a message FIFO by any number of threads come out of it exactly once and, per writer, in the order they were written, no matter how readers, searchers and deletion run alongside. A reader's instruction for an entry (keep, give away, free, stop, put back, write more) has exactly its documented effect on that entry, entries put back or kept are read again before later ones, and the reported entry count equals the number of stored entries whenever no operation is in progress.",
  ["schedules", "histories", "inputs"],
  "All interleavings of concurrent writers, delayed writers, readers, searchers and clearing, and all sequences of callback answers.",
  "test_fifo writes and reads a handful of entries from one thread; the interleavings of the three-mutex splice-out/splice-in reader with writers and clear are never scheduled.",
  ["src/lib/fifo_protected.c", "src/lib/fifo.c", "src/lib/fifo_common.h"],
  [("list spliced out under lock, callbacks run unlocked, remainder spliced back in front", "src/lib/fifo_protected.c: rrr_fifo_protected_read_clear_forward"),
   ("write / delayed write / search mutexes", "src/lib/fifo_protected.c"),
   ("single threaded variant", "src/lib/fifo.c")],
  ["return values of write/read/search calls", "payloads passed to the callbacks", "entry count"])

p("C02", "Message broker: each message reaches every receiver exactly once in order",
  "A message written by a module instance is handed to each receiver when the output is duplicated or there is one receiver, and to exactly one of the receivers otherwise (the receivers then having no other senders). It is handed over exactly once and, unless receivers compete, in the order written, for buffered and unbuffered (one-slot) outputs and any interleaving and speed of senders and receivers. A slot holds one message at a time, a writer waiting for it can be cancelled. A message is handed only to receivers it is addressed to (next hops), whose topic filter it matches, and never back to its originator when backstop is active. Receivers are always notified while messages wait for them, and unique ids are unique.",
  ["schedules", "histories", "configurations"],
  "All interleavings of sender and receiver threads, all combinations of buffer/no-buffer, duplicate, backstop and receiver sets.",
  "Existing end-to-end tests run one message through a fixed graph; ordering/loss/duplication under contention and slow readers is never provoked.",
  ["src/lib/message_broker.c", "src/lib/message_holder/message_holder_slot.c", "src/lib/message_holder/message_holder.c", "src/lib/message_holder/message_holder_util.c", "src/lib/poll_helper.c"],
  [("costumer lookup, split buffers, slots and notifications", "src/lib/message_broker.c"),
   ("one-slot rendezvous", "src/lib/message_holder/message_holder_slot.c"),
   ("reference counted message holder", "src/lib/message_holder/message_holder.c")],
  ["poll callbacks", "event amounts", "write return values"])

p("C03", "Event queue: no signalled amount is lost or invented",
  "The amounts signalled to a function of an event queue from any thread are delivered to that function on the queue's own thread and the delivered total equals the signalled total, also when the handler consumes only part of an amount, when the function is paused in between, when the queue is full, and when the signal carries the maximum amount. A paused function is not called until it is unpaused, a failing handler ends dispatch with its error, and signals to one function never reach another.",
  ["schedules", "histories", "inputs"],
  "All interleavings of signalling threads with the dispatcher and all sequences of partial consumption, pause and failure.",
  "No unit test exercises the event queue; it is only used incidentally.",
  ["src/lib/event/event.c", "src/lib/event/event_collection.c", "src/lib/socket/rrr_socket_eventfd.c"],
  [("eventfd/pipe counters per function", "src/lib/socket/rrr_socket_eventfd.c"),
   ("deferred amount and pause handling", "src/lib/event/event.c")],
  ["handler invocations with amounts", "return value of pass and dispatch"])

p("C04", "Cross-process channel: blocks arrive exactly once, complete and in order",
  "Messages written to the shared memory channel between two processes are received by the other process exactly once, in writing order and with exactly the written content, for every message size and for every interleaving of writer and reader. A write into a full channel is refused without changing anything, a read whose consumer fails leaves the message to be read again, and the reported number of waiting messages never understates what can be read.",
  ["schedules", "inputs", "histories"],
  "All interleavings of one writer and one reader process, message sizes across the shared-memory/mmap threshold, and consumer failures.",
  "test_mmap_channel writes 1024 fixed strings with a plain fork; wrap-around, full ring, failure and size switching interleavings are not controlled.",
  ["src/lib/mmap_channel.c", "src/lib/rrr_mmap.c", "src/lib/rrr_shm.c"],
  [("ring of blocks guarded by per block locks", "src/lib/mmap_channel.c"),
   ("entry counter and read/write positions", "src/lib/mmap_channel.c")],
  ["callback data", "return values FULL/EMPTY/OK", "entry count"])

p("C05", "Shared heap: live allocations never overlap and freed memory is reusable",
  "Every allocation from the shared heap lies wholly inside heap memory, never overlaps another live allocation and keeps its contents until it is freed, for all sequences of allocations and frees from any of the processes sharing the heap. Memory which has been freed becomes available again: a sequence which frees everything can be repeated forever without the heap growing without bound.",
  ["histories", "inputs", "schedules"],
  "All sequences of allocation and free with all sizes, from several processes.",
  "test_allocator performs a fixed pattern of allocations.",
  ["src/lib/rrr_mmap.c", "src/lib/rrr_shm.c", "src/lib/util/rrr_allocator.c", "src/lib/allocator.h"],
  [("block headers with merge of adjacent free blocks", "src/lib/rrr_mmap.c")],
  ["returned addresses and contents"])

p("C06", "Thread supervision: ordered startup, freeze detection and complete shutdown",
  "Instance threads start in phases: no thread passes a phase before it is released to it and threads which must fork before others do so in order; a thread is never started twice. A thread which stops updating its watchdog within the freeze limit is told to stop, then cancelled, and finally declared a ghost if it does not end, whereas a thread which keeps updating is never stopped by its watchdog; stopping the collection stops every thread which can be stopped and reports how many ghosts remain.",
  ["schedules", "fault_sequences", "histories"],
  "All interleavings of the main thread, instance threads and watchdogs, all freeze/late stop/never stop patterns.",
  "Tests never freeze a thread; only normal startup and Ctrl+C shutdown is executed.",
  ["src/lib/threads.c", "src/lib/threads.h"],
  [("signals and states with condition variable", "src/lib/threads.c"),
   ("watchdog thread", "src/lib/threads.c: __rrr_thread_watchdog_entry")],
  ["observed states and signals", "return values and ghost counts"])

p("C07", "Send loop: outgoing messages keep order and obey TTL, timeout and retry rules",
  "Each message pushed to a send loop is attempted until it is sent or fails, is sent successfully at most once, is dropped once older than its time-to-live, and after the send timeout receives exactly the configured action (retry, drop or return). With order preservation, no message is attempted before an earlier pushed message still waiting, and messages which are not ready stay queued without being lost.",
  ["histories", "inputs", "fault_sequences"],
  "All sequences of pushes, runs, clock advances and send results for every configuration.",
  "test_send_loop covers a few scripted runs with fixed delays.",
  ["src/lib/send_loop.c", "src/lib/send_loop.h"],
  [("run over entry collection with timeout and ttl tests", "src/lib/send_loop.c")],
  ["push/return callbacks and their order"])

p("C08", "MQTT broker: QoS guarantees for every publish and every subscriber",
  "A publish accepted by the broker is forwarded once per matching subscription of every session, with quality of service lowered to what the subscription granted, and the publishes of one publisher on one QoS level reach a subscriber in order. A QoS 1 or 2 publish is acknowledged to its sender according to the protocol and QoS 2 publishes are delivered exactly once even when packets are repeated; unacknowledged outbound packets are kept, resent as duplicates after reconnection and their packet identifiers are never used for another packet in flight.",
  ["histories", "fault_sequences", "schedules"],
  "All interleavings of packets from several clients, retransmissions, disconnections and reconnections.",
  "The MQTT tests publish one message through one broker with a well behaved client.",
  ["src/lib/mqtt/mqtt_session_ram.c", "src/lib/mqtt/mqtt_broker.c", "src/lib/mqtt/mqtt_common.c", "src/lib/mqtt/mqtt_connection.c", "src/lib/mqtt/mqtt_packet.c", "src/lib/mqtt/mqtt_parse.c", "src/lib/mqtt/mqtt_assemble.c"],
  [("per session outbound and inbound queues with acknowledgement matching", "src/lib/mqtt/mqtt_session_ram.c"),
   ("packet handlers", "src/lib/mqtt/mqtt_broker.c, src/lib/mqtt/mqtt_common.c")],
  ["bytes on client sockets"])

p("C09", "MQTT broker: session state survives exactly as negotiated",
  "A client which reconnects to a persistent session gets its subscriptions and the messages queued while it was away and is told that the session was present, whereas a clean start, a clean session or an expired session leaves nothing behind. At most one connection is attached to a client identifier: a new connection takes over and the old one is closed; unsubscribing stops delivery for exactly the given filters.",
  ["histories", "fault_sequences", "schedules"],
  "All histories of connect (clean or not, expiry), subscribe, unsubscribe, publish, disconnect, abrupt close, takeover and time passing.",
  "No test reconnects to a session or takes one over.",
  ["src/lib/mqtt/mqtt_session_ram.c", "src/lib/mqtt/mqtt_broker.c", "src/lib/mqtt/mqtt_connection.c", "src/lib/mqtt/mqtt_subscription.c"],
  [("session collection with expiry and reset", "src/lib/mqtt/mqtt_session_ram.c"),
   ("client id takeover", "src/lib/mqtt/mqtt_broker.c")],
  ["bytes on client sockets"])

p("C10", "MQTT broker: retained messages and wills",
  "A new subscription receives, marked as retained, the most recent retained message of every matching topic and nothing else; an empty retained message removes the stored one and each topic stores at most one. The will of a client is published exactly when its connection ends without a normal disconnect (including keep-alive expiry and takeover), at most once and never after a normal disconnect.",
  ["histories", "fault_sequences"],
  "All histories of retained publishes, deletions, subscriptions and connection endings.",
  "No test exercises wills, and retained messages are published without being verified.",
  ["src/lib/mqtt/mqtt_session_ram.c", "src/lib/mqtt/mqtt_broker.c", "src/lib/mqtt/mqtt_connection.c"],
  [("retain buffer search and replace", "src/lib/mqtt/mqtt_session_ram.c"),
   ("will handling at disconnect", "src/lib/mqtt/mqtt_session_ram.c, src/lib/mqtt/mqtt_broker.c")],
  ["bytes on client sockets"])

p("C11", "MQTT topics and access control: only matching, permitted traffic passes",
  "A topic filter matches a topic exactly when the MQTT wildcard rules say so, and a client receives only publishes matching one of its filters. A publish or subscribe is accepted only if the access control rules in effect for that user and topic, where the last matching rule for the user or else the default rule decides, grant the needed right; a client which has not authenticated where required gets nothing.",
  ["inputs", "configurations"],
  "All topics, filters, rule files and users over a small alphabet of levels and wildcards.",
  "test_mqtt_topic checks a dozen hand picked pairs and the ACL test one file.",
  ["src/lib/mqtt/mqtt_topic.c", "src/lib/mqtt/mqtt_acl.c", "src/lib/mqtt/mqtt_subscription.c", "src/lib/mqtt/mqtt_broker.c"],
  [("token tree and linear matching", "src/lib/mqtt/mqtt_topic.c"),
   ("ACL entries and lookup", "src/lib/mqtt/mqtt_acl.c")],
  ["match results and ACL decisions"])

p("C12", "Packet identifiers are unique while in use and never run out early",
  "A packet identifier handed out is nonzero and different from every identifier in use, an identifier which has been released becomes available again, and identifiers are refused only while all of them are in use, for every sequence of requests and releases.",
  ["histories"],
  "All sequences of identifier requests, reservations and releases including exhaustion and wrap-around.",
  "Ordinary use never has more than a few identifiers in flight and never exhausts or wraps the pool.",
  ["src/lib/mqtt/mqtt_id_pool.c"],
  [("bit map in segments allocated on demand", "src/lib/mqtt/mqtt_id_pool.c")],
  ["returned identifiers"])

p("C13", "UDP stream: exactly-once message transfer over an unreliable network",
  "Messages queued to an assured-delivery UDP stream are delivered to the receiving application exactly once and with unchanged content, when datagrams between the peers are lost, duplicated, delayed or reordered in any way which eventually lets traffic through. Frames of a stream are reassembled only from frames of the same message and stream, and damaged frames are ignored.",
  ["fault_sequences", "schedules", "histories"],
  "All loss/duplication/reordering/corruption patterns of datagrams in both directions.",
  "The ipclient test runs over a loss-free loopback.",
  ["src/lib/udpstream/udpstream.c", "src/lib/udpstream/udpstream_asd.c"],
  [("frame ids, windows, ACK and resend", "src/lib/udpstream/udpstream.c"),
   ("delivery, release and complete acknowledgement cascade with grace", "src/lib/udpstream/udpstream_asd.c")],
  ["messages given to the receive callback"])

p("C14", "Message database: reads return the latest stored message, also after a crash",
  "A get returns the message of the latest successful put for that topic and nothing after a delete or for a topic never stored; each command is answered in order with one result, and an index or tidy command lists or removes exactly the stored messages which satisfy its age limit. Stored messages survive restarts and changes of directory layout, and after a crash in the middle of a write a get returns an intact message stored for that topic or nothing, never a damaged one.",
  ["histories", "crash_points", "configurations"],
  "All histories of put/get/delete/index/tidy from several clients, restarts, layout changes and all crash points of a write.",
  "test_msgdb runs one scripted sequence without crash, corruption or restart.",
  ["src/lib/msgdb/msgdb_server.c", "src/lib/msgdb/msgdb_client.c", "src/lib/msgdb/msgdb_common.c"],
  [("one file per topic hash, checksum and topic verification at read", "src/lib/msgdb/msgdb_server.c")],
  ["responses on the database socket"])

p("C15", "Cacher: requests are answered with the newest value for the topic",
  "A request message is answered with the newest data message stored under its topic when one exists in the cache or database and is not expired, and with nothing otherwise; data messages update the store (or delete from it when empty and so configured), and requests, data and other messages are forwarded exactly to the receivers and under the conditions the configuration names.",
  ["histories", "configurations"],
  "All sequences of data, request, delete, expired and topic-less messages for every combination of the module's options.",
  "The cacher tests run a single exchange for four configurations.",
  ["src/modules/p_cacher.c"],
  [("store, memory cache and forward decisions", "src/modules/p_cacher.c")],
  ["messages emitted by the instance"])

p("C16", "Incrementer: identifiers advance per topic, stay in range and survive restarts",
  "Each message matching the incrementer's filter gets the next identifier for its topic: within the configured range, congruent to the configured position, greater than the previous one unless wrapping to the start of the range, with the configured prefix. The identifier last used is never used again before the range wraps, also after a restart when a database is configured, and initializer messages take effect only for topics not yet in use.",
  ["histories", "configurations", "crash_points"],
  "All sequences of subject, initializer and other messages, restarts and all small ranges, moduli, positions and prefixes.",
  "test_increment checks a few sums; the module test runs one configuration.",
  ["src/modules/p_incrementer.c", "src/lib/util/increment.c"],
  [("increment with modulus and prefix", "src/lib/util/increment.c"),
   ("used and initial identifier maps plus database", "src/modules/p_incrementer.c")],
  ["topics and values of emitted messages"])

p("C17", "Routing: a message goes exactly where the routing program sends it",
  "For every routing definition accepted by the parser, evaluating it for a message yields exactly the destinations which the documented stack machine semantics give for the message's topic and array tags, in the documented order of application, with a bail-out stopping all further evaluation. Definitions which underflow, overflow, mix types or do not leave an empty stack are rejected when parsed, never accepted.",
  ["programs", "inputs"],
  "All routing programs up to a length bound and all messages over a small set of topics and tags.",
  "test_discern_stack evaluates about thirty hand written programs.",
  ["src/lib/discern_stack.c", "src/lib/discern_stack_helper.c", "src/lib/instance_config.c"],
  [("parser with type checking dummy execution", "src/lib/discern_stack.c"),
   ("fast interpreter", "src/lib/discern_stack.c")],
  ["apply callbacks", "parse results"])

p("C18", "Stream reading: received messages do not depend on how the stream is cut",
  "When a byte stream of messages is received over any stream transport, the sequence of messages delivered to the application is the same for every way the stream is cut into reads and in the presence of would-block, and equals the messages which were sent; a damaged message is reported and never delivered as a valid one, and bytes following a message are kept for the next.",
  ["inputs", "schedules"],
  "All fragmentations of streams of messages, all positions of corruption.",
  "Tests send each message in one piece over local sockets.",
  ["src/lib/read.c", "src/lib/socket/rrr_socket_read.c", "src/lib/messages/msg.c", "src/lib/messages/msg_msg.c", "src/lib/array.c", "src/lib/hdlc/hdlc.c", "src/lib/websocket/websocket.c"],
  [("read session with overshoot handling", "src/lib/read.c"),
   ("message header and data checksums", "src/lib/messages/msg.c")],
  ["messages given to callbacks"])

p("C19", "Socket client collections: queued data is sent completely, in order, once",
  "Data queued for sending to a connected peer is transmitted completely, in the order it was queued and once, through partial writes and would-block; each queued chunk is reported exactly once as sent or as not sent when the connection goes away, and a connection asked to close when sending is complete closes only after everything queued has been sent.",
  ["histories", "fault_sequences", "schedules"],
  "All sequences of queueing, partial writes, would-block, peer close and close-when-complete.",
  "Tests use small messages on local sockets where writes are never partial.",
  ["src/lib/socket/rrr_socket_client.c", "src/lib/socket/rrr_socket_send_chunk.c"],
  [("send chunk collections with priorities", "src/lib/socket/rrr_socket_send_chunk.c")],
  ["bytes seen by the peer", "chunk notifications"])

p("C20", "Modbus client: every response is matched to its own outstanding request",
  "A response is accepted only for an outstanding request with the same transaction, unit and function, each request completes at most once, and the delivered register or coil values are those of the response; malformed, unsolicited or exception responses are never delivered as data, for every order of responses and every fragmentation.",
  ["histories", "inputs", "fault_sequences"],
  "All orders of requests and responses with unknown transactions, exceptions, truncations and fragmentations.",
  "test_modbus checks a handful of encoded frames.",
  ["src/lib/modbus/rrr_modbus.c"],
  [("transaction table", "src/lib/modbus/rrr_modbus.c")],
  ["response callbacks"])

p("C21", "MQTT broker: only clients with valid credentials and permission are let in",
  "When authentication is required, a CONNECT is accepted exactly when it carries a user name and password for which the password file has an entry of that user with the matching hash and the required permission, for every user, password, permission and file content; without a user name a client is accepted exactly when anonymous access is allowed. A rejected client gets no positive acknowledgement and nothing it sends afterwards has any effect.",
  ["inputs", "configurations", "histories"],
  "All password files over similar user names, hashes and permissions, all combinations of credentials and access settings.",
  "No test connects with a wrong user name or password.",
  ["src/lib/passwd.c", "src/lib/mqtt/mqtt_broker.c", "src/modules/n_mqtt_broker.c"],
  [("password file iteration and hash comparison", "src/lib/passwd.c"),
   ("authentication of CONNECT", "src/lib/mqtt/mqtt_broker.c")],
  ["CONNACK or closed connection", "effects of later packets"])

p("C22", "MQTT broker: a broken or hostile client harms nobody else",
  "Whatever bytes a client sends, cut off at any position, and at whatever point it disappears, the broker stays alive, makes no invalid memory access and keeps every guarantee given to its other clients. A client which breaks the protocol is disconnected and at most its own session is affected.",
  ["inputs", "fault_sequences", "histories"],
  "All malformed, truncated, out-of-order and oversized packets interleaved with the traffic of correct clients.",
  "The MQTT tests only use rrr's own, well behaved client.",
  ["src/lib/mqtt/mqtt_parse.c", "src/lib/mqtt/mqtt_connection.c", "src/lib/mqtt/mqtt_broker.c", "src/lib/mqtt/mqtt_common.c", "src/lib/mqtt/mqtt_session_ram.c", "src/lib/mqtt/mqtt_property.c", "src/lib/net_transport/net_transport.c"],
  [("incremental parser", "src/lib/mqtt/mqtt_parse.c"),
   ("error classes soft/hard deciding what is closed", "src/lib/mqtt/mqtt_broker.c, src/lib/mqtt/mqtt_common.c")],
  ["bytes on the other clients' sockets", "process liveness", "AddressSanitizer reports"])

for x in P:
    assert len(x["title"]) <= 80, x["title"]
    print(json.dumps(x))
