TV = "TLA+ specification checked with TLC; conformance of the C code by trace validation with TLC"
NOTE = {
 "C01": (TV + " (threads under a controlled scheduler)", "The specification is checked exhaustively for small constants; the code is run under randomly chosen, repeatable schedules with preemption inside fifo_protected.c and every recorded trace must be a behaviour of the specification. Schedules and inputs are sampled."),

 "C12": (TV, "The specification (allocated set as intervals) is checked exhaustively for a small id space; random operation sequences on the real pool (full 16-bit space, clustered, wrap-around, exhaustion) must be behaviours of it."),

 "C17": (TV, "Parsing (typed stack discipline, faults, end of definition) and execution are a TLA+ interpreter checked exhaustively for all programs up to 7 elements; generated programs and messages run through the real parser, executor, tag index and nexthop collections must be behaviours of it."),
 "C08": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled."),
 "C09": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled."),
 "C10": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled. One listed known finding: the will is not published on takeover."),
 "C11": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled."),
 "C21": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled."),
 "C22": (TV, "The broker specification (sessions, subscriptions, queues, QoS handshakes, retained messages, wills, ACL, authentication, time) is checked exhaustively for small constants; the real broker runs in-process over loopback TCP with a virtual clock, seeded clients act as packet-level peers and every recorded exchange must be a behaviour of the specification. Histories are sampled. Malformed, truncated and misplaced packets are mixed into the traffic of correct clients; built with AddressSanitizer."),
}
NOTE["C04"] = (TV, "The specification is checked exhaustively for a small ring. The real channel is run by writer, reader and counter threads under a controlled scheduler with preemption inside mmap_channel.c, by two real processes running freely and by two processes taking turns, with refused shared memory and failing consumers; every recorded history must be a behaviour of the specification. Schedules are sampled.")
NOTE["C05"] = (TV, "The specification is checked exhaustively for two small segments. Random allocation histories on the real heap (private, shared, shared by three processes, threads under a controlled scheduler) with content checks must be behaviours of it. Histories are sampled.")
NOTE["C07"] = (TV, "The specification is checked exhaustively for a few messages and a short clock. The real send loop runs with a virtual clock and a scripted push callback; every recorded history must be a behaviour of the specification. Histories are sampled.")
NOTE["C03"] = (TV, "The specification is checked exhaustively for two functions, two signalling threads and three signals. The real queue (with the real poll loop) is run by signalling threads and a dispatcher under a controlled scheduler with preemption inside event.c and rrr_socket_eventfd.c, with partial consumption, pause, failing handlers, full pipes and cancelled signals; every recorded history must be a behaviour of the specification. Schedules are sampled.")
NOTE["C02"] = (TV, "The specification is checked exhaustively for three instances, all kinds of outputs and two or three messages. Two to four real instances with random topology, outputs, filters, next hops and forwarding run their event loops and writer threads under a controlled scheduler with preemption inside message_broker.c and message_holder_slot.c (partly with AddressSanitizer); every recorded run must be a behaviour of the specification. Schedules are sampled. Competing readers with more senders: known finding.")
NA = {}
