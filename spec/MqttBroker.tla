----------------------------- MODULE MqttBroker -----------------------------
(* The MQTT broker: connections, sessions, subscriptions, message queues with
   the QoS 1 and 2 handshakes, retained messages, wills, session and message
   expiry, keep-alive, access rules and authentication.

   Time is an interval [now.a, now.b] in milliseconds: what happens during a
   step of an observed run happened at an unknown time within it. Deadlines are
   stored as intervals too. Packets are records, topics and filters are
   sequences of levels (see Topic).                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE Topic
VARIABLES cfg,    \* configuration of the broker, constant during a behaviour
          conn,   \* connections: function from connection numbers
          sess,   \* sessions: function from client identifiers
          ret,    \* retained messages, set of records, one per topic
          now
mvars == <<cfg, conn, sess, ret, now>>

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
NEVER == 2000000000
LIMIT == 125                 \* unacknowledged messages per client, at most
SLACK == 12000               \* timers are served by a maintenance job which runs every 10 s
Del(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Rem(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Range(s) == {s[i] : i \in 1..Len(s)}

(***************************************************************************)
(* Access rules: entries [f, def, users] in the order of the file, levels   *)
(* 0 deny, 1 read, 2 write. The last entry which applies decides, and a      *)
(* user entry goes before the default of its block. Without any entry which  *)
(* applies there is no access. A subscription is granted only when access is *)
(* given to everything it may match.                                         *)
(***************************************************************************)
ActionOf(e, user) == IF user \in DOMAIN e.users THEN e.users[user] ELSE e.def
RECURSIVE Covers(_, _)
Covers(m, s) ==
  IF m = << >> \/ s = << >> THEN m = s
  ELSE IF m[1] = "#" THEN TRUE
  ELSE s[1] # "#" /\ (m[1] = "+" \/ m[1] = s[1]) /\ Covers(Tail(m), Tail(s))
RECURSIVE Overlaps(_, _)
Overlaps(m, s) ==
  IF m = << >> \/ s = << >> THEN m = s
  ELSE IF FirstChar(m[1]) = "$" /\ s[1] \in {"#", "+"} THEN FALSE
  ELSE IF m[1] = "#" \/ s[1] = "#" THEN TRUE
  ELSE (m[1] = "+" \/ s[1] = "+" \/ m[1] = s[1]) /\ Overlaps(Tail(m), Tail(s))
RECURSIVE AclPub(_, _, _)
AclPub(n, user, t) ==     \* level of access to a topic by entries 1..n
  IF n = 0 THEN 0 ELSE IF TopicMatch(cfg.acl[n].f, t) THEN ActionOf(cfg.acl[n], user) ELSE AclPub(n - 1, user, t)
RECURSIVE AclSub(_, _, _)
AclSub(n, user, f) ==
  IF n = 0 THEN FALSE
  ELSE IF Covers(cfg.acl[n].f, f) THEN ActionOf(cfg.acl[n], user) >= 1
  ELSE IF Overlaps(cfg.acl[n].f, f) /\ ActionOf(cfg.acl[n], user) = 0 THEN FALSE
  ELSE AclSub(n - 1, user, f)
MayPublish(user, t) == AclPub(Len(cfg.acl), user, t) = 2
MaySubscribe(user, f) == AclSub(Len(cfg.acl), user, f)

\* Why a CONNECT is refused, if it is
Refused(p) ==
  \/ p.user = "" /\ cfg.noanon
  \/ p.user # "" /\ (p.pw = "" \/ p.user \notin DOMAIN cfg.pw \/ cfg.pw[p.user] # p.pw)
  \/ p.cid = "" /\ ~ p.clean
  \/ p.reserved /\ p.cid \notin DOMAIN sess
  \/ p.will.on /\ ~ MayPublish(p.user, p.will.topic)

(***************************************************************************)
(* Queues                                                                   *)
(***************************************************************************)
NewConn == [st |-> "tcp", cid |-> "", v |-> 0, user |-> "", acks |-> << >>, in |-> << >>, rmax |-> 65535, mps |-> 0,
            ka |-> 0, act |-> now, why |-> "", told |-> FALSE, fin |-> FALSE, since |-> now,
            late |-> << >>]   \* handshakes which the client has gone on with just now
NewSess == [conn |-> 0, subs |-> << >>, q |-> << >>, inq2 |-> << >>, sei |-> 0, mps |-> 0,
            will |-> [on |-> FALSE], due |-> [a |-> 0, b |-> 0], exp |-> [a |-> 0, b |-> 0]]
\* d is seconds
Later(i, d) == IF d >= 1000000 THEN [a |-> NEVER, b |-> NEVER] ELSE [a |-> i.a + d * 1000, b |-> i.b + d * 1000]
\* A message for the queue of a session
Entry(p, q, r, s) ==
  [m |-> p.m, pr |-> p.pr, t |-> p.topic, q |-> q, r |-> r, id |-> 0, st |-> "new", c |-> 0, at |-> now, mei |-> p.mei,
   made |-> p.made, old |-> FALSE, opt |-> s.mps # 0 /\ p.size > s.mps]
Dead(e) == e.mei # 0 /\ e.made.b + e.mei * 1000 < now.a       \* has certainly expired
MayBeDead(e) == e.mei # 0 /\ e.made.a + e.mei * 1000 <= now.b
\* One copy for every subscription which matches
RECURSIVE Copies(_, _, _, _)
Copies(subs, cid, from, p) ==
  IF subs = << >> THEN << >>
  ELSE LET s == subs[1] IN
       (IF TopicMatch(s.f, p.topic) /\ ~ (s.nl /\ cid = from)
        THEN <<Entry(p, Min(p.q, s.q), s.rap /\ p.r, sess[cid])>> ELSE << >>)
       \o Copies(Tail(subs), cid, from, p)
Deliver(S, from, p) == [cid \in DOMAIN S |-> [S[cid] EXCEPT !.q = @ \o Copies(S[cid].subs, cid, from, p)]]
Retain(R, p) ==
  IF ~ p.r THEN R
  ELSE {x \in R : x.topic # p.topic} \cup (IF p.empty THEN {} ELSE {p})
\* The retained messages for the subscriptions of a SUBSCRIBE packet
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN << >> ELSE LET x == CHOOSE x \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
RECURSIVE RetainedFor(_, _, _)
RetainedFor(fs, user, s) ==
  IF fs = << >> THEN << >>
  ELSE LET x == fs[1]
           M == IF MaySubscribe(user, x.f) /\ x.rh # 2 /\ (\A o \in Range(s.subs) : o.f # x.f)
                THEN {p \in ret : TopicMatch(x.f, p.topic)} ELSE {}
       IN SeqOf({[Entry(p, Min(p.q, x.q), TRUE, s) EXCEPT !.old = TRUE] : p \in M}) \o RetainedFor(Tail(fs), user, s)
RECURSIVE AddSubs(_, _, _)
AddSubs(subs, fs, user) ==
  IF fs = << >> THEN subs
  ELSE LET x == fs[1]
           n == [f |-> x.f, q |-> x.q, nl |-> x.nl, rap |-> x.rap]
           I == {i \in 1..Len(subs) : subs[i].f = x.f}
       IN AddSubs(IF ~ MaySubscribe(user, x.f) THEN subs
                  ELSE IF I # {} THEN [subs EXCEPT ![CHOOSE i \in I : TRUE] = n]
                  ELSE Append(subs, n), Tail(fs), user)
InFlight(s) == {i \in 1..Len(s.q) : s.q[i].st \in {"sent", "rel"}}
Limit(c) == Min(LIMIT, conn[c].rmax)

(***************************************************************************)
(* End of connections and sessions                                          *)
(***************************************************************************)
Closing(c, why) == [conn[c] EXCEPT !.st = "closing", !.why = why, !.in = << >>, !.since = now, !.told = (conn[c].st = "tcp")]
\* What a session becomes when its connection has ended
SessEnd(S, R, cid, why) ==
  LET s == S[cid]
      will == s.will.on /\ why # "normal"
      pub == will /\ (s.sei = 0 \/ s.will.delay = 0)
      s1 == [s EXCEPT !.conn = 0, !.exp = Later(now, s.sei),
                      !.will = IF will /\ ~ pub THEN @ ELSE [on |-> FALSE],
                      !.due = IF will /\ ~ pub THEN Later(now, s.will.delay) ELSE @]
      S1 == IF s.sei = 0 THEN Rem(S, cid) ELSE Upd(S, cid, s1)
      w == IF will THEN [s.will.p EXCEPT !.made = now] ELSE [none |-> TRUE]
  IN [S |-> IF pub THEN Deliver(S1, cid, w) ELSE S1, R |-> IF pub THEN Retain(R, w) ELSE R]
\* The session is told, and the connection is closed
Gone(c) ==
  /\ c \in DOMAIN conn /\ conn[c].st = "closing" /\ ~ conn[c].told
  /\ LET x == SessEnd(sess, ret, conn[c].cid, conn[c].why) IN sess' = x.S /\ ret' = x.R
  /\ conn' = [conn EXCEPT ![c].told = TRUE]
  /\ UNCHANGED <<cfg, now>>
FireWill(cid) ==
  /\ cid \in DOMAIN sess /\ sess[cid].conn = 0 /\ sess[cid].will.on /\ sess[cid].due.a <= now.b
  /\ LET w == [sess[cid].will.p EXCEPT !.made = now] IN
     /\ sess' = Deliver([sess EXCEPT ![cid].will = [on |-> FALSE]], cid, w)
     /\ ret' = Retain(ret, w)
  /\ UNCHANGED <<cfg, conn, now>>
Expire(cid) ==
  /\ cid \in DOMAIN sess /\ sess[cid].conn = 0 /\ sess[cid].exp.a <= now.b /\ sess[cid].exp.a < NEVER
  /\ LET s == sess[cid] w == IF s.will.on THEN [s.will.p EXCEPT !.made = now] ELSE [none |-> TRUE] S == Rem(sess, cid) IN
     /\ sess' = IF s.will.on THEN Deliver(S, cid, w) ELSE S
     /\ ret' = IF s.will.on THEN Retain(ret, w) ELSE ret
  /\ UNCHANGED <<cfg, conn, now>>
\* Nothing was heard from the client for one and a half times the keep alive interval
KeepAlive(c) ==
  /\ c \in DOMAIN conn
  /\ \/ conn[c].st = "up" /\ conn[c].ka # 0 /\ conn[c].act.a + conn[c].ka * 1500 <= now.b
     \/ conn[c].st = "tcp" /\ conn[c].since.a + 2000 <= now.b
  /\ conn' = [conn EXCEPT ![c] = Closing(c, "abn")]
  /\ UNCHANGED <<cfg, sess, ret, now>>

(***************************************************************************)
(* Processing of packets                                                    *)
(***************************************************************************)
ZeroOr146 == 0 - 1           \* a finished handshake is remembered for a while, or not
Ack(t, id, rc) == [t |-> t, id |-> id, rc |-> rc]
\* What may be repeated to a client just before it loses its session
Repeats(s) == [i \in 1..Len(s.inq2) |-> [t |-> "PUBREC", id |-> s.inq2[i].id]]
  \o [i \in 1..Len(s.q) |-> IF s.q[i].st = "sent" THEN [t |-> "PUBLISH", id |-> s.q[i].id, e |-> s.q[i]]
                             ELSE IF s.q[i].st = "rel" THEN [t |-> "PUBREL", id |-> s.q[i].id] ELSE [t |-> "none", id |-> 0]]
Accept(c, p) ==
  LET cid == IF p.cid = "" THEN "generated-" \o ToString(c) ELSE p.cid
      had == cid \in DOMAIN sess
      old == IF had THEN sess[cid].conn ELSE 0
      s0 == IF had /\ ~ p.clean THEN sess[cid] ELSE NewSess
      s1 == [s0 EXCEPT !.conn = c, !.sei = p.sei, !.mps = p.mps, !.exp = [a |-> 0, b |-> 0], !.due = [a |-> 0, b |-> 0],
                       !.will = IF p.will.on THEN [on |-> TRUE, p |-> p.will, delay |-> p.will.delay] ELSE [on |-> FALSE]]
      ka == IF p.keep = 0 THEN cfg.maxka ELSE IF cfg.maxka = 0 THEN p.keep ELSE Min(p.keep, cfg.maxka)
      n == [conn[c] EXCEPT !.st = "up", !.cid = cid, !.v = p.v, !.user = p.user, !.rmax = p.rmax, !.mps = p.mps, !.ka = ka,
                           !.act = now, !.in = Tail(@), !.since = now,
                           !.acks = Append(@, [t |-> "CONNACK", sp |-> IF had /\ ~ p.clean THEN 1 ELSE 0, rc |-> 0,
                                               ka |-> IF p.v = 5 THEN ka ELSE 0, aci |-> p.v = 5 /\ p.cid = ""])]
      oc == IF old # 0 THEN [conn[old] EXCEPT !.st = "closing", !.why = IF @ = "" THEN "takeover" ELSE @, !.told = TRUE, !.in = << >>, !.since = now,
                                                     !.late = @ \o Repeats(sess[cid])] ELSE n
      C == [conn EXCEPT ![c] = n]
  IN /\ conn' = IF old # 0 THEN [C EXCEPT ![old] = oc] ELSE C
     \* The will of the old connection is due when it was not disconnected normally. If it is delayed, the new
     \* connection cancels it, or may publish it when a new session is created.
     /\ \E w \in IF ~ had \/ ~ sess[cid].will.on THEN {FALSE}
                 ELSE IF old = 0 THEN (IF p.clean THEN BOOLEAN ELSE {FALSE})
                 ELSE IF conn[old].st = "closing" /\ conn[old].why = "normal" THEN {FALSE}
                 ELSE {sess[cid].will.delay = 0 \/ p.clean \/ sess[cid].sei = 0} :
          LET S == Upd(sess, cid, s1) ow == IF w THEN [sess[cid].will.p EXCEPT !.made = now] ELSE [none |-> TRUE] IN
          /\ sess' = IF w THEN Deliver(S, cid, ow) ELSE S
          /\ ret' = IF w THEN Retain(ret, ow) ELSE ret
     /\ UNCHANGED <<cfg, now>>
SubCode(c, x) == IF MaySubscribe(conn[c].user, x.f) THEN x.q ELSE IF conn[c].v = 5 THEN 135 ELSE 128
Publish(c, p) == \* p accepted for delivery
  /\ sess' = Deliver(sess, conn[c].cid, p)
  /\ ret' = Retain(ret, p)
Find(s, id, sts) == {i \in 1..Len(s.q) : s.q[i].id = id /\ s.q[i].st \in sts}
Proc(c) ==
  /\ c \in DOMAIN conn /\ conn[c].st \in {"tcp", "up"} /\ conn[c].in # << >>
  /\ LET p == [conn[c].in[1] EXCEPT !.made = now]
         cid == conn[c].cid
         v5 == conn[c].v = 5
         Rc(ok, bad) == IF v5 THEN bad ELSE ok
         nx == [conn[c] EXCEPT !.in = Tail(@), !.act = now]
         Go(a) == conn' = [conn EXCEPT ![c] = [nx EXCEPT !.acks = @ \o a]] /\ UNCHANGED <<cfg, now>>
         GoLate(a, x) == conn' = [conn EXCEPT ![c] = [nx EXCEPT !.acks = @ \o a, !.late = Append(@, x)]] /\ UNCHANGED <<cfg, now>>
         End(why) == conn' = [conn EXCEPT ![c] = Closing(c, why)] /\ UNCHANGED <<cfg, sess, ret, now>>
         Same == UNCHANGED <<sess, ret>>
     IN
     IF p.t = "BAD" \/ (conn[c].st = "tcp") # (p.t = "CONNECT") THEN End("abn")
     ELSE IF p.t = "CONNECT" THEN (IF Refused(p) THEN End("reject") ELSE Accept(c, p))
     ELSE LET s == sess[cid] IN
     CASE p.t = "PUBLISH" ->
            LET ok == MayPublish(conn[c].user, p.topic)
                known == \E i \in 1..Len(s.inq2) : s.inq2[i].id = p.id IN
            IF ~ ok /\ ~ v5 /\ cfg.discdeny THEN End("abn")
            ELSE IF p.q = 0 THEN (IF ok THEN Publish(c, p) ELSE Same) /\ Go(<< >>)
            ELSE IF p.q = 1 THEN (IF ok THEN Publish(c, p) ELSE Same) /\ Go(<<Ack("PUBACK", p.id, IF ok THEN 0 ELSE Rc(0, 135))>>)
            ELSE IF known THEN Same /\ Go(<<Ack("PUBREC", p.id, 0)>>)
            ELSE /\ sess' = IF ok THEN [sess EXCEPT ![cid].inq2 = Append(@, [id |-> p.id, p |-> p, at |-> now])] ELSE sess
                 /\ ret' = ret /\ Go(<<Ack("PUBREC", p.id, IF ok THEN 0 ELSE Rc(0, 135))>>)
       [] p.t = "PUBREL" ->
            LET I == {i \in 1..Len(s.inq2) : s.inq2[i].id = p.id} IN
            IF I = {} THEN Same /\ Go(<<Ack("PUBCOMP", p.id, Rc(0, ZeroOr146))>>)   \* a finished handshake is remembered for a while
            ELSE LET i == CHOOSE i \in I : TRUE IN
                 /\ sess' = Deliver([sess EXCEPT ![cid].inq2 = Del(@, i)], cid, s.inq2[i].p)
                 /\ ret' = Retain(ret, s.inq2[i].p)
                 /\ GoLate(<<Ack("PUBCOMP", p.id, 0)>>, [t |-> "PUBREC", id |-> p.id])
       [] p.t = "PUBACK" ->
            LET I == Find(s, p.id, {"sent", "rel"}) IN
            IF I = {} THEN Same /\ Go(<< >>)
            ELSE LET i == CHOOSE i \in I : TRUE IN
                 IF s.q[i].q # 1 THEN End("abn")
                 ELSE sess' = [sess EXCEPT ![cid].q = Del(@, i)] /\ ret' = ret /\ GoLate(<< >>, [t |-> "PUBLISH", id |-> p.id, e |-> s.q[i]])
       [] p.t = "PUBREC" ->
            LET I == Find(s, p.id, {"sent", "rel"}) IN
            IF I = {} THEN Same /\ Go(<<Ack("PUBREL", p.id, Rc(0, ZeroOr146))>>)
            ELSE LET i == CHOOSE i \in I : TRUE IN
                 IF s.q[i].q # 2 THEN End("abn")
                 ELSE sess' = [sess EXCEPT ![cid].q[i].st = "rel", ![cid].q[i].at = now, ![cid].q[i].c = c] /\ ret' = ret
                      /\ GoLate(<<Ack("PUBREL", p.id, 0)>>, [t |-> "PUBLISH", id |-> p.id, e |-> s.q[i]])
       [] p.t = "PUBCOMP" ->
            LET I == Find(s, p.id, {"sent", "rel"}) IN
            IF I = {} THEN Same /\ Go(<< >>)
            ELSE LET i == CHOOSE i \in I : TRUE IN
                 IF s.q[i].q # 2 \/ s.q[i].st # "rel" THEN End("abn")
                 ELSE sess' = [sess EXCEPT ![cid].q = Del(@, i)] /\ ret' = ret /\ GoLate(<< >>, [t |-> "PUBREL", id |-> p.id])
       [] p.t = "SUBSCRIBE" ->
            /\ sess' = [sess EXCEPT ![cid].q = @ \o RetainedFor(p.fs, conn[c].user, s),
                                    ![cid].subs = AddSubs(@, p.fs, conn[c].user)]
            /\ ret' = ret
            /\ Go(<<[t |-> "SUBACK", id |-> p.id, rcs |-> [i \in 1..Len(p.fs) |-> SubCode(c, p.fs[i])]]>>)
       [] p.t = "UNSUBSCRIBE" ->
            /\ sess' = [sess EXCEPT ![cid].subs = SelectSeq(@, LAMBDA x : x.f \notin Range(p.fs))]
            /\ ret' = ret
            /\ Go(<<[t |-> "UNSUBACK", id |-> p.id,
                     rcs |-> IF v5 THEN [i \in 1..Len(p.fs) |-> IF \E x \in Range(s.subs) : x.f = p.fs[i] THEN 0 ELSE 17] ELSE << >>]>>)
       [] p.t = "PINGREQ" -> Same /\ Go(<<[t |-> "PINGRESP"]>>)
       [] p.t = "DISCONNECT" ->
            IF v5 /\ p.rc = 4 THEN End("with_will")
            ELSE IF p.rc = 0 THEN
               IF p.sei = 0 - 1 THEN End("normal")
               ELSE /\ sess' = [sess EXCEPT ![cid].sei = p.sei]
                    /\ conn' = [conn EXCEPT ![c] = Closing(c, "normal")] /\ UNCHANGED <<cfg, ret, now>>
            ELSE End("abn")
       [] OTHER -> End("abn")

(***************************************************************************)
(* Packets from the broker                                                  *)
(***************************************************************************)
SendAck(c, a) ==
  /\ conn[c].acks # << >>
  /\ LET w == conn[c].acks[1] IN
     w = a \/ (w.t = a.t /\ w.t \in {"PUBCOMP", "PUBREL"} /\ w.rc = ZeroOr146 /\ w.id = a.id /\ a.rc \in {0, 146})
  /\ conn' = [conn EXCEPT ![c].acks = Tail(@)]
  /\ UNCHANGED <<cfg, sess, ret, now>>
\* PUBREC and PUBREL are repeated while the answer is missing
RepeatAck(c, a) ==
  /\ a.rc = 0 /\ conn[c].cid \in DOMAIN sess
  /\ IF conn[c].acks = << >> THEN TRUE ELSE conn[c].acks[1] # a
  /\ LET cid == conn[c].cid s == sess[cid] IN
     \/ (\E x \in Range(conn[c].late) : x.t = a.t /\ x.id = a.id) /\ UNCHANGED sess
     \/ a.t = "PUBREC" /\ (\E i \in 1..Len(s.inq2) : s.inq2[i].id = a.id) /\ UNCHANGED sess
     \/ a.t = "PUBREL" /\ \E i \in 1..Len(s.q) : s.q[i].id = a.id /\ s.q[i].st = "rel" /\ sess' = [sess EXCEPT ![cid].q[i].at = now]
  /\ UNCHANGED <<cfg, conn, ret, now>>
Fits(c, p) == conn[c].mps = 0 \/ p.size <= conn[c].mps
\* The message expiry interval is reduced by the time spent in the broker
ExpiryLeft(c, e, mei) == IF e.mei = 0 \/ conn[c].v # 5 THEN mei = 0
                      ELSE /\ mei >= Max(1, e.mei - ((now.b - e.made.a) \div 1000) - 1)
                           /\ mei <= Max(1, e.mei - ((now.a - e.made.b) \div 1000) + 1)
SameKind(e, p) == e.t = p.topic /\ e.q = p.q /\ e.r = p.r
SameMsg(c, e, p) == e.m = p.m /\ p.pr = (IF conn[c].v = 5 THEN e.pr ELSE "")
MayPublishTo(c) == conn[c].st \in {"up", "closing"} /\ conn[c].cid \in DOMAIN sess /\ sess[conn[c].cid].conn \in {0, c}
SendNew(c, p) ==
  LET cid == conn[c].cid s == sess[cid]
      K(i) == s.q[i].st = "new" /\ SameKind(s.q[i], p) /\ SameMsg(c, s.q[i], p)
      \* The first one; retained messages for a subscription may come before or after new messages
      I == {i \in 1..Len(s.q) : K(i) /\ \A j \in 1..(i - 1) : K(j) => s.q[j].old # s.q[i].old}
  IN /\ ~ p.dup /\ Fits(c, p)
     /\ \E i \in I : LET
            \* Messages of the same topic and QoS keep their order
            skip == {j \in 1..(i - 1) : s.q[j].st = "new" /\ SameKind(s.q[j], p) /\ s.q[j].old = s.q[i].old}
            keep == SelectSeq([j \in 1..Len(s.q) |-> [j |-> j, e |-> s.q[j]]], LAMBDA x : x.j \notin skip)
            qq == [k \in 1..Len(keep) |-> keep[k].e]
            n == i - Cardinality(skip)
        IN /\ \A j \in skip : s.q[j].opt \/ MayBeDead(s.q[j])
           /\ ~ Dead(s.q[i]) /\ ExpiryLeft(c, s.q[i], p.mei)
           /\ IF p.q = 0 THEN p.id = 0 /\ sess' = [sess EXCEPT ![cid].q = Del(qq, n)]
              ELSE /\ p.id # 0 /\ \A j \in InFlight(s) : s.q[j].id # p.id
                   /\ Cardinality(InFlight(s)) < Limit(c)
                   /\ sess' = [sess EXCEPT ![cid].q = [qq EXCEPT ![n].st = "sent", ![n].id = p.id, ![n].at = now, ![n].c = c]]
  /\ UNCHANGED <<cfg, conn, ret, now>>
SendAgain(c, p) ==
  LET cid == conn[c].cid s == sess[cid]
      Old(e) == SameKind(e, p) /\ SameMsg(c, e, p) /\ (now.b - e.at.a >= cfg.retry \/ e.c # c) IN
  /\ p.dup /\ Fits(c, p)
  /\ \/ MayPublishTo(c) /\ \E i \in Find(s, p.id, {"sent"}) : Old(s.q[i]) /\ sess' = [sess EXCEPT ![cid].q[i].at = now, ![cid].q[i].c = c]
     \/ \E x \in Range(conn[c].late) : x.t = "PUBLISH" /\ x.id = p.id /\ Old(x.e) /\ sess' = sess
  /\ UNCHANGED <<cfg, conn, ret, now>>
Out(c, p) ==
  /\ c \in DOMAIN conn
  /\ \/ p.t \notin {"PUBLISH", "DISCONNECT", "GARBAGE"} /\ SendAck(c, p)
     \/ p.t \in {"PUBREC", "PUBREL"} /\ RepeatAck(c, p)
     \/ p.t = "PUBLISH" /\ MayPublishTo(c) /\ SendNew(c, p)
     \/ p.t = "PUBLISH" /\ conn[c].cid \in DOMAIN sess /\ SendAgain(c, p)
     \* The broker tells clients that it disconnects them
     \/ p.t = "DISCONNECT" /\ conn[c].st = "closing" /\ conn[c].why # "normal" /\ UNCHANGED mvars
     \* The reason for a refusal, once
     \/ p.t = "CONNACK" /\ p.rc # 0 /\ p.sp = 0 /\ conn[c].st = "closing" /\ conn[c].why = "reject"
        /\ conn' = [conn EXCEPT ![c].why = "abn"] /\ UNCHANGED <<cfg, sess, ret, now>>

(***************************************************************************)
(* Nothing which should have happened before a given time is missing        *)
(***************************************************************************)
Overdue(i, slack) == now.a > i.b + slack
Settled(t) ==
  /\ \A c \in DOMAIN conn :
       LET k == conn[c] IN
       /\ k.in = << >>
       /\ k.st = "closing" /\ ~ (k.told /\ k.fin) => ~ Overdue(k.since, cfg.closewait + IF k.why = "abn" /\ ~ k.told THEN 1000 ELSE SLACK)
       /\ k.st = "up" =>
            /\ k.acks = << >>
            /\ k.ka # 0 => ~ Overdue(k.act, k.ka * 1500 + SLACK)
            /\ LET s == sess[k.cid] IN
               /\ Cardinality(InFlight(s)) < Limit(c) => \A i \in 1..Len(s.q) : s.q[i].st = "new" => s.q[i].opt \/ MayBeDead(s.q[i])
               /\ \A i \in InFlight(s) : ~ Overdue([a |-> 0, b |-> Max(s.q[i].at.b, k.since.b)], cfg.retry + SLACK)
  /\ \A cid \in DOMAIN sess :
       LET s == sess[cid] IN
       s.conn = 0 => /\ s.will.on => ~ Overdue(s.due, SLACK)
                     /\ s.exp.b < NEVER => ~ Overdue(s.exp, SLACK)
=============================================================================
