-------------------------------- MODULE MqttMC --------------------------------
(* Small closed instance of the broker: a publisher x (no user) and a subscriber y
   (user u1), connections which may be lost together with what was last sent,
   reconnects, QoS 0 to 2, retained messages, wills, expiry at any time, and a
   topic s which x may not read or write. Histories of what clients got are kept
   to state the guarantees end to end.                                        *)
EXTENDS MqttBroker
LOCAL INSTANCE Topic
CONSTANTS MaxConn, MaxPub, Qoses, WithWill, Rmax, Cleans, Rets, Secret, Losers, Timers
VARIABLES n,      \* connections opened
          m,      \* messages published
          cl,     \* clients: connection, whether the last packet was lost, QoS 2 identifiers received, own handshake
          got,    \* messages given to the application, per client: sequence of [m, t, q]
          owed    \* messages with QoS above 0 which the session of a client was meant to get
vars == <<mvars, n, m, cl, got, owed>>
C == {"x", "y"}
TA == <<"a">>  TS == <<"s">>
User(i) == IF i = "y" THEN "u1" ELSE ""
\* Everything with a time is possible at any time
NOW == [a |-> 0, b |-> 1000000000]
NoWill == [on |-> FALSE]
Pub(k, q, t, r) == [t |-> "PUBLISH", m |-> k, pr |-> "", topic |-> t, q |-> q, r |-> r, id |-> IF q = 0 THEN 0 ELSE k, mei |-> 0, size |-> 1,
                    empty |-> FALSE, dup |-> FALSE, made |-> NOW]
TheWill(k) == [on |-> TRUE, delay |-> 0] @@ Pub(100 + k, 2, TA, FALSE)
Connect(i, clean, w, sei) == [t |-> "CONNECT", cid |-> i, user |-> User(i), pw |-> "", clean |-> clean, sei |-> sei, mps |-> 0, rmax |-> Rmax,
                         keep |-> 0, v |-> 5, reserved |-> FALSE, will |-> w]
Up(c, i) == [NewConn EXCEPT !.st = "up", !.cid = i, !.user = User(i), !.v = 5, !.rmax = Rmax, !.ka = 0]
Fs == << [f |-> <<"#">>, q |-> 2, nl |-> FALSE, rap |-> FALSE, rh |-> 0] >>
Client(c) == [c |-> c, lost |-> FALSE, ids |-> {}, hs |-> 0]
Init ==
  /\ cfg = [acl |-> << [f |-> <<"#">>, def |-> 2, users |-> [z \in {} |-> 0]], [f |-> TS, def |-> 0, users |-> [z \in {"u1"} |-> 2]] >>,
            pw |-> [z \in {"u1"} |-> ""], noanon |-> FALSE, discdeny |-> FALSE, retry |-> 2000, closewait |-> 1000, maxka |-> 0]
  /\ now = NOW /\ ret = {}
  /\ conn = [c \in {1, 2} |-> IF c = 1 THEN Up(1, "x") ELSE Up(2, "y")]
  /\ sess = [i \in C |-> [NewSess EXCEPT !.conn = IF i = "x" THEN 1 ELSE 2, !.sei = 100, !.mps = 0,
                          !.will = IF i = "x" /\ WithWill THEN [on |-> TRUE, p |-> TheWill(1), delay |-> 0] ELSE [on |-> FALSE],
                          !.subs = IF i = "y" THEN << [f |-> <<"#">>, q |-> 2, nl |-> FALSE, rap |-> FALSE] >> ELSE << >>]]
  /\ n = 2 /\ m = 0 /\ cl = [i \in C |-> Client(IF i = "x" THEN 1 ELSE 2)]
  /\ got = [i \in C |-> << >>] /\ owed = [i \in C |-> {}]
\* What is owed after the sessions have changed: entries which were added, unless the session is gone
Owe ==
  LET Old(i) == IF i \in DOMAIN sess THEN {e.m : e \in Range(sess[i].q)} ELSE {}
      New(i) == IF i \in DOMAIN sess' THEN {sess'[i].q[j].m : j \in {j \in 1..Len(sess'[i].q) : sess'[i].q[j].q > 0}} ELSE {}
  IN owed' = [i \in C |-> IF i \in DOMAIN sess' /\ (sess'[i].subs # << >> \/ (i \in DOMAIN sess /\ sess[i].subs = << >>)) THEN owed[i] \cup (New(i) \ Old(i)) ELSE {}]
Alive(i) == cl[i].c # 0 /\ cl[i].c \in DOMAIN conn /\ conn[cl[i].c].st \in {"tcp", "up"} /\ ~ cl[i].lost
Quiet(i) == Alive(i) /\ conn[cl[i].c].in = << >> /\ Len(conn[cl[i].c].acks) < 2 /\ conn[cl[i].c].st = "up"
Put(i, p) == conn' = [conn EXCEPT ![cl[i].c].in = Append(@, p), ![cl[i].c].late = << >>]
Same == UNCHANGED <<cfg, sess, ret, now, got, owed>>
CPublish == \E i \in C, q \in Qoses, t \in (IF Secret THEN {TA, TS} ELSE {TA}), r \in Rets :
  /\ (i = "x" \/ (q = 0 /\ Secret))
  /\ m < MaxPub /\ Quiet(i) /\ (q # 0 => cl[i].hs = 0) /\ (t = TS => q = 0)
  /\ Put(i, Pub(m + 1, q, t, r)) /\ m' = m + 1 /\ cl' = IF q = 2 THEN [cl EXCEPT ![i].hs = m + 1] ELSE cl
  /\ UNCHANGED n /\ Same
CPubrel == \E i \in C : Quiet(i) /\ cl[i].hs # 0 /\ conn[cl[i].c].acks = << >> /\ Put(i, [t |-> "PUBREL", id |-> cl[i].hs])
  /\ cl' = [cl EXCEPT ![i].hs = 0] /\ UNCHANGED <<n, m>> /\ Same
CSub == Rets # {FALSE} /\ \E i \in C : i \in DOMAIN sess /\ sess[i].subs = << >> /\ Quiet(i)
  /\ Put(i, [t |-> "SUBSCRIBE", id |-> 9, fs |-> Fs]) /\ UNCHANGED <<n, m, cl>> /\ Same
CClose == \E i \in Losers : cl[i].c # 0 /\ cl[i].c \in DOMAIN conn /\ n < MaxConn
  /\ conn' = [conn EXCEPT ![cl[i].c] = [(IF @.st \in {"tcp", "up"} THEN Closing(cl[i].c, "abn") ELSE @) EXCEPT !.fin = TRUE]]
  /\ cl' = [cl EXCEPT ![i].c = 0, ![i].lost = FALSE] /\ UNCHANGED <<n, m>> /\ Same
CDisc == Timers /\ \E i \in Losers : Quiet(i) /\ n < MaxConn /\ Put(i, [t |-> "DISCONNECT", rc |-> 0, sei |-> 0 - 1])
  /\ cl' = [cl EXCEPT ![i].lost = TRUE] /\ UNCHANGED <<n, m>> /\ Same
CConnect == \E i \in C, clean \in Cleans : cl[i].c = 0 /\ n < MaxConn
  /\ n' = n + 1 /\ conn' = Upd(conn, n + 1, [NewConn EXCEPT !.in = <<Connect(i, clean, NoWill, 100)>>])
  /\ cl' = [cl EXCEPT ![i] = [Client(n + 1) EXCEPT !.ids = IF clean THEN {} ELSE cl[i].ids, !.hs = IF clean THEN 0 ELSE cl[i].hs]]
  /\ UNCHANGED m /\ Same
\* What a client does with a packet it got
Take(i, p) ==
  IF p.t = "PUBLISH" THEN
    [new |-> IF p.q = 2 /\ p.id \in cl[i].ids THEN << >> ELSE <<[m |-> p.m, t |-> p.topic, q |-> p.q]>>,
     ids |-> IF p.q = 2 THEN cl[i].ids \cup {p.id} ELSE cl[i].ids,
     ans |-> IF p.q = 0 THEN << >> ELSE <<[t |-> IF p.q = 1 THEN "PUBACK" ELSE "PUBREC", id |-> p.id]>>]
  ELSE IF p.t = "PUBREL" THEN [new |-> << >>, ids |-> cl[i].ids \ {p.id}, ans |-> <<[t |-> "PUBCOMP", id |-> p.id]>>]
  ELSE [new |-> << >>, ids |-> cl[i].ids, ans |-> << >>]
Of(e, id, dup) == [t |-> "PUBLISH", m |-> e.m, pr |-> e.pr, topic |-> e.t, q |-> e.q, r |-> e.r, id |-> id, mei |-> 0, dup |-> dup, size |-> 1]
FreeId(s) == CHOOSE k \in 1..10 : (\A j \in InFlight(s) : s.q[j].id # k) /\ \A k2 \in 1..(k - 1) : \E j \in InFlight(s) : s.q[j].id = k2
Cand(c) ==
  Range(IF conn[c].acks = << >> THEN << >> ELSE <<conn[c].acks[1]>>) \cup
  IF conn[c].cid \notin DOMAIN sess THEN {} ELSE LET s == sess[conn[c].cid] IN
    {Of(s.q[j], IF s.q[j].q = 0 THEN 0 ELSE FreeId(s), FALSE) : j \in {j \in 1..Len(s.q) : s.q[j].st = "new"}}
    \cup {Of(s.q[j], s.q[j].id, TRUE) : j \in {j \in 1..Len(s.q) : s.q[j].st = "sent"}}
    \cup {Ack("PUBREL", s.q[j].id, 0) : j \in {j \in 1..Len(s.q) : s.q[j].st = "rel"}}
BOut == \E i \in C : cl[i].c # 0 /\ cl[i].c \in DOMAIN conn /\ LET c == cl[i].c IN \E p \in Cand(c), seen \in BOOLEAN :
  /\ Out(c, p) /\ ~ cl[i].lost /\ (~ seen => n < MaxConn /\ i \in Losers)
  /\ LET x == Take(i, p) IN
     IF seen THEN /\ cl' = [cl EXCEPT ![i].ids = x.ids] /\ got' = [got EXCEPT ![i] = IF x.new # << >> /\ x.new[1].q < 2 /\ x.new[1] \in Range(@) THEN @ ELSE @ \o x.new]
     ELSE cl' = [cl EXCEPT ![i].lost = TRUE] /\ got' = got
  /\ UNCHANGED <<n, m>> /\ Owe
\* Answers are separate so that they may be late or missing
CAnswer == \E i \in C : Quiet(i) /\ i \in DOMAIN sess
  /\ \E j \in InFlight(sess[i]) : LET e == sess[i].q[j] IN
     \/ e.q = 1 /\ (\E g \in Range(got[i]) : g.m = e.m) /\ Put(i, [t |-> "PUBACK", id |-> e.id])
     \/ e.q = 2 /\ e.st = "sent" /\ e.id \in cl[i].ids /\ Put(i, [t |-> "PUBREC", id |-> e.id])
     \/ e.q = 2 /\ e.st = "rel" /\ e.id \notin cl[i].ids /\ Put(i, [t |-> "PUBCOMP", id |-> e.id])
  /\ UNCHANGED <<n, m, cl>> /\ Same
Broker == /\ \/ \E c \in DOMAIN conn : Proc(c) \/ Gone(c)
             \/ Timers /\ \E i \in DOMAIN sess : FireWill(i) \/ Expire(i)
          /\ UNCHANGED <<n, m, cl, got>> /\ Owe
Reap == /\ \E c \in DOMAIN conn : conn[c].st = "closing" /\ conn[c].told /\ (\A i \in C : cl[i].c # c) /\ conn' = Rem(conn, c)
        /\ UNCHANGED <<cfg, sess, ret, now, n, m, cl, got, owed>>
CDead == /\ \E i \in C : cl[i].c # 0 /\ (cl[i].c \notin DOMAIN conn \/ conn[cl[i].c].st = "closing") /\ cl' = [cl EXCEPT ![i].c = 0, ![i].lost = FALSE]
         /\ UNCHANGED <<mvars, n, m, got, owed>>
Next == CPublish \/ CPubrel \/ CSub \/ CClose \/ CDisc \/ CConnect \/ CAnswer \/ BOut \/ Broker \/ Reap \/ CDead
Spec == Init /\ [][Next]_vars

(* C08 *)
DistinctIds == \A i \in DOMAIN sess : \A a, b \in InFlight(sess[i]) : a # b => sess[i].q[a].id # sess[i].q[b].id
WithinLimit == \A i \in DOMAIN sess : Cardinality(InFlight(sess[i])) <= Rmax
ExactlyOnce == \A i \in C : \A a, b \in 1..Len(got[i]) : a # b /\ got[i][a].q = 2 => got[i][a].m # got[i][b].m
AtLeastOnce == \A i \in C : \A k \in owed[i] : \/ \E g \in Range(got[i]) : g.m = k
                                               \/ i \in DOMAIN sess /\ \E e \in Range(sess[i].q) : e.m = k
NoDupDequeue == \A i \in DOMAIN sess : \A a, b \in 1..Len(sess[i].q) : a < b /\ sess[i].q[a].q = sess[i].q[b].q /\ sess[i].q[a].q # 0 /\
                   sess[i].q[a].m < 100 => sess[i].q[a].m < sess[i].q[b].m \/ sess[i].q[b].m >= 100 \/ sess[i].q[b].old
(* C09 *)
OneConnection == \A i \in DOMAIN sess : sess[i].conn # 0 => sess[i].conn \in DOMAIN conn /\ conn[sess[i].conn].cid = i
                 /\ \A c \in DOMAIN conn : conn[c].st = "up" /\ conn[c].cid = i => sess[i].conn = c
UpHasSession == \A c \in DOMAIN conn : conn[c].st = "up" => conn[c].cid \in DOMAIN sess /\ sess[conn[c].cid].conn = c
(* C10 *)
OneRetained == \A p, o \in ret : p.topic = o.topic => p = o
WillOnce == Cardinality({k \in 1..Len(got["y"]) : got["y"][k].m > 100}) <= 1
(* C11 *)
NoSecrets == /\ \A k \in 1..Len(got["x"]) : got["x"][k].t # TS
             /\ "x" \in DOMAIN sess => \A k \in 1..Len(sess["x"].q) : sess["x"].q[k].t # TS

\* A filter which is covered matches only topics which are matched; filters which do not overlap have no topic in common
Lv == {"a", "", "$s"}
TopicSet == UNION {[1..k -> Lv] : k \in 1..3}
FilterSet == {f \in UNION {[1..k -> Lv \cup {"+", "#"}] : k \in 1..3} : \A k \in 1..Len(f) : f[k] = "#" => k = Len(f)}
T == {<< >>} \cup TopicSet
CoversOk == \A f \in FilterSet, g \in FilterSet : Covers(f, g) =>
              \A t \in TopicSet : TopicMatch(g, t) => TopicMatch(f, t) \/ \E k \in 1..Len(t) : FirstChar(t[k]) = "$"
OverlapsOk == \A f \in FilterSet, g \in FilterSet : (\E t \in TopicSet : TopicMatch(g, t) /\ TopicMatch(f, t)) => Overlaps(f, g)
ASSUME CoversOk /\ OverlapsOk
===============================================================================
