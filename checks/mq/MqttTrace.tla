------------------------------ MODULE MqttTrace ------------------------------
(* Traces of the real broker. A step is: packets sent by clients (tx), a run of
   the broker (adv .. tick), what the clients got from it (rx, eof), tick. *)
EXTENDS MqttBroker, Json
VARIABLES tr, l, ph
vars == <<mvars, tr, l, ph>>
Traces == JsonDeserialize("traces.json")
Ev == Traces[tr][l]
Consume == l' = l + 1 /\ UNCHANGED tr /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == /\ tr \in 1..Len(Traces) /\ l = 1 /\ ph = "tx" /\ cfg = [acl |-> << >>] /\ conn = [x \in {} |-> 0] /\ sess = [x \in {} |-> 0]
        /\ ret = {} /\ now = [a |-> 0, b |-> 0]
Obj(x) == IF x = << >> THEN [y \in {} |-> 0] ELSE x
Cfg == /\ Ev.e = "cfg" /\ ph' = ph
       /\ cfg' = [acl |-> [i \in 1..Len(Ev.acl) |-> [f |-> Ev.acl[i].f, def |-> Ev.acl[i].def, users |-> Obj(Ev.acl[i].users)]],
                  pw |-> Obj(Ev.pw), noanon |-> Ev.noanon, discdeny |-> Ev.discdeny,
                  retry |-> Ev.retry, closewait |-> Ev.closewait, maxka |-> Ev.maxka]
       /\ UNCHANGED <<conn, sess, ret, now>>
Open == Ev.e = "open" /\ ph \in {"tx", "proc"} /\ conn' = Upd(conn, Ev.c, NewConn) /\ UNCHANGED <<cfg, sess, ret, now, ph>>
Tx == /\ Ev.e = "tx" /\ ph \in {"tx", "proc"} /\ UNCHANGED <<cfg, sess, ret, now, ph>>
      /\ conn' = IF Ev.c \in DOMAIN conn /\ conn[Ev.c].st \in {"tcp", "up"} THEN [conn EXCEPT ![Ev.c].in = Append(@, Ev.p)] ELSE conn
\* The client closes the connection
Cl == /\ Ev.e = "cl" /\ ph \in {"tx", "proc"} /\ UNCHANGED <<cfg, sess, ret, now, ph>>
      /\ conn' = IF Ev.c \notin DOMAIN conn THEN conn ELSE [conn EXCEPT ![Ev.c] = [(IF @.st \in {"tcp", "up"} THEN Closing(Ev.c, "abn") ELSE @) EXCEPT !.fin = TRUE]]
\* (when packets are sent in parts there are several runs in a step)
Adv == /\ Ev.e = "adv" /\ ph \in {"tx", "proc"} /\ ph' = "proc"
       /\ now' = IF ph = "tx" THEN [a |-> Ev.t, b |-> Ev.t1] ELSE now
       /\ UNCHANGED <<cfg, conn, sess, ret>>
Ready == ph = "rx" \/ (ph = "proc" /\ \A c \in DOMAIN conn : conn[c].in = << >>)
Rx == Ev.e = "rx" /\ Ready /\ Out(Ev.c, Ev.p) /\ ph' = "rx"
Eof == /\ Ev.e = "eof" /\ Ready /\ ph' = "rx" /\ conn[Ev.c].st = "closing"
       /\ conn' = [conn EXCEPT ![Ev.c].fin = TRUE] /\ UNCHANGED <<cfg, sess, ret, now>>
Tick == /\ Ev.e = "tick" /\ Ready /\ ph' = "tx" /\ Settled(Ev.t)
        /\ conn' = [c \in {x \in DOMAIN conn : ~ (conn[x].st = "closing" /\ conn[x].told /\ conn[x].fin)} |-> [conn[c] EXCEPT !.late = << >>]]
        /\ UNCHANGED <<cfg, sess, ret, now>>
Fin == Ev.e = "end" /\ UNCHANGED <<mvars, ph>>
Obs == (Cfg \/ Open \/ Tx \/ Cl \/ Adv \/ Rx \/ Eof \/ Tick \/ Fin) /\ Consume
Silent == /\ ph = "proc" /\ Ev.e \in {"rx", "eof", "tick"} /\ UNCHANGED <<tr, l, ph>>
          /\ \/ \E c \in DOMAIN conn : Proc(c) \/ Gone(c) \/ KeepAlive(c)
             \/ \E cid \in DOMAIN sess : FireWill(cid) \/ Expire(cid)
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Next == TLCGet(tr) = FALSE /\ l <= Len(Traces[tr]) /\ (Obs \/ Silent)
Spec == Init /\ [][Next]_vars
==============================================================================
