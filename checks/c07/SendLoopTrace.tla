--------------------------- MODULE SendLoopTrace ---------------------------
EXTENDS SendLoop, Json, TLC, Sequences
VARIABLES tr, l, disp   \* disp: event loop is running: [on, until, broke]
Traces == JsonDeserialize("traces.json")
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Ev == Traces[tr][l]
Gap == 300000
NoDisp == [on |-> FALSE, broke |-> FALSE]
P(e) == [order |-> e.order, ttl |-> e.ttl, timeout |-> e.timeout, action |-> e.action]
(* nothing waits for longer than Gap while the event loop runs *)
Alive == disp.on /\ q # {} => Ev.t - last <= Gap
Same == UNCHANGED disp
Match == \/ Ev.e = "par" /\ SetPar(P(Ev)) /\ Same
         \/ Ev.e = "prep" /\ Prepare(Ev.id, Ev.ts, Ev.t, Ev.idx) /\ Same
         \/ Ev.e = "push" /\ Push(Ev.id, Ev.t) /\ Same
         \/ Ev.e = "unsh" /\ Push(Ev.id, Ev.t) /\ Same
         \/ Ev.e = "unsht" /\ UnshiftTimedOut(Ev.id, Ev.t, Ev.did) /\ Same
         \/ Ev.e = "touch" /\ Touch({Ev.ids[i] : i \in 1..Len(Ev.ids)}, Ev.t) /\ Same
         \/ Ev.e = "clear" /\ Clear /\ Same
         \/ Ev.e = "count" /\ ~run.on /\ Ev.n = Cardinality(q) /\ UNCHANGED sv /\ Same
         \/ Ev.e = "aor" /\ ~run.on /\ Ev.pending = (q # {}) /\ UNCHANGED sv /\ Same
         \/ Ev.e = "try" /\ Attempt(Ev.id, Ev.rc) /\ Same
         \/ Ev.e = "ret" /\ Return(Ev.id, Ev.rc) /\ Same
         \/ Ev.e = "re" /\ EndRun(Ev.err, Ev.n) /\ Same
         \/ Ev.e = "rede" /\ \E x \in {0, 1} : EndRun(x, Ev.n) /\ disp' = [disp EXCEPT !.broke = (x = 1)]
         \/ Ev.e = "disp" /\ ~run.on /\ disp' = [on |-> TRUE, broke |-> FALSE] /\ last' = Ev.t /\ UNCHANGED <<q, par, run, idx, prep>>
         \/ Ev.e = "dend" /\ ~run.on /\ Alive /\ disp.broke = (Ev.rc = 1) /\ Ev.n = Cardinality(q) /\ disp' = NoDisp /\ UNCHANGED sv
         \/ Ev.e = "end" /\ ~run.on /\ UNCHANGED sv /\ Same
Vis == {"try", "ret", "re", "rede"}
Hidden == /\ Ev.e \in Vis
          /\ \/ Alive /\ ~disp.broke /\ Begin(Ev.t)
             \/ \E id \in run.todo : Silent(id) /\ (Ev.e \in {"try", "ret"} => Ev.id # id)
          /\ UNCHANGED <<tr, l, disp>>
Consume == /\ Match /\ l' = l + 1 /\ UNCHANGED tr
           /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == /\ tr \in 1..Len(Traces) /\ l = 2 /\ disp = NoDisp /\ SInit(P(Traces[tr][1]))
Next == l <= Len(Traces[tr]) /\ TLCGet(tr) = FALSE /\ (Consume \/ Hidden)
Spec == Init /\ [][Next]_<<sv, tr, l, disp>>
=============================================================================
