-------------------------- MODULE EventQueueTrace --------------------------
EXTENDS EventQueue, Json, TLC, Sequences
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Ev == Traces[tr][l]
Match == \/ Ev.e = "pb" /\ PassBegin(Ev.t, Ev.f, Ev.n)
         \/ Ev.e = "pc" /\ Cancel(Ev.t)
         \/ Ev.e = "pe" /\ PassEnd(Ev.t, Ev.ok)
         \/ Ev.e = "p" /\ Ev.t = 0 /\ Pause(Ev.f, Ev.was, Ev.now)
         \/ Ev.e = "h" /\ Ev.t = 0 /\ Handle(Ev.f, Ev.n, Ev.c)
         \/ Ev.e = "hf" /\ Ev.t = 0 /\ Fail(Ev.f, Ev.n, Ev.ret)
         \/ Ev.e = "per" /\ Ev.t = 0 /\ Periodic(Ev.ret)
         \/ Ev.e = "db" /\ DBegin
         \/ Ev.e = "de" /\ DEnd(Ev.ret)
         \/ Ev.e = "quiet" /\ Quiet
Hidden == (\E t \in Threads : Signal(t)) /\ UNCHANGED <<tr, l>>
Consume == /\ Match /\ l' = l + 1 /\ UNCHANGED tr
           /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ EInit
Next == l <= Len(Traces[tr]) /\ TLCGet(tr) = FALSE /\ (Consume \/ Hidden)
Spec == Init /\ [][Next]_<<ev, tr, l>>
=============================================================================
