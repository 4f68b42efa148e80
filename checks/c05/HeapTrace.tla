----------------------------- MODULE HeapTrace -----------------------------
EXTENDS Heap, Json, TLC, Sequences
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Ev == Traces[tr][l]
Match == \/ Ev.e = "alloc" /\ Alloc(Ev.id, Ev.h, Ev.lo, Ev.sz, Ev.grew)
         \/ Ev.e = "refuse" /\ Refuse(Ev.sz)
         \/ Ev.e = "free" /\ Ev.ok /\ Free(Ev.id)
         \/ Ev.e = "look" /\ Ev.ok /\ UNCHANGED hv
         \/ Ev.e = "maint" /\ Maintain(Ev.n) /\ Ev.files <= Ev.n
         \/ Ev.e = "end" /\ Ev.files = 0 /\ UNCHANGED hv
Consume == /\ Match /\ l' = l + 1 /\ UNCHANGED tr
           /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ HInit
Next == l <= Len(Traces[tr]) /\ TLCGet(tr) = FALSE /\ Consume
Spec == Init /\ [][Next]_<<hv, tr, l>>
=============================================================================
