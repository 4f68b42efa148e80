----------------------------- MODULE IdPoolTrace -----------------------------
EXTENDS IdPool, Json, TLC, Sequences
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
Ev == Traces[tr][l]
N == 65535
Match == \/ Ev.e = "get" /\ Get(N, Ev.lo, Ev.hi)
         \/ Ev.e = "no" /\ Refuse(N)
         \/ Ev.e = "rel" /\ Release(Ev.lo, Ev.hi)
         \/ Ev.e = "clr" /\ Clear
         \/ Ev.e = "end" /\ UNCHANGED iv
Init == Init0 /\ tr \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tr]) /\ Match /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
Spec == Init /\ [][Next]_<<iv, tr, l>>
=============================================================================
