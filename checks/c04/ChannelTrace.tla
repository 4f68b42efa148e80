---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS Channel, Json, TLC, Sequences
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Ev == Traces[tr][l]
NextKEnd == LET F[i \in l..Len(Traces[tr])] == IF Traces[tr][i].e = "kend" THEN Traces[tr][i].n ELSE IF i = Len(Traces[tr]) THEN -1 ELSE F[i + 1] IN F[l]
Match == \/ Ev.e = "wb" /\ WBegin(Ev.auto)
         \/ Ev.e = "wc" /\ Copy(Ev.ok)
         \/ Ev.e = "we" /\ WEnd(Ev.ret, Ev.fault > 0)
         \/ Ev.e = "rb" /\ RBegin
         \/ Ev.e = "rc" /\ Give(Ev.id, Ev.ok)
         \/ Ev.e = "re" /\ REnd(Ev.ret, Ev.cnt, Ev.fault > 0)
         \/ Ev.e = "kb" /\ KBegin
         \/ Ev.e = "kend" /\ KEnd
         \/ Ev.e = "wmany" /\ WMany(Ev.n)
         \/ Ev.e = "rmany" /\ RMany(Ev.n)
         \/ Ev.e = "end" /\ w = "idle" /\ r = "idle" /\ rd = wr /\ Ev.left = 0 /\ UNCHANGED cv
Hidden == (FindFull \/ AutoCopy \/ Publish \/ FindNone \/ Take \/ (k = "begun" /\ KLook(NextKEnd))) /\ UNCHANGED <<tr, l>>
Consume == /\ Match /\ l' = l + 1 /\ UNCHANGED tr
           /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ CInit
Next == l <= Len(Traces[tr]) /\ TLCGet(tr) = FALSE /\ (Consume \/ Hidden)
Spec == Init /\ [][Next]_<<cv, tr, l>>
=============================================================================
