---------------------------- MODULE FifoSeqTrace ----------------------------
EXTENDS FifoSeq, Json, TLC
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
Ev == Traces[tr][l]
R(s) == {s[i] : i \in 1..Len(s)}
Match ==
  \/ Ev.e = "inc" /\ Inc(Ev.id)
  \/ Ev.e = "dec" /\ Dec(Ev.id)
  \/ Ev.e = "wb" /\ WBegin(Ev.b)
  \/ Ev.e = "wc" /\ (WCb1(Ev.id, Ev.o, R(Ev.f)) \/ AgainCb(Ev.id, Ev.o, R(Ev.f)))
  \/ Ev.e = "we" /\ WEnd(Ev.r)
  \/ Ev.e = "ob" /\ Begin(Ev.k, Ev.b, Ev.m, Ev.a)
  \/ Ev.e = "oe" /\ End(Ev.r)
  \/ Ev.e = "cb" /\ (SearchCb(Ev.id, R(Ev.f)) \/ ReadCb(Ev.id, R(Ev.f)) \/ MinCb(Ev.id, R(Ev.f)) \/ ClearCb(Ev.id, R(Ev.f)) \/ WipeCb(Ev.id, R(Ev.f)))
  \/ Ev.e = "rp" /\ ReplaceCb(Ev.id, Ev.o, R(Ev.f), Ev.n, Ev.no)
  \/ Ev.e = "mg" /\ Merge(Ev.a, Ev.b)
  \/ Ev.e = "cn" /\ SCount(Ev.b, Ev.n)
  \/ Ev.e = "dd" /\ DestroyDec(Ev.b, Ev.id)
  \/ Ev.e = "end" /\ SEnd
Init == SInit0 /\ tr \in 1..Len(Traces) /\ l = 1
Next == /\ l <= Len(Traces[tr]) /\ Match /\ l' = l + 1 /\ UNCHANGED tr
        /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
Spec == Init /\ [][Next]_<<svars, tr, l>>
=============================================================================
