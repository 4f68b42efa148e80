------------------------------ MODULE FifoTrace ------------------------------
(* Accepts traces recorded from the real fifo_protected.c *)
EXTENDS Fifo, Json, TLC
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
Threads == 0..7
tvars == <<q, wq, w, r, excl, done, tr, l>>
Ev == Traces[tr][l]
Max == Traces[tr][1].max
TInit == Init0(Threads) /\ tr \in 1..Len(Traces) /\ l = 2
RangeOf(s) == {s[i] : i \in 1..Len(s)}
(* A silent step can be postponed until an event of its own thread needs it or
   until a silent step it does not commute with: so silent steps are only taken
   in front of an event whose thread still has one to take (or which locks the
   buffer), and every behaviour is still covered. *)
Own(t) == w[t].pc = "pend" \/ r[t].pc = "start" \/ (r[t].pc = "put" /\ r[t].fr = 0)
MaySilent == IF "t" \in DOMAIN Ev THEN Ev.e = "xs" \/ Own(Ev.t) ELSE FALSE
Silent == MaySilent /\ \E t \in Threads : Enq(t) \/ Splice(t, Max) \/ PutBack(t)
Match ==
  \/ Ev.e = "ws" /\ WStart(Ev.t, Ev.k)
  \/ Ev.e = "wc" /\ WCb(Ev.t, Ev.id, Ev.o, RangeOf(Ev.f))
  \/ Ev.e = "we" /\ WRet(Ev.t, Ev.r)
  \/ Ev.e = "rs" /\ RStart(Ev.t)
  \/ Ev.e = "rc" /\ RCb(Ev.t, Ev.id, RangeOf(Ev.f))
  \/ Ev.e = "fr" /\ RFree(Ev.t, Ev.id)
  \/ Ev.e = "re" /\ RRet(Ev.t, Ev.r)
  \/ Ev.e = "xs" /\ XStart(Ev.t)
  \/ Ev.e = "xe" /\ XEnd(Ev.t)
  \/ Ev.e = "cn" /\ Count(Ev.n)
  \/ Ev.e = "st" /\ Stats(Ev.w, Ev.d)
  \/ Ev.e = "df" /\ DFree(Ev.id)
  \/ Ev.e = "de" /\ Destroyed
TNext ==
  \/ /\ l <= Len(Traces[tr]) /\ Match /\ l' = l + 1 /\ UNCHANGED tr
     /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
  \/ l <= Len(Traces[tr]) /\ Silent /\ UNCHANGED <<tr, l>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
