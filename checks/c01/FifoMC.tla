------------------------------- MODULE FifoMC -------------------------------
EXTENDS Fifo, TLC
CONSTANTS Writers, Readers, NPer, MaxReads, Flags, Stops, Excl, WriteFlags, Delayed
VARIABLES nw, got
T == Writers \cup Readers
mcvars == <<q, wq, w, r, excl, done, nw, got>>
Id(t, n) == t * 10 + n
Init == Init0(T) /\ nw = [t \in Writers |-> 0] /\ got = <<>>
U == UNCHANGED <<nw, got>>
Next ==
  \/ \E t \in Writers :
       \/ nw[t] < NPer /\ WStart(t, IF t \in Delayed THEN "d" ELSE "n") /\ U
       \/ nw[t] < NPer /\ (\E fl \in WriteFlags : (("again" \in fl => nw[t] + 1 < NPer) /\ WCb(t, Id(t, nw[t]+1), 0, fl)))
            /\ nw' = [nw EXCEPT ![t] = @ + 1] /\ UNCHANGED got
       \/ Enq(t) /\ U
       \/ (\E x \in {0, 1} : WRet(t, x)) /\ U
  \/ \E t \in Readers :
       \/ RStart(t) /\ (q # <<>> \/ wq # <<>>) /\ U
       \/ Splice(t, MaxReads) /\ U
       \/ \E fl \in Flags : r[t].list # <<>> /\ RCb(t, Head(r[t].list).id, fl) /\ got' = got \o <<Head(r[t].list).id>> /\ UNCHANGED nw
       \/ RFree(t, r[t].fr) /\ U
       \/ PutBack(t) /\ U
       \/ (\E x \in 0..3 : RRet(t, x)) /\ U
       \/ Excl /\ XStart(t) /\ r[t].pc = "idle" /\ U
       \/ XEnd(t) /\ U
Spec == Init /\ [][Next]_mcvars
FlagsAll == {{}, {"stop"}, {"free"}}
WFlagsAll == {{}, {"again"}, {"drop"}}
-----------------------------------------------------------------------------
AllIds == {Id(t, n) : t \in Writers, n \in 1..NPer}
Ids(s) == {s[i].id : i \in 1..Len(s)}
Everywhere == Ids(q) \cup Ids(wq) \cup UNION {Ids(r[t].list) : t \in T}
Size == Len(q) + Len(wq) + Cardinality(UNION {{<<t, i>> : i \in 1..Len(r[t].list)} : t \in T})
\* nothing duplicated
NoDup == Size = Cardinality(Everywhere) /\ Everywhere \cap done = {}
OnceRead == \A i, j \in 1..Len(got) : i # j => got[i] # got[j]
\* with one reader, each kind of write of one writer is read in order (delayed
\* entries are merged behind the others)
Ordered == Cardinality(Readers) = 1 =>
  \A i, j \in 1..Len(got) : (i < j /\ got[i] \div 10 = got[j] \div 10) => got[i] < got[j]
=============================================================================
