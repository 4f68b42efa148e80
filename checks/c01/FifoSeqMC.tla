----------------------------- MODULE FifoSeqMC -----------------------------
EXTENDS FifoSeq, TLC
CONSTANT MaxId
VARIABLE n
vars == <<svars, n>>
Init == SInit0 /\ n = 0
SF == {{}, {"give"}, {"give", "free"}, {"stop"}, {"give", "stop"}, {"cberr"}}
RF == SF \cup {{"replace"}, {"replace", "free"}, {"replace", "free", "stop"}}
CF == {{}, {"free"}, {"stop"}, {"free", "cberr"}}
WF == {{}, {"again"}, {"drop"}, {"err"}, {"ordered"}}
U == UNCHANGED n
Fresh == n < MaxId
Next ==
  \/ (\E id \in 1..MaxId : Inc(id) \/ Dec(id)) /\ U
  \/ (\E b \in {1, 2} : (op.k = "none" \/ Fresh) /\ WBegin(b)) /\ U
  \/ \E fl \in WF, o \in 1..2 : IF Fresh THEN WCb1(n + 1, o, fl) /\ n' = n + 1 ELSE WCb1(0, o, {"drop"}) /\ U
  \/ (\E r \in 0..1 : WEnd(r)) /\ U
  \/ (\E k \in {"search", "replace", "read", "min", "clear", "wipe"}, b \in {1, 2}, a \in {0, 1} :
        (k # "replace" => a = 0) /\ Begin(k, b, 1, a)) /\ U
  \/ op.k # "none" /\ op.k # "clear" /\ More /\
       ( \/ (\E fl \in SF : SearchCb(At.id, fl)) /\ U
         \/ \E fl \in RF : IF "replace" \in fl THEN Fresh /\ ReplaceCb(At.id, At.ord, fl, n + 1, 1) /\ n' = n + 1
                           ELSE ReplaceCb(At.id, At.ord, fl, 0, 0) /\ U
         \/ (\E fl \in {{}, {"stop"}, {"cberr"}, {"gerr"}} : ReadCb(At.id, fl)) /\ U
         \/ (\E fl \in {{}, {"stop"}, {"gerr"}}, id \in 1..MaxId : MinCb(id, fl)) /\ U
         \/ (\E fl \in {{}, {"take"}} : WipeCb(Head(qs[op.b]).id, fl)) /\ U )
  \/ op.k = "clear" /\ op.list # <<>> /\ (\E fl \in CF : ClearCb(Head(op.list).id, fl)) /\ U
  \/ op.k = "replace" /\ (\E fl \in {{}, {"drop"}} : IF fl = {} THEN Fresh /\ AgainCb(n + 1, 1, fl) /\ n' = n + 1 ELSE AgainCb(0, 0, fl) /\ U)
  \/ (\E r \in 0..3 : End(r)) /\ U
  \/ Merge(1, 2) /\ U
Spec == Init /\ [][Next]_vars
Stored == {qs[1][i].id : i \in 1..Len(qs[1])} \cup {qs[2][i].id : i \in 1..Len(qs[2])} \cup {op.list[i].id : i \in 1..Len(op.list)}
Once == /\ Cardinality(Stored) = Len(qs[1]) + Len(qs[2]) + Len(op.list)
        /\ Stored \cap gone = {}
        /\ inc \subseteq Stored
=============================================================================
