------------------------------ MODULE FifoSeq ------------------------------
(* The single-threaded message FIFO, src/lib/fifo.c: two buffers (1, 2) so that
   merging can be described.  One operation at a time runs; write operations may
   be nested in the callback of a clearing read. *)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES qs,   \* buffer -> sequence of [id, ord]
          op,   \* running operation [k, b, i (cursor), list, ret, min, again]
          wr,   \* running write     [k, b, ret]
          inc, dec,  \* ids which must have their reference count changed now
          gone       \* ids handed over or destroyed
svars == <<qs, op, wr, inc, dec, gone>>
NoOp == [k |-> "none", b |-> 0, i |-> 0, list |-> <<>>, ret |-> 0, min |-> 0, again |-> 0]
NoWr == [k |-> "none", b |-> 0, ret |-> 0]
SInit0 == qs = [b \in {1, 2} |-> <<>>] /\ op = NoOp /\ wr = NoWr /\ inc = {} /\ dec = {} /\ gone = {}

Settled == inc = {} /\ dec = {}
Cut(s, i) == SubSeq(s, 1, i-1) \o SubSeq(s, i+1, Len(s))
Ins(s, e) == LET P == {i \in 1..Len(s) : s[i].ord >= e.ord}
                 p == IF s = <<>> \/ s[Len(s)].ord < e.ord \/ P = {} THEN Len(s) + 1
                      ELSE CHOOSE i \in P : \A j \in P : i <= j
             IN SubSeq(s, 1, p-1) \o <<e>> \o SubSeq(s, p, Len(s))

(* reference count callbacks *)
Inc(id) == id \in inc /\ inc' = inc \ {id} /\ UNCHANGED <<qs, op, wr, dec, gone>>
Dec(id) == id \in dec /\ dec' = dec \ {id} /\ UNCHANGED <<qs, op, wr, inc, gone>>

\* write
WBegin(b) == /\ Settled /\ wr.k = "none" /\ (op.k = "none" \/ op.k = "clear")
             /\ wr' = [k |-> "in", b |-> b, ret |-> 0]
             /\ UNCHANGED <<qs, op, inc, dec, gone>>
WriteCb(b, id, ord, fl, ordered) ==
  IF "err" \in fl \/ "drop" \in fl THEN UNCHANGED <<qs, inc>>
  ELSE /\ qs' = [qs EXCEPT ![b] = IF ordered THEN Ins(@, [id |-> id, ord |-> ord])
                                 ELSE @ \o <<[id |-> id, ord |-> ord]>>]
       /\ inc' = inc \cup {id}
WCb1(id, ord, fl) ==
  /\ Settled /\ wr.k = "in"
  /\ WriteCb(wr.b, id, ord, fl, "ordered" \in fl)
  /\ wr' = [wr EXCEPT !.k = IF "again" \in fl THEN "in" ELSE "end", !.ret = IF "err" \in fl THEN 1 ELSE 0]
  /\ UNCHANGED <<op, dec, gone>>
WEnd(ret) == /\ Settled /\ wr.k = "end" /\ ret = wr.ret /\ wr' = NoWr /\ UNCHANGED <<qs, op, inc, dec, gone>>

\* iterating operations
(* k: search, replace, read, min, clear, wipe *)
Begin(k, b, min, again) ==
  /\ Settled /\ op.k = "none" /\ wr.k = "none"
  /\ op' = [NoOp EXCEPT !.k = k, !.b = b, !.i = 1, !.min = min, !.again = again,
              !.list = IF k = "clear" THEN qs[b] ELSE <<>>]
  /\ qs' = IF k = "clear" THEN [qs EXCEPT ![b] = <<>>] ELSE qs
  /\ UNCHANGED <<wr, inc, dec, gone>>

At == qs[op.b][op.i]
More == op.i <= Len(qs[op.b])

SearchCb(id, fl) ==
  /\ Settled /\ op.k = "search" /\ More /\ At.id = id
  /\ qs' = IF "give" \in fl THEN [qs EXCEPT ![op.b] = Cut(@, op.i)] ELSE qs
  /\ gone' = IF "give" \in fl THEN gone \cup {id} ELSE gone
  /\ dec' = IF "give" \in fl /\ "free" \in fl THEN {id} ELSE {}
  /\ op' = [op EXCEPT !.i = IF "stop" \in fl \/ "cberr" \in fl THEN 1000
                            ELSE IF "give" \in fl THEN @ ELSE @ + 1,
                      !.ret = IF "cberr" \in fl THEN 2 ELSE 0]
  /\ UNCHANGED <<wr, inc>>

(* nid/nord: what the callback asks to store instead *)
ReplaceCb(id, ord, fl, nid, nord) ==
  /\ Settled /\ op.k = "replace" /\ More /\ At.id = id /\ At.ord = ord
  /\ qs' = IF "give" \in fl THEN [qs EXCEPT ![op.b] = Cut(@, op.i)]
           ELSE IF "replace" \in fl THEN [qs EXCEPT ![op.b][op.i] = [id |-> nid, ord |-> nord]]
           ELSE qs
  /\ gone' = IF fl \cap {"give", "replace"} # {} THEN gone \cup {id} ELSE gone
  /\ dec' = IF fl \cap {"give", "replace"} # {} /\ "free" \in fl THEN {id} ELSE {}
  /\ inc' = IF "replace" \in fl THEN {nid} ELSE {}
  /\ op' = [op EXCEPT !.i = IF "stop" \in fl \/ "cberr" \in fl THEN 1000
                            ELSE IF "give" \in fl THEN @ ELSE @ + 1,
                      !.ret = IF "cberr" \in fl THEN 2 ELSE 0]
  /\ UNCHANGED wr

(* search_and_replace may call the callback again to add entries at the end *)
AgainCb(id, ord, fl) ==
  /\ Settled /\ op.k = "replace" /\ op.again = 1 /\ ~More /\ op.ret = 0
  /\ WriteCb(op.b, id, ord, fl, FALSE)
  /\ op' = [op EXCEPT !.i = 1000, !.again = IF "again" \in fl THEN 1 ELSE 0, !.ret = IF "err" \in fl THEN 1 ELSE 0]
  /\ UNCHANGED <<wr, dec, gone>>

ReadCb(id, fl) ==
  /\ Settled /\ op.k = "read" /\ More /\ At.id = id
  /\ op' = [op EXCEPT !.i = IF "stop" \in fl \/ "gerr" \in fl THEN 1000 ELSE @ + 1,
       !.ret = IF "gerr" \in fl THEN 1
               ELSE IF "cberr" \in fl THEN 2 ELSE @]
  /\ UNCHANGED <<qs, wr, inc, dec, gone>>

RECURSIVE NextMin(_, _, _)
NextMin(s, i, m) == IF i > Len(s) \/ s[i].ord > m THEN i ELSE NextMin(s, i + 1, m)
MinCb(id, fl) ==
  /\ Settled /\ op.k = "min" /\ More
  /\ LET i == NextMin(qs[op.b], op.i, op.min) IN
     /\ i <= Len(qs[op.b]) /\ qs[op.b][i].id = id
     /\ op' = [op EXCEPT !.i = IF fl \cap {"stop", "gerr", "cberr"} # {} THEN 1000 ELSE i + 1,
         !.ret = IF "gerr" \in fl THEN 1 ELSE IF "cberr" \in fl THEN 2 ELSE 0]
  /\ UNCHANGED <<qs, wr, inc, dec, gone>>

ClearCb(id, fl) ==
  /\ Settled /\ wr.k = "none" /\ op.k = "clear" /\ op.list # <<>> /\ op.i # 1000 /\ Head(op.list).id = id
  /\ gone' = gone \cup {id}
  /\ dec' = IF "free" \in fl THEN {id} ELSE {}
  /\ op' = [op EXCEPT !.list = Tail(@),
             !.i = IF fl \cap {"stop", "gerr", "cberr"} # {} THEN 1000 ELSE @,
             !.ret = IF "gerr" \in fl THEN 1 ELSE IF "cberr" \in fl THEN 2 ELSE 0]
  /\ UNCHANGED <<qs, wr, inc>>

WipeCb(id, fl) ==
  /\ Settled /\ op.k = "wipe" /\ qs[op.b] # <<>> /\ Head(qs[op.b]).id = id
  /\ qs' = [qs EXCEPT ![op.b] = Tail(@)]
  /\ gone' = gone \cup {id}
  /\ dec' = IF "take" \in fl THEN {} ELSE {id}
  /\ UNCHANGED <<op, wr, inc>>

End(ret) ==
  /\ Settled /\ wr.k = "none" /\ ret = op.ret
  /\ CASE op.k \in {"search", "read"} -> ~More /\ qs' = qs
       [] op.k = "replace" -> ~More /\ (op.again = 0 \/ op.ret # 0) /\ qs' = qs
       [] op.k = "min" -> NextMin(qs[op.b], op.i, op.min) > Len(qs[op.b]) /\ qs' = qs
       [] op.k = "clear" -> (op.i = 1000 \/ op.list = <<>>) /\ qs' = [qs EXCEPT ![op.b] = op.list \o @]
       [] op.k = "wipe" -> qs[op.b] = <<>> /\ qs' = qs
       [] OTHER -> FALSE
  /\ op' = NoOp
  /\ UNCHANGED <<wr, inc, dec, gone>>

Merge(a, b) == /\ Settled /\ op.k = "none" /\ wr.k = "none" /\ a # b
               /\ qs' = [qs EXCEPT ![a] = @ \o qs[b], ![b] = <<>>]
               /\ UNCHANGED <<op, wr, inc, dec, gone>>
SCount(b, n) == Settled /\ op.k = "none" /\ wr.k = "none" /\ n = Len(qs[b]) /\ UNCHANGED svars
(* destroying drops one reference of each stored entry *)
DestroyDec(b, id) == /\ op.k = "none" /\ Settled
                     /\ \E i \in 1..Len(qs[b]) : qs[b][i].id = id /\ qs' = [qs EXCEPT ![b] = Cut(@, i)]
                     /\ gone' = gone \cup {id}
                     /\ UNCHANGED <<op, wr, inc, dec>>
SEnd == Settled /\ op.k = "none" /\ \A b \in {1, 2} : qs[b] = <<>> /\ UNCHANGED svars
=============================================================================
