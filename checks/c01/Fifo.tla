-------------------------------- MODULE Fifo --------------------------------
(***************************************************************************)
(* The shared (multi-threaded) message FIFO, src/lib/fifo_protected.c.      *)
(* q is the queue proper, wq the delayed write queue which readers merge    *)
(* behind q.  Reads splice off up to MaxReads entries and run the callback  *)
(* on them one by one without any lock held.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
VARIABLES q, wq,      \* sequences of [id, ord]
          w,          \* per thread: progress of a write call
          r,          \* per thread: progress of a read call
          excl,       \* thread inside with_write_lock_do, or 99
          done        \* ids consumed (given to a callback, or freed by destroy)
vars == <<q, wq, w, r, excl, done>>

FifoMin(a, b) == IF a < b THEN a ELSE b
IdleW == [pc |-> "idle", k |-> "n", id |-> 0, ord |-> 0, fl |-> ""]
IdleR == [pc |-> "idle", list |-> <<>>, ret |-> 0, fr |-> 0]

Init0(T) ==
  /\ q = <<>> /\ wq = <<>> /\ excl = 99 /\ done = {}
  /\ w = [t \in T |-> IdleW]
  /\ r = [t \in T |-> IdleR]

Has(fl, s) == s \in fl

(* ordered insert: in front of the first entry which does not precede it *)
InsPos(s, o) == IF s = <<>> THEN 1
                ELSE IF s[Len(s)].ord < o THEN Len(s) + 1
                ELSE CHOOSE i \in 1..Len(s) : s[i].ord >= o /\ \A j \in 1..(i-1) : s[j].ord < o
InsertAt(s, i, e) == SubSeq(s, 1, i-1) \o <<e>> \o SubSeq(s, i, Len(s))

WStart(t, k) ==
  /\ w[t].pc = "idle"
  /\ w' = [w EXCEPT ![t] = [IdleW EXCEPT !.pc = "in", !.k = k]]
  /\ UNCHANGED <<q, wq, r, excl, done>>

(* The write callback supplies entry id, or asks to drop or fail *)
WCb(t, id, ord, fl) ==
  /\ w[t].pc = "in"
  /\ w' = [w EXCEPT ![t] = [@ EXCEPT !.id = id, !.ord = ord, !.fl = fl,
              !.pc = IF "err" \in fl THEN "fail"
                     ELSE IF "drop" \in fl THEN (IF "again" \in fl THEN "in" ELSE "fin")
                     ELSE "pend"]]
  /\ UNCHANGED <<q, wq, r, excl, done>>

Enq(t) ==
  /\ w[t].pc = "pend"
  /\ LET e == [id |-> w[t].id, ord |-> w[t].ord] IN
     IF w[t].k = "d"
     THEN wq' = wq \o <<e>> /\ UNCHANGED q
     ELSE /\ excl = 99
          /\ q' = IF "ordered" \in w[t].fl THEN InsertAt(q, InsPos(q, e.ord), e) ELSE q \o <<e>>
          /\ UNCHANGED wq
  /\ w' = [w EXCEPT ![t].pc = IF "again" \in w[t].fl THEN "in" ELSE "fin"]
  /\ UNCHANGED <<r, excl, done>>

WRet(t, ret) ==
  /\ \/ w[t].pc = "fin" /\ ret = 0
     \/ w[t].pc = "fail" /\ ret = 1
  /\ w' = [w EXCEPT ![t] = IdleW]
  /\ UNCHANGED <<q, wq, r, excl, done>>

RStart(t) ==
  /\ r[t].pc = "idle"
  /\ r' = [r EXCEPT ![t] = [IdleR EXCEPT !.pc = "start"]]
  /\ UNCHANGED <<q, wq, w, excl, done>>

Splice(t, max) ==
  /\ r[t].pc = "start" /\ (excl = 99 \/ (q = <<>> /\ wq = <<>>))
  /\ LET all == q \o wq  n == FifoMin(Len(all), max) IN
     /\ r' = [r EXCEPT ![t].pc = "run", ![t].list = SubSeq(all, 1, n)]
     /\ q' = SubSeq(all, n+1, Len(all))
     /\ wq' = <<>>
  /\ UNCHANGED <<w, excl, done>>

RetOf(fl) == (IF "gerr" \in fl THEN 1 ELSE 0) + (IF "cberr" \in fl THEN 2 ELSE 0)

RCb(t, id, fl) ==
  /\ r[t].pc = "run" /\ r[t].fr = 0 /\ r[t].list # <<>>
  /\ Head(r[t].list).id = id
  /\ r' = [r EXCEPT ![t] = [@ EXCEPT !.list = Tail(@),
              !.fr = IF "free" \in fl THEN id ELSE 0,
              !.ret = RetOf(fl),
              !.pc = IF fl \cap {"stop", "gerr", "cberr"} # {} THEN "put" ELSE "run"]]
  /\ done' = done \cup {id}
  /\ UNCHANGED <<q, wq, w, excl>>

RFree(t, id) ==
  /\ r[t].fr = id /\ id # 0
  /\ r' = [r EXCEPT ![t].fr = 0]
  /\ UNCHANGED <<q, wq, w, excl, done>>

PutBack(t) ==
  /\ r[t].pc = "put" /\ excl = 99
  /\ q' = r[t].list \o q
  /\ r' = [r EXCEPT ![t].list = <<>>, ![t].pc = "stopped"]
  /\ UNCHANGED <<wq, w, excl, done>>

RRet(t, ret) ==
  /\ r[t].fr = 0
  /\ \/ r[t].pc = "run" /\ r[t].list = <<>> /\ ret = 0
     \/ r[t].pc = "stopped" /\ ret = r[t].ret
  /\ r' = [r EXCEPT ![t] = IdleR]
  /\ UNCHANGED <<q, wq, w, excl, done>>

XStart(t) == excl = 99 /\ excl' = t /\ UNCHANGED <<q, wq, w, r, done>>
XEnd(t) == excl = t /\ excl' = 99 /\ UNCHANGED <<q, wq, w, r, done>>

Quiet == /\ \A t \in DOMAIN w : w[t].pc = "idle"
         /\ \A t \in DOMAIN r : r[t].pc = "idle"
         /\ excl = 99
(* A delayed entry may or may not be counted before it has been merged *)
Count(n) == Quiet /\ n >= Len(q) /\ n <= Len(q) + Len(wq) /\ UNCHANGED vars
Stats(wr, de) == Quiet /\ wr = de + Len(q) /\ de = Cardinality(done) /\ wq = <<>> /\ UNCHANGED vars

(* Destroying the buffer frees the data of every stored entry once *)
DFree(id) ==
  /\ Quiet
  /\ \E i \in 1..Len(q \o wq) :
       /\ (q \o wq)[i].id = id
       /\ q' = SubSeq(q \o wq, 1, i-1) \o SubSeq(q \o wq, i+1, Len(q \o wq))
  /\ wq' = <<>>
  /\ done' = done \cup {id}
  /\ UNCHANGED <<w, r, excl>>
Destroyed == Quiet /\ q = <<>> /\ wq = <<>> /\ UNCHANGED vars
=============================================================================
