-------------------------------- MODULE Heap --------------------------------
(* Shared heap. live: allocations [id, h, lo, sz]; chunks: pieces which were given back and not used since.
   h is the segment, lo the position in it. *)
EXTENDS Integers, FiniteSets
CONSTANTS MaxSeg,  \* segments which may exist
          Pad      \* what may be used beyond the size asked for
VARIABLES live, chunks,
          maint,   \* maintenance has taken place
          idle     \* maintenance rounds in a row with nothing allocated
hv == <<live, chunks, maint, idle>>
HInit == live = {} /\ chunks = {} /\ maint = FALSE /\ idle = 0
Overlap(a, asz, b, bsz) == a < b + bsz /\ b < a + asz
Segs == {x.h : x \in live}
Alloc(id, h, lo, sz, grew) ==
    /\ \A x \in live : x.id # id /\ (x.h = h => ~Overlap(x.lo, x.sz, lo, sz))
    /\ lo >= 0 /\ lo % 8 = 0
    (* no new segment while freed memory of that size is there; maintenance may set aside segments which are used much *)
    /\ grew /\ ~maint => ~\E c \in chunks : c.sz >= sz
    /\ live' = live \cup {[id |-> id, h |-> h, lo |-> lo, sz |-> sz]}
    /\ chunks' = {c \in chunks : c.h # h \/ (h \in Segs /\ ~Overlap(c.lo, c.sz + Pad, lo, sz + Pad))}
    /\ idle' = 0 /\ UNCHANGED maint
(* refused only when all segments are in use, and none of them has a piece of that size *)
Refuse(sz) == /\ Cardinality(Segs) >= MaxSeg /\ ~(\E c \in chunks : c.h \in Segs /\ c.sz >= sz) /\ UNCHANGED hv
Free(id) == \E x \in live :
    /\ x.id = id /\ live' = live \ {x}
    /\ chunks' = IF \E y \in live' : y.h = x.h THEN chunks \cup {[h |-> x.h, lo |-> x.lo, sz |-> x.sz]} ELSE {c \in chunks : c.h # x.h}
    /\ UNCHANGED <<maint, idle>>
Maintain(n) == /\ maint' = TRUE /\ idle' = IF live = {} THEN idle + 1 ELSE 0
               /\ n >= Cardinality(Segs) /\ (idle' > 12 => n = 0) /\ UNCHANGED <<live, chunks>>
=============================================================================
