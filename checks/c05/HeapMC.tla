------------------------------- MODULE HeapMC -------------------------------
EXTENDS Heap
CONSTANTS Size, Ids
Next == \/ \E id \in Ids, h \in 0..MaxSeg - 1, lo \in {8 * k : k \in 0..(Size \div 8)}, sz \in {4, 8, 16} : lo + sz <= Size /\ \E g \in BOOLEAN : (g => h \notin Segs) /\ (h \notin Segs /\ Segs # {} => g) /\ Alloc(id, h, lo, sz, g)
        \/ \E sz \in {4, 8, 16} : Refuse(sz)
        \/ \E id \in Ids : Free(id)
        \/ idle < 14 /\ \E n \in 0..MaxSeg : Maintain(n)
Init == HInit
Spec == Init /\ [][Next]_hv
Disjoint == \A x, y \in live : x # y => x.id # y.id /\ (x.h = y.h => x.lo + x.sz <= y.lo \/ y.lo + y.sz <= x.lo)
ChunksFree == \A c \in chunks, x \in live : x.h = c.h => ~Overlap(c.lo, c.sz, x.lo, x.sz)
ChunksNeeded == \A c \in chunks : c.h \in Segs
(* a request for the size of something given back never makes the heap grow *)
NoGrowth == [][\A x \in live' \ live : (\E c \in chunks : c.sz >= x.sz) /\ ~maint => Segs' = Segs]_hv
EmptyInTheEnd == idle <= 14
=============================================================================
