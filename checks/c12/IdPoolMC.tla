------------------------------ MODULE IdPoolMC ------------------------------
EXTENDS IdPool
CONSTANT N
VARIABLE used
Init == Init0 /\ used = {}
Next == \/ \E a, b \in 1..N : Get(N, a, b) /\ (a..b) \cap used = {} /\ used' = used \cup (a..b)
        \/ \E a, b \in 1..N : Release(a, b) /\ used' = used \ (a..b)
        \/ Refuse(N) /\ UNCHANGED used
        \/ Clear /\ used' = {}
Spec == Init /\ [][Next]_<<iv, used>>
Same == used = UNION {v[1]..v[2] : v \in iv}
Maximal == \A u, v \in iv : u # v => (u[2] + 1 < v[1] \/ v[2] + 1 < u[1])
RefusedIffFull == (ENABLED Refuse(N)) <=> (used = 1..N)
GetIffFree == \A a \in 1..N : (ENABLED Get(N, a, a)) <=> (a \notin used)
ReleaseIffUsed == \A a \in 1..N : (ENABLED Release(a, a)) <=> (a \in used)
=============================================================================
