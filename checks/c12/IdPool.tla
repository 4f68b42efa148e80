------------------------------- MODULE IdPool -------------------------------
(* Pool of 16 bit packet identifiers, src/lib/mqtt/mqtt_id_pool.c.  used is the
   set of identifiers in use; iv is the same set as maximal intervals, which lets
   long histories be followed. *)
EXTENDS Naturals, FiniteSets
VARIABLE iv
Overlaps(v, lo, hi) == v[1] <= hi /\ lo <= v[2]
Free(lo, hi) == \A v \in iv : ~Overlaps(v, lo, hi)
Full(n) == iv = {<<1, n>>}
Add(lo, hi) ==
  LET L == {v \in iv : v[2] + 1 = lo}  H == {v \in iv : v[1] = hi + 1}
      a == IF L = {} THEN lo ELSE (CHOOSE v \in L : TRUE)[1]
      b == IF H = {} THEN hi ELSE (CHOOSE v \in H : TRUE)[2]
  IN (iv \ (L \cup H)) \cup {<<a, b>>}
Sub(lo, hi) ==
  LET v == CHOOSE v \in iv : v[1] <= lo /\ hi <= v[2]
  IN (iv \ {v}) \cup (IF v[1] < lo THEN {<<v[1], lo - 1>>} ELSE {}) \cup (IF hi < v[2] THEN {<<hi + 1, v[2]>>} ELSE {})
Init0 == iv = {}
(* identifiers lo..hi were handed out one by one *)
Get(n, lo, hi) == lo >= 1 /\ hi <= n /\ lo <= hi /\ Free(lo, hi) /\ iv' = Add(lo, hi)
(* refused only while everything is in use *)
Refuse(n) == Full(n) /\ UNCHANGED iv
Release(lo, hi) == (\E v \in iv : v[1] <= lo /\ hi <= v[2]) /\ lo <= hi /\ iv' = Sub(lo, hi)
Clear == iv' = {}
=============================================================================
