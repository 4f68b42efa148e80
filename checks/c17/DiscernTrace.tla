---------------------------- MODULE DiscernTrace ----------------------------
EXTENDS Discern, Json, TLC
VARIABLES tr, l,
          coll,   \* accepted definitions
          m,      \* message being routed, or "none"
          di, pc, vs, bailed, route
vars == <<tr, l, coll, m, di, pc, vs, bailed, route>>
Traces == JsonDeserialize("traces.json")
Ev == Traces[tr][l]
None == [topic |-> << >>, arr |-> FALSE, tags |-> << >>, on |-> FALSE]
Consume == l' = l + 1 /\ UNCHANGED tr /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
Init == tr \in 1..Len(Traces) /\ l = 1 /\ coll = << >> /\ m = None /\ di = 1 /\ pc = 1 /\ vs = << >> /\ bailed = FALSE /\ route = {}
New == Ev.e = "new" /\ coll' = << >> /\ UNCHANGED <<m, di, pc, vs, bailed, route>>
Def == /\ Ev.e = "def"
       /\ LET r == Parse(Ev.toks, 1, << >>) IN
          /\ Ev.res = r.res
          /\ r.res = "ok" =>
               /\ coll' = Append(coll, SubSeq(Ev.toks, 1, r.n))
               /\ IF r.n > 0 THEN (Ev.pos >= Ev.toks[r.n].end /\ (r.n < Len(Ev.toks) => Ev.pos < Ev.toks[r.n + 1].end)) ELSE TRUE
          /\ r.res # "ok" => coll' = coll
       /\ UNCHANGED <<m, di, pc, vs, bailed, route>>
\* Listing of the destinations named in the collection
RECURSIVE Names(_)
Names(c) == IF c = << >> THEN << >> ELSE LET S == SelectSeq(c[1], LAMBDA x : x.k = "D") IN [i \in 1..Len(S) |-> S[i].v] \o Names(Tail(c))
Dests == Ev.e = "dests" /\ Ev.names = Names(coll) /\ UNCHANGED <<coll, m, di, pc, vs, bailed, route>>
Msg == Ev.e = "msg" /\ ~ m.on /\ m' = [topic |-> Ev.topic, arr |-> Ev.arr, tags |-> Ev.tags, on |-> TRUE]
       /\ di' = 1 /\ pc' = 1 /\ vs' = << >> /\ bailed' = FALSE /\ route' = {} /\ UNCHANGED coll
Over == bailed \/ di > Len(coll)
El == coll[di][pc]
Running == m.on /\ ~ Over /\ pc <= Len(coll[di])
Step == /\ vs' = ExecStack(El, vs, IF El.k \in Lits \cup Tests THEN Holds(El, m) ELSE FALSE)
        /\ pc' = pc + 1
        /\ bailed' = (El.k = "BAIL" /\ vs[1].v)
        /\ UNCHANGED <<coll, m, di>>
NextDef == m.on /\ ~ Over /\ pc > Len(coll[di]) /\ vs = << >> /\ di' = di + 1 /\ pc' = 1 /\ UNCHANGED <<coll, m, vs, bailed, route, tr, l>>
Silent == Running /\ El.k # "APPLY" /\ Step /\ UNCHANGED <<tr, l, route>>
Apply == /\ Ev.e = "apply" /\ Running /\ El.k = "APPLY" /\ Ev.d = vs[1].v /\ Ev.v = vs[2].v /\ Step
         /\ route' = IF Ev.v THEN route \cup {Ev.d} ELSE route \ {Ev.d}
End == /\ Ev.e = "end" /\ m.on /\ Over /\ Ev.bail = bailed
       \* No result: every reader may receive the message
       /\ Ev.route = [d \in {Ev.all[i] : i \in 1..Len(Ev.all)} |-> route = {} \/ d \in route]
       /\ m' = None /\ UNCHANGED <<coll, di, pc, vs, bailed, route>>
Obs == l <= Len(Traces[tr]) /\ (New \/ Def \/ Dests \/ Msg \/ Apply \/ End) /\ Consume
Next == Obs \/ (l <= Len(Traces[tr]) /\ (Silent \/ NextDef))
Spec == Init /\ [][Next]_vars
=============================================================================
