---------------------------- MODULE BrokerTrace ----------------------------
EXTENDS Broker, Json, TLC
VARIABLES tr, l
Traces == JsonDeserialize("traces.json")
ASSUME \A i \in 1..Len(Traces) : TLCSet(i, FALSE)
Ev == Traces[tr][l]
ToSet(q) == {q[k] : k \in 1..Len(q)}
M(m) == [id |-> m.id, nh |-> ToSet(m.nh), top |-> m.top, src |-> m.src]
Ms(q) == [k \in 1..Len(q) |-> M(q[k])]
Conf(c) == [k \in 1..Len(c) |-> [snd |-> ToSet(c[k].snd), dup |-> c[k].dup, slot |-> c[k].slot, bs |-> c[k].bs, filter |-> c[k].filter, inv |-> c[k].inv]]
Step == \/ Ev.e = "wb" /\ WriteBegin(Ev.t, Ev.s, Ms(Ev.ms))
        \/ Ev.e = "pub" /\ Make(Ev.t, Ev.s, M(Ev.m))
        \/ Ev.e = "we" /\ WriteEnd(Ev.t, Ev.ok, Ev.now)
        \/ Ev.e = "rd" /\ Ev.ok /\ Read(Ev.r, Ev.id, Ev.top)
        \/ Ev.e = "uid" /\ UniqueId(Ev.s, Ev.v)
        \/ Ev.e = "cancel" /\ Shutdown(Ev.now)
        \/ Ev.e = "quiet" /\ Quiet(Ev.count)
        \/ Ev.e = "end" /\ UNCHANGED vars
(* Writes take effect when the next event needs it, or together with other writes to the same sender then *)
Has(t) == pend[t].op /\ pend[t].ms # <<>>
Needed(t) == TRUE = (Has(t) /\ (\/ (Ev.e = "we" /\ Ev.t = t)
                       \/ (Ev.e = "rd" /\ pend[t].s \in cfg[Ev.r].snd /\ (\E k \in 1..Len(pend[t].ms) : pend[t].ms[k].id = Ev.id))))
(* The order in which some reader gets messages which have been written once is known beforehand *)
Wr(q) == UNION {IF q[k].e = "wb" THEN {<<k, q[k].ms[n].id>> : n \in 1..Len(q[k].ms)} ELSE IF q[k].e = "pub" THEN {<<k, q[k].m.id>>} ELSE {} : k \in 1..Len(q)}
Once(q) == LET w == TLCEval(Wr(q)) IN {x[2] : x \in {y \in w : Cardinality({z \in w : z[2] = y[2]}) = 1}}
ReadAt(q) == LET o == TLCEval(Once(q)) IN [r \in 1..4 |-> LET x == TLCEval({k \in 1..Len(q) : q[k].e = "rd" /\ q[k].r = r /\ q[k].id \in o}) IN
             TLCEval([id \in {q[k].id : k \in x} |-> CHOOSE k \in x : q[k].id = id])]
Order == TLCEval([i \in 1..Len(Traces) |-> ReadAt(Traces[i])])
Before(a, b) == \E r \in 1..4 : a \in DOMAIN Order[tr][r] /\ b \in DOMAIN Order[tr][r] /\ Order[tr][r][a] < Order[tr][r][b]
Later(t) == ~Compete(pend[t].s) /\ (\E n \in Threads \ {t} : Has(n) /\ pend[n].s = pend[t].s /\ Before(Head(pend[n].ms).id, Head(pend[t].ms).id))
Hidden == (\E t \in Threads : Has(t) /\ (\E n \in Threads : Needed(n) /\ pend[n].s = pend[t].s /\ (Compete(pend[t].s) => n = t)) = TRUE /\ Later(t) = FALSE /\ PublishNext(t)) /\ UNCHANGED <<tr, l>>
Consume == /\ Step /\ l' = l + 1 /\ UNCHANGED tr
           /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>) /\ TLCSet(tr, TRUE))
Init == /\ tr \in 1..Len(Traces)
        /\ IF Traces[tr][1].e = "cfg" THEN l = 2 /\ BInit(Conf(Traces[tr][1].i)) ELSE l = 1 /\ BInit(<<>>)
Next == l <= Len(Traces[tr]) /\ TLCGet(tr) = FALSE /\ (Consume \/ Hidden)
Spec == Init /\ [][Next]_<<vars, tr, l>>
=============================================================================
