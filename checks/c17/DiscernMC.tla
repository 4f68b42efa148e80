----------------------------- MODULE DiscernMC -----------------------------
(* Every program up to a length, on every outcome of its tests. *)
EXTENDS Discern, TLC
CONSTANTS MaxLen, LIMIT
VARIABLES ph, prog, st, pc, vs, last, route
vars == <<ph, prog, st, pc, vs, last, route>>
Els == {[k |-> k, v |-> ""] : k \in {"TRUE", "FALSE", "H", "AND", "OR", "NOT", "APPLY", "POP", "BAIL"}}
       \cup {[k |-> "D", v |-> d] : d \in {"a", "b"}}
Init == ph = "parse" /\ prog = << >> /\ st = << >> /\ pc = 1 /\ vs = << >> /\ last = << >> /\ route = {}
ParseStep == \E el \in Els :
  /\ ph = "parse" /\ Len(prog) < MaxLen
  /\ Fault(el, st) = "ok" /\ Len(TypeStep(el.k, st)) < LIMIT
  /\ prog' = Append(prog, el) /\ st' = TypeStep(el.k, st)
  /\ ph' = IF st' = << >> THEN "exec" ELSE "parse"
  /\ UNCHANGED <<pc, vs, last, route>>
El == prog[pc]
ExecStep == ph = "exec" /\ pc <= Len(prog) /\ pc' = pc + 1 /\ UNCHANGED <<prog, st>> /\
  \E b \in (IF El.k = "H" THEN BOOLEAN ELSE {El.k = "TRUE"}) :
    /\ vs' = ExecStack(El, vs, b)
    /\ IF El.k = "BAIL" /\ vs[1].v
       THEN ph' = "bailed" /\ UNCHANGED <<last, route>>
       ELSE /\ ph' = IF pc = Len(prog) THEN "done" ELSE "exec"
            /\ IF El.k = "APPLY"
               THEN /\ last' = Append(last, <<vs[1].v, vs[2].v>>)
                    /\ route' = IF vs[2].v THEN route \cup {vs[1].v} ELSE route \ {vs[1].v}
               ELSE UNCHANGED <<last, route>>
Next == ParseStep \/ ExecStep
Spec == Init /\ [][Next]_vars
\* The static check of an accepted program rules out every runtime fault
Sound == (ph = "exec") =>
  /\ Len(vs) >= Args(El.k)
  /\ El.k \in {"AND", "OR"} => vs[1].t = Bool /\ vs[2].t = Bool
  /\ El.k \in {"NOT", "BAIL"} => vs[1].t = Bool
  /\ El.k = "APPLY" => vs[1].t = Dest /\ vs[2].t = Bool
  /\ Len(vs) < LIMIT
Balanced == ph = "done" => vs = << >>
Typed == ph = "exec" => [i \in 1..Len(vs) |-> vs[i].t] = st \/ pc <= Len(prog)
\* The route is decided by the last application of each destination
LastWins == \A d \in {"a", "b"} : d \in route <=>
  \E i \in 1..Len(last) : last[i] = <<d, TRUE>> /\ \A j \in i+1..Len(last) : last[j][1] # d
\* Parse as a function agrees with element-wise parsing
Agree == ph # "parse" => Parse(prog, 1, << >>) = [res |-> "ok", n |-> Len(prog)]
=============================================================================
