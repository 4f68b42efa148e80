------------------------------ MODULE Discern ------------------------------
(* Routing programs: a stack language. A definition is parsed element by element
   while a dummy execution checks argument counts and types; the definition ends
   when the stack becomes empty. Executing an accepted collection against a message
   applies destinations with a truth value, in order, until the end or BAIL. *)
EXTENDS Naturals, Sequences
LOCAL INSTANCE Topic
Max == 64

\* Elements: [k |-> kind, v |-> value]
Lits == {"TRUE", "FALSE"}
Tests == {"T", "H"}
Args(k) == CASE k \in {"AND", "OR", "APPLY"} -> 2 [] k \in {"NOT", "POP", "BAIL"} -> 1 [] OTHER -> 0
Bool == "bool"
Dest == "dest"

\* ---- parsing: st is the stack of types, top first
TypesOK(k, st) ==
  CASE k \in {"AND", "OR"} -> st[1] = Bool /\ st[2] = Bool
    [] k \in {"NOT", "BAIL"} -> st[1] = Bool
    [] k = "APPLY" -> st[1] = Dest /\ st[2] = Bool
    [] OTHER -> TRUE
TypeStep(k, st) ==
  CASE k \in Lits \cup Tests -> <<Bool>> \o st
    [] k = "D" -> <<Dest>> \o st
    [] k \in {"AND", "OR", "APPLY", "POP", "BAIL"} -> Tail(st)
    [] OTHER -> st
ValueOK(el) == el.k = "T" => ValidFilter(el.v)

\* Result of offering one element: "ok" or the fault
Fault(el, st) ==
  IF el.k \notin Lits \cup Tests \cup {"D", "AND", "OR", "NOT", "APPLY", "POP", "BAIL"} THEN "lexical"
  ELSE IF ~ ValueOK(el) THEN "lexical"
  ELSE IF Args(el.k) > Len(st) THEN "count"
  ELSE IF ~ TypesOK(el.k, st) THEN "type"
  ELSE IF Len(TypeStep(el.k, st)) >= Max THEN "overflow"
  ELSE "ok"

RECURSIVE Parse(_, _, _)
\* toks from position i; st so far. Returns [res, n] where n is the number of elements consumed when res = "ok"
Parse(toks, i, st) ==
  IF i > Len(toks) THEN [res |-> IF st = << >> THEN "ok" ELSE "count", n |-> i - 1]
  ELSE LET f == Fault(toks[i], st) IN
       IF f # "ok" THEN [res |-> f, n |-> i]
       ELSE LET s2 == TypeStep(toks[i].k, st) IN
            IF s2 = << >> THEN [res |-> "ok", n |-> i] ELSE Parse(toks, i + 1, s2)

\* ---- execution
\* Message: [topic |-> sequence of levels (or << >>), arr |-> is array, tags |-> sequence of tags]
Holds(el, m) ==
  CASE el.k = "TRUE" -> TRUE
    [] el.k = "FALSE" -> FALSE
    [] el.k = "T" -> m.topic # << >> /\ TopicMatch(el.v, m.topic)
    [] el.k = "H" -> m.arr /\ \E i \in 1..Len(m.tags) : m.tags[i] = el.v

\* State of an execution: position of definition and element, and the stack of values (top first)
Cell(t, v) == [t |-> t, v |-> v]
ExecStack(el, vs, b) ==  \* b: truth of the test if it is one
  CASE el.k \in Lits \cup Tests -> <<Cell(Bool, b)>> \o vs
    [] el.k = "D" -> <<Cell(Dest, el.v)>> \o vs
    [] el.k = "AND" -> <<Cell(Bool, vs[1].v /\ vs[2].v)>> \o SubSeq(vs, 3, Len(vs))
    [] el.k = "OR" -> <<Cell(Bool, vs[1].v \/ vs[2].v)>> \o SubSeq(vs, 3, Len(vs))
    [] el.k = "NOT" -> <<Cell(Bool, ~ vs[1].v)>> \o Tail(vs)
    [] el.k \in {"APPLY", "POP", "BAIL"} -> Tail(vs)
=============================================================================
