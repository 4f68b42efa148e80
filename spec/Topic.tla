------------------------------- MODULE Topic -------------------------------
(* Topics and topic filters, as sequences of levels (strings). *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences

FirstChar(s) == IF Len(s) = 0 THEN "" ELSE SubSeq(s, 1, 1)

\* A filter is well-formed when # is alone on the last level and + is alone on its level
ValidFilter(f) ==
  /\ f # << >>
  /\ \A i \in 1..Len(f) :
       /\ (\E k \in 1..Len(f[i]) : SubSeq(f[i], k, k) = "#") => (f[i] = "#" /\ i = Len(f))
       /\ (\E k \in 1..Len(f[i]) : SubSeq(f[i], k, k) = "+") => f[i] = "+"
ValidTopic(t) ==
  /\ t # << >> /\ t # <<"">>
  /\ \A i \in 1..Len(t), k \in 1..6 : k <= Len(t[i]) => SubSeq(t[i], k, k) \notin {"#", "+"}

\* Levels starting with $ are not matched by wildcards; x/# does not match x
RECURSIVE TopicMatch(_, _)
TopicMatch(f, t) ==
  IF f = << >> /\ t = << >> THEN TRUE
  ELSE IF f = << >> \/ t = << >> THEN FALSE
  ELSE IF f[1] = "#" THEN FirstChar(t[1]) # "$"
  ELSE IF f[1] = "+" THEN FirstChar(t[1]) # "$" /\ TopicMatch(Tail(f), Tail(t))
  ELSE f[1] = t[1] /\ TopicMatch(Tail(f), Tail(t))
=============================================================================
