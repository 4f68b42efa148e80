------------------------------ MODULE SendLoop ------------------------------
(* Send loop: entries wait in q until they are sent, dropped or returned. A run visits the waiting entries.
   Times in microseconds. ttl/timeout 0: off; -1: longer than the age of anything. *)
EXTENDS Integers, FiniteSets
CONSTANT Slack
VARIABLES q,      \* waiting: set of [id, idx, ts (creation time of message), st (time of preparation)]
          par,    \* [order, ttl, timeout, action]
          run,    \* [on, todo, t, maydie, stop, err]: run in progress
          idx,    \* index given last
          last,   \* time since which the loop has been left alone with something waiting
          prep    \* prepared entries not in the loop: [id -> [idx, ts, st]] as set
sv == <<q, par, run, idx, last, prep>>
NoRun == [on |-> FALSE, todo |-> {}, t |-> 0, die |-> {}, stop |-> FALSE, err |-> 0]
SInit(p) == q = {} /\ par = p /\ run = NoRun /\ idx = 0 /\ last = 0 /\ prep = {}
Age(t, x) == t - x
Over(t, x, lim, sl) == lim > 0 /\ Age(t, x) > lim + sl
OutTtl(e, t) == Over(t, e.ts, par.ttl, Slack)
MayTtl(e, t) == Over(t, e.ts, par.ttl, -Slack)
OutTo(e, t) == e.st > 0 /\ Over(t, e.st, par.timeout, Slack)
MayTo(e, t) == e.st > 0 /\ Over(t, e.st, par.timeout, -Slack)
Ids(s) == {e.id : e \in s}
-----------------------------------------------------------------------------
SetPar(p) == ~run.on /\ par' = p /\ UNCHANGED <<q, run, idx, last, prep>>
Prepare(id, ts, t, i) == /\ id \notin Ids(q) /\ idx' = i /\ i > idx
                         /\ prep' = {e \in prep : e.id # id} \cup {[id |-> id, idx |-> i, ts |-> ts, st |-> t]}
                         /\ UNCHANGED <<q, par, run, last>>
Enter(id, t) == \E e \in prep : /\ e.id = id /\ id \notin Ids(q) /\ q' = q \cup {e}
                                /\ last' = IF q = {} THEN t ELSE last
                                /\ UNCHANGED <<par, run, idx, prep>>
Push(id, t) == ~run.on /\ Enter(id, t)
(* put back when its time is over, which it tells *)
UnshiftTimedOut(id, t, did) == \E e \in prep : /\ e.id = id /\ id \notin Ids(q)
    /\ IF did THEN (MayTtl(e, t) \/ MayTo(e, t)) /\ Enter(id, t)
              ELSE ~(OutTtl(e, t) \/ OutTo(e, t)) /\ UNCHANGED sv
Touch(ids, t) == /\ q' = {IF e.id \in ids THEN [e EXCEPT !.st = t] ELSE e : e \in q}
                 /\ prep' = {IF e.id \in ids /\ e.id \in Ids(q) THEN [e EXCEPT !.st = t] ELSE e : e \in prep}
                 /\ UNCHANGED <<par, run, idx, last>>
Clear == ~run.on /\ q' = {} /\ UNCHANGED <<par, run, idx, last, prep>>
-----------------------------------------------------------------------------
(* What happens to an entry which is visited: kind is one of ttl, drop, keep, ret, push *)
Kinds(e, t) == (IF MayTtl(e, t) THEN {"ttl"} ELSE {})
          \cup (IF ~OutTtl(e, t) /\ MayTo(e, t) THEN {IF par.action = "retry" THEN "keep" ELSE IF par.action = "drop" THEN "drop" ELSE "ret"} ELSE {})
          \cup (IF ~OutTtl(e, t) /\ ~OutTo(e, t) THEN {"push"} ELSE {})
Begin(t) == ~run.on /\ run' = [on |-> TRUE, todo |-> Ids(q), t |-> t, die |-> {}, stop |-> FALSE, err |-> 0] /\ last' = t /\ UNCHANGED <<q, par, idx, prep>>
(* Entries which are visited without anybody being told *)
Silent(id) == /\ run.on /\ ~run.stop /\ id \in run.todo
              /\ \E e \in q : e.id = id /\ \E k \in Kinds(e, run.t) :
                    /\ k \in {"ttl", "drop", "keep"}
                    /\ q' = IF k = "keep" THEN q ELSE q \ {e}
              /\ par.order => \A f \in q : f.id \in run.todo => f.idx >= (CHOOSE e \in q : e.id = id).idx
              /\ run' = [run EXCEPT !.todo = @ \ {id}] /\ UNCHANGED <<par, idx, last, prep>>
Told(id, k, rc) == /\ run.on /\ ~run.stop /\ id \in run.todo
    /\ \E e \in q : /\ e.id = id /\ k \in Kinds(e, run.t)
                    /\ (par.order => \A f \in q : f.id \in run.todo => f.idx >= e.idx)
                    /\ q' = IF k = "push" /\ rc = "notready" THEN q ELSE q \ {e}
    /\ run' = [run EXCEPT !.todo = @ \ {id},
                          !.stop = CASE k = "push" /\ rc = "notready" -> par.order
                                     [] rc = "hard" -> TRUE
                                     [] k = "ret" /\ rc # "ok" -> TRUE
                                     [] OTHER -> FALSE,
                          !.err = IF rc = "hard" \/ (k = "ret" /\ rc # "ok") THEN 1 ELSE 0]
    /\ UNCHANGED <<par, idx, last, prep>>
Attempt(id, rc) == Told(id, "push", rc)
Return(id, rc) == Told(id, "ret", rc)
EndRun(err, count) == /\ run.on /\ (run.stop \/ run.todo = {}) /\ run.err = err /\ count = Cardinality(q)
                      /\ run' = NoRun /\ UNCHANGED <<q, par, idx, last, prep>>
=============================================================================
