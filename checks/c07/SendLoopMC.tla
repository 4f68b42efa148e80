----------------------------- MODULE SendLoopMC -----------------------------
EXTENDS SendLoop
CONSTANTS N, MaxT, TTL, TIMEOUT
VARIABLES now, pushed, act   \* act: the last call out: [k, id, rc]
mv == <<now, pushed, act>>
None == [k |-> "none", id |-> 0, rc |-> ""]
Pars == [order : BOOLEAN, ttl : {0, TTL}, timeout : {0, TIMEOUT}, action : {"retry", "drop", "ret"}]
Init == \E p \in Pars : SInit(p) /\ now = 10 /\ pushed = {} /\ act = None
Quiet == act' = None
Next == \/ now < MaxT /\ ~run.on /\ now' = now + 1 /\ UNCHANGED <<sv, pushed>> /\ Quiet
        \/ idx < N /\ \E ts \in {now - 1, now} : Prepare(idx + 1, ts, now, idx + 1) /\ UNCHANGED <<now, pushed>> /\ Quiet
        \/ \E id \in Ids(prep) : id \notin pushed /\ Push(id, now) /\ pushed' = pushed \cup {id} /\ UNCHANGED now /\ Quiet
        \/ q # {} /\ Begin(now) /\ UNCHANGED <<now, pushed>> /\ Quiet
        \/ \E id \in 1..N : Silent(id) /\ UNCHANGED <<now, pushed>> /\ act' = [k |-> "silent", id |-> id, rc |-> ""]
        \/ \E id \in 1..N, rc \in {"ok", "soft", "hard", "notready"} :
              Attempt(id, rc) /\ UNCHANGED <<now, pushed>> /\ act' = [k |-> "push", id |-> id, rc |-> rc]
        \/ \E id \in 1..N, rc \in {"ok", "hard"} : Return(id, rc) /\ UNCHANGED <<now, pushed>> /\ act' = [k |-> "ret", id |-> id, rc |-> rc]
        \/ run.on /\ EndRun(run.err, Cardinality(q)) /\ UNCHANGED <<now, pushed>> /\ Quiet
Spec == Init /\ [][Next]_<<sv, mv>>
-----------------------------------------------------------------------------
E(id) == CHOOSE e \in q : e.id = id
Out(id) == now - E(id).ts > par.ttl /\ par.ttl > 0
Late(id) == now - E(id).st > par.timeout /\ par.timeout > 0
(* leaving the queue happens only for a reason *)
OnlyForAReason == [][\A id \in Ids(q) \ Ids(q') :
    \/ act'.id = id /\ act'.k = "push" /\ act'.rc # "notready" /\ ~Out(id) /\ ~Late(id)
    \/ act'.id = id /\ act'.k = "ret" /\ Late(id) /\ ~Out(id) /\ par.action = "ret"
    \/ act'.id = id /\ act'.k = "silent" /\ (Out(id) \/ (Late(id) /\ par.action = "drop"))]_<<sv, mv>>
NothingOld == [][act'.k = "push" /\ act' # act => ~Out(act'.id) /\ ~Late(act'.id)]_<<sv, mv>>
(* an attempt never overtakes one which may be attempted as well *)
Ordered == [][act'.k = "push" /\ act' # act /\ par.order =>
               \A f \in q : f.idx < E(act'.id).idx => (Late(f.id) /\ par.action = "retry")]_<<sv, mv>>
(* when a run ends without error and nothing blocked it, only entries which were not ready or may not be tried are left *)
Finished == [][run.on /\ ~run'.on /\ ~run.stop => \A e \in q : ~Out(e.id)]_<<sv, mv>>
TypeOK == \A e \in q : e.id \in pushed
=============================================================================
