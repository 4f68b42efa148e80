----------------------------- MODULE EventQueue -----------------------------
(* Event queue: signalled amounts waiting to be consumed, per function. *)
EXTENDS Integers, FiniteSets
CONSTANTS Fn, Threads, MaxAmount
VARIABLES pend,    \* signalled and not consumed
          pass,    \* signalling threads: idle, or the function, the amount and whether it has taken place
          paused,
          disp,    \* dispatch: idle, running, or the result it must have
          loose    \* functions which had a failing handler: what was taken by it may be gone
ev == <<pend, pass, paused, disp, loose>>
Idle == [f |-> -1, n |-> 0, s |-> "idle"]
EInit == /\ pend = [f \in Fn |-> 0] /\ pass = [t \in Threads |-> Idle]
         /\ paused = [f \in Fn |-> FALSE] /\ disp = "idle" /\ loose = {}
PassBegin(t, f, n) == pass[t].s = "idle" /\ pass' = [pass EXCEPT ![t] = [f |-> f, n |-> n, s |-> "begun"]] /\ UNCHANGED <<pend, paused, disp, loose>>
(* hidden *)
Signal(t) == /\ pass[t].s = "begun" /\ pend' = [pend EXCEPT ![pass[t].f] = @ + pass[t].n]
             /\ pass' = [pass EXCEPT ![t].s = "done"] /\ UNCHANGED <<paused, disp, loose>>
(* the retry callback is asked only when there is no room, and what it answers ends it *)
Cancel(t) == pass[t].s = "begun" /\ pass' = [pass EXCEPT ![t].s = "cancelled"] /\ UNCHANGED <<pend, paused, disp, loose>>
PassEnd(t, ok) == pass[t].s = (IF ok THEN "done" ELSE "cancelled") /\ pass' = [pass EXCEPT ![t] = Idle] /\ UNCHANGED <<pend, paused, disp, loose>>
Pause(f, was, now) == disp = "running" /\ was = paused[f] /\ paused' = [paused EXCEPT ![f] = now] /\ UNCHANGED <<pend, pass, disp, loose>>
(* consumed: how much of the amount the handler took *)
Handle(f, n, consumed) ==
    /\ disp = "running" /\ ~paused[f] /\ n \in 1..MaxAmount /\ consumed \in 0..n
    /\ (f \notin loose => n <= pend[f]) /\ pend' = [pend EXCEPT ![f] = IF @ >= consumed THEN @ - consumed ELSE 0]
    /\ UNCHANGED <<pass, paused, disp, loose>>
Fail(f, n, ret) ==
    /\ disp = "running" /\ ~paused[f] /\ n \in 1..MaxAmount /\ (f \notin loose => n <= pend[f])
    /\ loose' = loose \cup {f} /\ disp' = ret /\ UNCHANGED <<pend, pass, paused>>
Periodic(ret) == disp = "running" /\ disp' = (IF ret = "ok" THEN "running" ELSE ret) /\ UNCHANGED <<pend, pass, paused, loose>>
DBegin == disp = "idle" /\ disp' = "running" /\ UNCHANGED <<pend, pass, paused, loose>>
DEnd(ret) == disp = ret /\ disp' = "idle" /\ UNCHANGED <<pend, pass, paused, loose>>
(* the dispatching thread has found nothing to do for some time *)
Quiet == /\ disp = "idle" /\ \A t \in Threads : pass[t].s = "idle"
         /\ \A f \in Fn : f \in loose \/ pend[f] = 0
         /\ UNCHANGED ev
=============================================================================
