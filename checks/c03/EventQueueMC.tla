---------------------------- MODULE EventQueueMC ----------------------------
EXTENDS EventQueue
CONSTANTS Passes
VARIABLES sig, con, cnt   \* totals signalled and consumed
Next == \/ UNCHANGED <<sig, con, cnt>> /\ \/ \E t \in Threads, b \in BOOLEAN : Cancel(t) \/ PassEnd(t, b)
                                          \/ \E f \in Fn, now \in BOOLEAN : Pause(f, paused[f], now)
                                          \/ \E f \in Fn, n \in 1..MaxAmount : Fail(f, n, "err")
                                          \/ \E r \in {"ok", "err", "exit"} : Periodic(r) \/ DEnd(r)
                                          \/ DBegin \/ Quiet
        \/ UNCHANGED <<sig, con>> /\ cnt < Passes /\ cnt' = cnt + 1 /\ \E t \in Threads, f \in Fn, n \in 1..2 : PassBegin(t, f, n)
        \/ UNCHANGED <<con, cnt>> /\ \E t \in Threads : Signal(t) /\ sig' = [sig EXCEPT ![pass[t].f] = @ + pass[t].n]
        \/ UNCHANGED <<sig, cnt>> /\ \E f \in Fn, n \in 1..MaxAmount, c \in 0..MaxAmount : (f \in loose => n <= pend[f]) /\ Handle(f, n, c) /\ con' = [con EXCEPT ![f] = @ + c]
Init == EInit /\ sig = [f \in Fn |-> 0] /\ con = sig /\ cnt = 0
Spec == Init /\ [][Next]_<<ev, sig, con, cnt>>
Nothing == \A f \in Fn : con[f] <= sig[f]
Total == \A f \in Fn : sig[f] - con[f] = pend[f]
PausedNotCalled == [][\A f \in Fn : paused[f] => con'[f] = con[f]]_<<ev, sig, con, cnt>>
AllDelivered == (ENABLED Quiet /\ loose = {}) => con = sig
=============================================================================
