------------------------------- MODULE Broker -------------------------------
(* Instances of RRR (1..N) exchanging messages through the message broker.  Instance i reads from  *)
(* the instances in cfg[i].snd.  A sender has one output: buffered or a single slot, duplicated to *)
(* all its readers or competed for by them.                                                        *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES cfg,   \* per instance [snd (set), dup, slot, bs, filter, inv]
          log,   \* per sender: everything it has made readable, in order
          pos,   \* per sender and reader: last index done (each reader has its own view, or is alone)
          tak,   \* per sender: indices taken by one of the competing readers
          pend,  \* per thread: the write in progress
          cur,   \* per reader: source of the message it is being handed
          ids,   \* unique ids handed out by an instance
          down   \* messages need not be read any longer, since
vars == <<cfg, log, pos, tak, pend, cur, ids, down>>
Threads == 1..50
N == Len(cfg)
Insts == 1..N
Readers(s) == {r \in Insts : s \in cfg[r].snd}
Compete(s) == ~cfg[s].dup /\ Cardinality(Readers(s)) > 1

Topic == << <<>>, <<"a">>, <<"a","b">>, <<"b">>, <<"b","c">>, <<"a","b","c">> >>
Filter == << <<>>, <<"a">>, <<"a","#">>, <<"+","b">>, <<"#">>, <<"b","+">>, <<"+">> >>
RECURSIVE Match(_, _)
Match(f, t) == IF f = <<>> \/ t = <<>> THEN FALSE
               ELSE IF f[1] = "#" THEN TRUE
               ELSE IF f[1] # "+" /\ f[1] # t[1] THEN FALSE
               ELSE IF Len(f) = 1 /\ Len(t) = 1 THEN TRUE ELSE Match(Tail(f), Tail(t))

(* Message m is for reader r: addressed to it, wanted by its topic filter, not one of its own *)
For(r, m) == /\ (m.nh = {} \/ r \in m.nh)
             /\ (cfg[r].filter = 0 \/ (Match(Filter[cfg[r].filter + 1], Topic[m.top + 1]) # cfg[r].inv))
             /\ (cfg[r].bs => m.src # r)
NothingFor(s, r) == \A k \in pos[s][r] + 1 .. Len(log[s]) : ~For(r, log[s][k])
(* A competing reader discards what is not for it *)
Gone(s, k) == k \in tak[s] \/ (\E r \in Readers(s) : ~For(r, log[s][k]))
Drained(s) == IF Compete(s) THEN \A k \in 1..Len(log[s]) : Gone(s, k) ELSE \A r \in Readers(s) : NothingFor(s, r)

BInit(c) == /\ cfg = c
            /\ log = [s \in 1..Len(c) |-> <<>>]
            /\ pos = [s \in 1..Len(c) |-> [r \in 1..Len(c) |-> 0]]
            /\ tak = [s \in 1..Len(c) |-> {}]
            /\ pend = [t \in Threads |-> [op |-> FALSE, s |-> 0, ms |-> <<>>]]
            /\ cur = [r \in 1..Len(c) |-> 0]
            /\ ids = [s \in 1..Len(c) |-> {}]
            /\ down = -1

Readable(s, m) == /\ (cfg[s].slot => Drained(s)) = TRUE        \* the slot holds one message
                  /\ log' = [log EXCEPT ![s] = Append(@, m)]
(* A thread writes: messages it brings, or makes while inside (Make) *)
WriteBegin(t, s, ms) == /\ ~pend[t].op
                        /\ pend' = [pend EXCEPT ![t] = [op |-> TRUE, s |-> s, ms |-> [k \in 1..Len(ms) |-> IF ms[k].src = -1 THEN [ms[k] EXCEPT !.src = cur[t]] ELSE ms[k]]]]
                        /\ UNCHANGED <<cfg, log, pos, tak, cur, ids, down>>
Make(t, s, m) == /\ pend[t].op /\ pend[t].s = s
                 /\ pend' = [pend EXCEPT ![t].ms = Append(@, m)]
                 /\ UNCHANGED <<cfg, log, pos, tak, cur, ids, down>>
PublishNext(t) == /\ pend[t].op /\ pend[t].ms # <<>>
                  /\ Readable(pend[t].s, Head(pend[t].ms))
                  /\ pend' = [pend EXCEPT ![t].ms = Tail(@)]
                  /\ UNCHANGED <<cfg, pos, tak, cur, ids, down>>
(* Only a shutdown makes a write fail, and then it does not hang *)
WriteEnd(t, ok, now) == /\ pend[t].op
                        /\ IF ok THEN pend[t].ms = <<>> ELSE down >= 0
                        /\ (down >= 0 => now <= down + 1500)
                        /\ pend' = [pend EXCEPT ![t].op = FALSE, ![t].ms = <<>>]
                        /\ UNCHANGED <<cfg, log, pos, tak, cur, ids, down>>
(* Reader r is handed message id *)
ReadFrom(r, s, k) == /\ s \in cfg[r].snd /\ k \in 1..Len(log[s])
                     /\ For(r, log[s][k]) = TRUE
                     /\ IF Compete(s) THEN /\ k \notin tak[s]
                                           /\ tak' = [tak EXCEPT ![s] = @ \cup {k}] /\ UNCHANGED pos
                        ELSE /\ k > pos[s][r]
                             /\ (\A j \in pos[s][r] + 1 .. k - 1 : ~For(r, log[s][j])) = TRUE
                             /\ pos' = [pos EXCEPT ![s][r] = k] /\ UNCHANGED tak
                     /\ cur' = [cur EXCEPT ![r] = IF log[s][k].src = 0 THEN s ELSE log[s][k].src]
                     /\ UNCHANGED <<cfg, log, pend, ids, down>>
Read(r, id, top) == \E s \in cfg[r].snd : \E k \in 1..Len(log[s]) : log[s][k].id = id /\ log[s][k].top = top /\ ReadFrom(r, s, k)
UniqueId(s, v) == v \notin ids[s] /\ ids' = [ids EXCEPT ![s] = @ \cup {v}] /\ UNCHANGED <<cfg, log, pos, tak, pend, cur, down>>
Shutdown(now) == down = -1 /\ down' = now /\ UNCHANGED <<cfg, log, pos, tak, pend, cur, ids>>
(* After a while without writes everything has been read *)
Quiet(count) == /\ \A t \in Threads : ~pend[t].op
                /\ (\A s \in Insts : Readers(s) # {} => (Drained(s) /\ count[s] = 0)) = TRUE
                /\ UNCHANGED vars
=============================================================================
