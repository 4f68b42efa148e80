------------------------------ MODULE BrokerMC ------------------------------
(* Instance 1 writes (two threads) to 2 and 3; 2 forwards to 3.  All kinds of outputs of 1 and 2. *)
EXTENDS Broker, TLC
CONSTANTS NMsg
MCThreads == {2, 4, 5}
VARIABLES hist,  \* per reader: messages handed to it <<sender, index>>
          n
mcvars == <<vars, hist, n>>
B == {TRUE, FALSE}
Confs == {<<[snd |-> {2}, dup |-> FALSE, slot |-> FALSE, bs |-> b1, filter |-> 0, inv |-> FALSE],
            [snd |-> {1}, dup |-> d2, slot |-> FALSE, bs |-> TRUE, filter |-> f, inv |-> FALSE],
            [snd |-> {1}, dup |-> FALSE, slot |-> FALSE, bs |-> TRUE, filter |-> 0, inv |-> FALSE]>> : b1 \in B, d2 \in B, f \in {0, 2}}
MCInit == /\ \E c \in Confs, d \in B, s \in B : BInit([c EXCEPT ![1].dup = d, ![1].slot = s])
          /\ hist = [r \in 1..3 |-> <<>>] /\ n = 0
Msg(nh, top) == [id |-> n + 1, nh |-> nh, top |-> top, src |-> 0]
Begin == \/ /\ n < NMsg
            /\ \E t \in {4, 5}, nh \in {{}, {2}, {3}}, top \in {1, 3} : WriteBegin(t, 1, <<Msg(nh, top)>>)
            /\ n' = n + 1 /\ UNCHANGED hist
         \/ /\ n + 2 <= NMsg
            /\ WriteBegin(4, 1, <<Msg({}, 1), [Msg({}, 2) EXCEPT !.id = n + 2]>>)
            /\ n' = n + 2 /\ UNCHANGED hist
ReadAny(r) == \E s \in Insts : \E k \in 1..Len(log[s]) : ReadFrom(r, s, k) /\ hist' = [hist EXCEPT ![r] = Append(@, <<s, k>>)] /\ UNCHANGED n
(* 2 passes on what it got *)
Forward == /\ hist[2] # <<>> /\ Len(log[2]) + Len(pend[2].ms) < Len(hist[2])
           /\ LET x == hist[2][Len(hist[2])] IN WriteBegin(2, 2, <<[log[1][x[2]] EXCEPT !.src = -1, !.nh = {}]>>)
           /\ UNCHANGED <<hist, n>>
MCNext == \/ Begin \/ Forward
          \/ \E r \in Insts : ReadAny(r)
          \/ \E t \in {2, 4, 5} : (PublishNext(t) \/ WriteEnd(t, TRUE, 0)) /\ UNCHANGED <<hist, n>>
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
Of(r, s) == SelectSeq(hist[r], LAMBDA x : x[1] = s)
InOrder == \A r \in Insts, s \in Insts : ~Compete(s) => \A i, j \in 1..Len(Of(r, s)) : i < j => Of(r, s)[i][2] < Of(r, s)[j][2]
Once == \A r \in Insts : \A i, j \in 1..Len(hist[r]) : hist[r][i] = hist[r][j] => i = j
OneOfCompeting == \A s \in Insts : Compete(s) => \A r, q \in Readers(s) : r # q => \A i \in 1..Len(hist[r]), j \in 1..Len(hist[q]) : hist[r][i][1] = s => hist[r][i] # hist[q][j]
Addressed == \A r \in Insts : \A i \in 1..Len(hist[r]) : LET m == log[hist[r][i][1]][hist[r][i][2]] IN (m.nh = {} \/ r \in m.nh) /\ (r = 2 /\ cfg[2].filter = 2 => m.top \in {1, 2, 5})
(* the originator does not get its own message back unless it asks for that *)
Backstop == cfg[1].bs => \A i \in 1..Len(hist[1]) : log[hist[1][i][1]][hist[1][i][2]].src # 1
(* a slot is emptied before the next message *)
OneInSlot == \A s \in Insts : cfg[s].slot => \A k \in 1..Len(log[s]) - 1 : IF Compete(s) THEN Gone(s, k) ELSE \A r \in Readers(s) : k <= pos[s][r] \/ ~For(r, log[s][k])
(* everything eventually read by those it is for *)
Done == \A s \in Insts : Drained(s)
Delivered == <>[](Done /\ (\A t \in Threads : ~pend[t].op))
=============================================================================
