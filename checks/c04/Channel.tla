------------------------------ MODULE Channel ------------------------------
(* Channel between two processes. Messages are numbered in writing order; those waiting are rd..wr-1. *)
EXTENDS Integers
CONSTANTS Slots
VARIABLES rd, wr,
          w,  \* writer: idle, begun, copied (content is in place), full, failed, done
          r,  \* reader: idle, begun, none, kept (consumer failed), got (consumer succeeded), taken
          k   \* counting: idle, begun, or the number found
cv == <<rd, wr, w, r, k>>
CInit == rd = 1 /\ wr = 1 /\ w = "idle" /\ r = "idle" /\ k = "idle"
Waiting == wr - rd
(* --- writer. Hidden: FindFull, AutoCopy, Publish --- *)
(* auto: the writer does not see when the content is copied *)
WBegin(auto) == w = "idle" /\ w' = (IF auto THEN "auto" ELSE "begun") /\ UNCHANGED <<rd, wr, r, k>>
FindFull == w \in {"begun", "auto"} /\ Waiting = Slots /\ w' = "full" /\ UNCHANGED <<rd, wr, r, k>>
Copy(ok) == w = "begun" /\ Waiting < Slots /\ w' = (IF ok THEN "copied" ELSE "failed") /\ UNCHANGED <<rd, wr, r, k>>
AutoCopy == w = "auto" /\ Waiting < Slots /\ w' = "copied" /\ UNCHANGED <<rd, wr, r, k>>
Publish == w = "copied" /\ Waiting < Slots /\ wr' = wr + 1 /\ w' = "done" /\ UNCHANGED <<rd, r, k>>
(* fault: the operating system refused memory *)
WEnd(ret, fault) == /\ (ret = "ok" /\ w = "done") \/ (ret = "full" /\ w = "full") \/ (ret = "error" /\ (w = "failed" \/ (fault /\ w \in {"begun", "auto"})))
                    /\ w' = "idle" /\ UNCHANGED <<rd, wr, r, k>>
(* --- reader. Hidden: FindNone, Take --- *)
RBegin == r = "idle" /\ r' = "begun" /\ UNCHANGED <<rd, wr, w, k>>
FindNone == r = "begun" /\ (Waiting = 0 \/ w # "idle") /\ r' = "none" /\ UNCHANGED <<rd, wr, w, k>>
Give(id, ok) == r = "begun" /\ Waiting > 0 /\ id = rd /\ r' = (IF ok THEN "got" ELSE "kept") /\ UNCHANGED <<rd, wr, w, k>>
Take == r = "got" /\ rd' = rd + 1 /\ r' = "taken" /\ UNCHANGED <<wr, w, k>>
REnd(ret, cnt, fault) ==
    /\ \/ ret = "none" /\ cnt = 0 /\ r = "none"
       \/ ret = "ok" /\ cnt = 1 /\ r = "taken"
       \/ ret = "error" /\ cnt = 0 /\ (r = "kept" \/ (fault /\ r = "begun"))
       \/ ret = "error" /\ cnt = 1 /\ fault /\ r = "taken"
    /\ r' = "idle" /\ UNCHANGED <<rd, wr, w, k>>
(* --- number of waiting messages: all of them, the one just taken may still be included --- *)
KBegin == k = "idle" /\ k' = "begun" /\ UNCHANGED <<rd, wr, w, r>>
KLook(n) == k = "begun" /\ (n = Waiting \/ (n = Waiting + 1 /\ r = "taken")) /\ k' = "seen" /\ UNCHANGED <<rd, wr, w, r>>
KEnd == k = "seen" /\ k' = "idle" /\ UNCHANGED <<rd, wr, w, r>>
(* many complete operations in a row, nothing else taking place *)
WMany(n) == w = "idle" /\ Waiting + n <= Slots /\ wr' = wr + n /\ UNCHANGED <<rd, w, r, k>>
RMany(n) == r = "idle" /\ n <= Waiting /\ rd' = rd + n /\ UNCHANGED <<wr, w, r, k>>
=============================================================================
