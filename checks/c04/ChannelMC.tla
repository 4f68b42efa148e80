----------------------------- MODULE ChannelMC -----------------------------
EXTENDS Channel
CONSTANTS Max
VARIABLES got \* what the consumer has accepted, in order
LOCAL INSTANCE Sequences
Next == \/ /\ UNCHANGED got
           /\ \/ wr <= Max /\ \E a \in BOOLEAN : WBegin(a)
              \/ FindFull \/ AutoCopy \/ Publish \/ \E b \in BOOLEAN : Copy(b)
              \/ \E ret \in {"ok", "full", "error"}, f \in BOOLEAN : WEnd(ret, f)
              \/ RBegin \/ FindNone \/ Take \/ Give(rd, FALSE)
              \/ \E ret \in {"none", "ok", "error"}, c \in 0..1, f \in BOOLEAN : REnd(ret, c, f)
              \/ KBegin \/ KEnd \/ \E n \in 0..Slots + 1 : KLook(n)
        \/ \E id \in 1..Max : Give(id, TRUE) /\ got' = Append(got, id)
Init == CInit /\ got = << >>
Spec == Init /\ [][Next]_<<cv, got>>
ExactlyOnce == \A i \in DOMAIN got : got[i] = i
Bounded == Waiting \in 0..Slots
Together == DOMAIN got = 1..(rd - 1 + (IF r = "got" THEN 1 ELSE 0))
RefusedUnchanged == [][w = "full" \/ w = "failed" => wr' = wr]_<<cv, got>>
KeptUnchanged == [][r = "kept" \/ r = "none" => rd' = rd]_<<cv, got>>
=============================================================================
