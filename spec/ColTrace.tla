------------------------------ MODULE ColTrace ------------------------------
(* Checks recorded conversions of colours: a line of the trace is a batch of  *)
(* <<mode, value, mode asked for, result>>.                                   *)
EXTENDS Colors, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Wrong(r) == {i \in DOMAIN r.all : LET x == r.all[i] IN ~Converted(x[1], x[2], x[3], x[4])}
Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ LET w == Wrong(Trace[l]) IN
           IF w = {} THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Trace[l].all[CHOOSE i \in w : TRUE]>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
