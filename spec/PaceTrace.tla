------------------------------ MODULE PaceTrace ------------------------------
(* Checks recorded runs of plain text and live recorders and players: each  *)
(* line of the trace is one of them.                                        *)
EXTENDS Pace, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Tol == 2000                     \* a refactoring may sleep by milliseconds
Piece == 250000

Ok(r) ==
  CASE r.op = "text" -> r.res = 1 /\ BaudOk(r.n, r.ev, Piece)
    \* what is written as plain text is the text itself
    [] r.op = "ansi" -> r.res = 1 /\ r.got = r.n
    \* live output: and all that was given is there as soon as it was
    [] r.op = "out" -> /\ r.res = 1
                       /\ LiveOutOk(r.start, r.opened, r.fr, Tol)
                       /\ NoDrift(r.start, r.opened, r.fr, Tol)
                       /\ \A i \in DOMAIN r.fr : r.fr[i].there = SumN(r.fr, i)
    [] r.op = "in" -> r.res = 1 /\ LiveInOk(r.opened, r.arr, r.ev, 10)

Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok(Trace[l]) THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Trace[l]>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
