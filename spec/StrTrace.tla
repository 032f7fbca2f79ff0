------------------------------ MODULE StrTrace ------------------------------
(***************************************************************************)
(* Checks histories of compressed files: each line is the list of what was *)
(* done to one file of the real library and what its readers got.          *)
(***************************************************************************)
EXTENDS Streams, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, bad
vars == <<svars, l, i, bad>>

Ev == Trace[l].ev[i]
Step(e) ==
  CASE e[1] = "w" -> OpenW
    [] e[1] = "a" -> OpenA
    [] e[1] = "n" -> Write(e[2])
    [] e[1] = "c" -> Close
    [] e[1] = "cut" -> Cut(e[2])
    [] e[1] = "bad" -> Bad(e[2])
    [] e[1] = "r" -> ReadOk(e[2], e[3], e[4]) /\ UNCHANGED svars
    [] e[1] = "tool" -> ToolOk(e[2], e[3], e[4]) /\ UNCHANGED svars

ASSUME TLCSet(1, 0)
Init == New /\ l = 1 /\ i = 1 /\ bad = FALSE
Do == /\ l <= Len(Trace) /\ i <= Len(Trace[l].ev)
      /\ Step(Ev) /\ i' = i + 1 /\ UNCHANGED <<l, bad>>
Line == /\ l <= Len(Trace) /\ i = Len(Trace[l].ev) + 1
        /\ l' = l + 1 /\ i' = 1 /\ UNCHANGED bad
        /\ len' = <<>> /\ open' = FALSE /\ low' = 0 /\ fault' = "none"
Fail == /\ ~bad /\ l <= Len(Trace) /\ i <= Len(Trace[l].ev) /\ ~ENABLED Do
        /\ PrintT(<<"MISMATCH", l, Ev, len, low, fault>>)
        /\ bad' = TRUE /\ l' = Len(Trace) + 2 /\ UNCHANGED <<svars, i>>
Next == Do \/ Line \/ Fail
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
