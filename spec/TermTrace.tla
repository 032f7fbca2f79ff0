----------------------------- MODULE TermTrace ------------------------------
(* Checks recorded runs of programs on a terminal: each line of the trace is *)
(* one, a sequence of what was done to it and of what it was waited for to   *)
(* do, with the settings at that time.                                       *)
EXTENDS TermMode, TLC, SequencesExt, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l,            \* the run
          i,            \* how far in it
          s,            \* as TermMode has it
          asked,        \* the program has been asked to end, to stop
          bad
Run == Trace[l]
E == Run.steps[i]
Sees(t) == /\ E.got
           /\ t[2] = "own" => E.own
           /\ t[2] = "raw" => E.raw
\* how it says how it went
Says == CASE Run.help -> Run.status = 0
          [] Run.kind = "refused" -> Run.status > 0 /\ Run.told
          [] OTHER -> TRUE
Do ==
  LET set(t, a) == s' = t /\ asked' = a IN
  CASE E.a \in {"ask", "stop"} -> set(s, asked \cup {E.a})
    [] E.a = "key" -> set(s, asked)
    [] E.a = "raw" -> \E t \in Takes(s) : Sees(t) /\ set(t, asked)
    [] E.a = "stopped" -> \E t \in Suspends(s) : Sees(t) /\ set(t, asked \ {"stop"})
    [] E.a = "ended" -> /\ "ask" \in asked \/ Run.kind = "refused"
                        /\ \E t \in Ends(s) : Sees(t) /\ set(t, {}) /\ Says
    [] E.a = "fg" -> \E t \in Continues(s, TRUE) : set(t, asked)
    [] E.a = "bg" -> \E t \in Continues(s, FALSE) : set(t, asked)
Initially == CHOOSE t \in Starts : TRUE
Init == l = 1 /\ i = 1 /\ s = Initially /\ asked = {} /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF i > Len(Run.steps) THEN l' = l + 1 /\ i' = 1 /\ s' = Initially /\ asked' = {} /\ UNCHANGED bad
           ELSE IF ENABLED Do THEN Do /\ i' = i + 1 /\ UNCHANGED <<l, bad>>
           ELSE PrintT(<<"MISMATCH", l, i, Run>>) /\ bad' = TRUE /\ UNCHANGED <<l, i, s, asked>>
Spec == Init /\ [][Next]_<<l, i, s, asked, bad>>
Consistent == Given(s) /\ Usable(s)
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, FoldLeft(LAMBDA n, r : n + Len(r.steps) + 1, 0, Trace)>>)
=============================================================================
