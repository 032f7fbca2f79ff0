------------------------------ MODULE ExitTrace ------------------------------
(***************************************************************************)
(* Checks runs of programs that use compressed streams and exit, under a   *)
(* chosen schedule: each line is one run; "gone" tells how much each file  *)
(* held when the process was no more.  What the compressors do in between  *)
(* (Work, Finish) isn't seen.                                              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES st, room, refused, written, done, finished, prog, l, i, bad
Plenty == 2000000000
Underway == 15000000        \* no compressor keeps that much
Fits(k) == IF k = Plenty THEN k ELSE IF k < 6000 THEN 0 ELSE k - (k \div 20) - 5000
B == INSTANCE ExitBarrier WITH Streams <- 0..7, Slack <- Underway, Sure <- Fits
bvars == <<st, room, written, done, finished, refused, prog>>
vars == <<bvars, l, i, bad>>

Ev == Trace[l].ev[i]
\* Work and Finish of all, as far as the files say, then Gone
Fresh == /\ st' = [s \in 0..7 |-> "none"] /\ written' = [s \in 0..7 |-> 0] /\ room' = [s \in 0..7 |-> Plenty]
         /\ done' = [s \in 0..7 |-> 0] /\ finished' = {} /\ refused' = {} /\ prog' = "runs"
Ended(d) ==
  LET n(s) == IF \E k \in DOMAIN d : d[k][1] = s THEN d[CHOOSE k \in DOMAIN d : d[k][1] = s] ELSE <<s, 0, 0, TRUE>>
  IN /\ prog = "exits"
     /\ done' = [s \in 0..7 |-> n(s)[2]]
     /\ finished' = {s \in 0..7 : st[s] = "closed" /\ n(s)[4] /\ n(s)[2] = written[s] /\ n(s)[3] = written[s]}
     /\ \A s \in 0..7 : done'[s] <= written[s] /\ (B!Due(s) => s \in finished')
     /\ prog' = "gone" /\ UNCHANGED <<st, room, refused, written>>
Step(e) ==
  CASE e[1] = "o" -> B!Open(e[2])
    [] e[1] = "m" -> st[e[2]] = "none" /\ room' = [room EXCEPT ![e[2]] = e[3]] /\ UNCHANGED <<st, written, done, finished, refused, prog>>
    [] e[1] = "n" -> B!Refuse(e[2], e[3])
    [] e[1] = "w" -> B!Write(e[2], e[3])
    [] e[1] = "c" -> B!Close(e[2])
    [] e[1] = "x" -> B!Exit
    [] e[1] = "r" -> e[2] = e[3] /\ UNCHANGED bvars      \* a reader of a file got all of it
    [] e[1] = "gone" -> Ended(e[2])
    [] OTHER -> FALSE

ASSUME TLCSet(1, 0)
Init == /\ st = [s \in 0..7 |-> "none"] /\ written = [s \in 0..7 |-> 0] /\ room = [s \in 0..7 |-> Plenty]
        /\ done = [s \in 0..7 |-> 0] /\ finished = {} /\ refused = {} /\ prog = "runs"
        /\ l = 1 /\ i = 1 /\ bad = FALSE
Do == /\ l <= Len(Trace) /\ i <= Len(Trace[l].ev)
      /\ Step(Ev) /\ i' = i + 1 /\ UNCHANGED <<l, bad>>
Line == /\ l <= Len(Trace) /\ i = Len(Trace[l].ev) + 1 /\ prog = "gone"
        /\ l' = l + 1 /\ i' = 1 /\ UNCHANGED bad
        /\ Fresh
Fail == /\ ~bad /\ l <= Len(Trace) /\ ~ENABLED Do /\ ~ENABLED Line
        /\ PrintT(<<"MISMATCH", l, IF i <= Len(Trace[l].ev) THEN Ev ELSE <<"never gone">>, written>>)
        /\ bad' = TRUE /\ l' = Len(Trace) + 2 /\ UNCHANGED <<bvars, i>>
Next == Do \/ Line \/ Fail
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
NothingLost == B!NothingLost
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
