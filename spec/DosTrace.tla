------------------------------ MODULE DosTrace ------------------------------
(***************************************************************************)
(* Checks what the real player shows of DosRecorder files.  A line of the  *)
(* trace is one file:                                                      *)
(*   frames  what is in it, up to where it is cut off or not as it should; *)
(*           whole: it isn't                                               *)
(*   ev      <<delay, attributes, cells, title>> for each screen shown     *)
(***************************************************************************)
EXTENDS DosRec, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, st, bad
vars == <<l, i, st, bad>>

R == Trace[l]
ASSUME TLCSet(1, 0)
Init == l = 1 /\ i = 1 /\ st = Start /\ bad = FALSE
GoodNow == i <= Len(R.frames) /\ Good(R.frames[i])
Fine(e, f, x) == /\ e[1] = f.delay
                 /\ Looks(e[3], e[2], x.shown)
                 /\ f.title # <<>> => e[4] = f.title[1]
Do == /\ ~bad /\ l <= Len(Trace) /\ GoodNow
      /\ LET f == R.frames[i]  x == Frame(st, f)
         IN IF i <= Len(R.ev) /\ Fine(R.ev[i], f, x)
            THEN i' = i + 1 /\ st' = x /\ UNCHANGED <<l, bad>>
            ELSE /\ PrintT(<<"MISMATCH", l, i, IF i > Len(R.ev) THEN "missing" ELSE "other", R.res,
                            IF i > Len(R.ev) THEN <<>>
                            ELSE <<R.ev[i][1], f.delay, IF Len(R.ev[i][3]) # W * H THEN 0
                                    ELSE {k \in 1..W * H : ~Looks(<<R.ev[i][3][k]>>, R.ev[i][2], <<x.shown[k]>>)}, R.ev[i][4], f.title>> >>)
                 /\ bad' = TRUE /\ UNCHANGED <<l, i, st>>
\* after the last good frame: nothing, except that part of one that is cut off may be shown
Line == /\ ~bad /\ l <= Len(Trace) /\ ~GoodNow
        /\ IF R.res = 0 /\ Len(R.ev) <= i - (IF R.whole THEN 1 ELSE 0)
           THEN l' = l + 1 /\ i' = 1 /\ st' = Start /\ UNCHANGED bad
           ELSE PrintT(<<"MISMATCH", l, i, "ending", R.res, Len(R.ev)>>) /\ bad' = TRUE /\ UNCHANGED <<l, i, st>>
Next == Do \/ Line
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
