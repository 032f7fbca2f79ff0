------------------------------ MODULE TimeTrace ------------------------------
(* Checks recorded results of time arithmetic against Time. *)
EXTENDS Time, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

\* The live recorder sleeps until a frame is due; when it is late, what comes
\* later is late as much.  fr: Seq(<<time of the frame, clock, sleep or <<>>>>)
RECURSIVE LiveR(_, _, _)
LiveR(fr, i, origin) ==
  \/ i > Len(fr)
  \/ LET d == Minus(Plus(fr[i][1], origin), fr[i][2]) IN
     IF Less(Zero, d) THEN fr[i][3] = d /\ LiveR(fr, i + 1, origin)
     ELSE fr[i][3] = <<>> /\ LiveR(fr, i + 1, Minus(origin, d))

Ok(r) ==
  CASE r.op = "add" -> r.r = Plus(r.a, r.b)
    [] r.op = "sub" -> r.r = Minus(r.a, r.b)
    [] r.op = "cmp" -> r.r = Cmp(r.a, r.b)
    [] r.op = "mul" -> IsTime(r.r) /\ IsMul(r.r, r.a, r.m)
    [] r.op = "div" -> IsTime(r.r) /\ IsDiv(r.r, r.a, r.m)
    [] r.op = "live" -> LiveR(r.fr, 1, Minus(r.clock, r.start))
    [] r.op = "play" -> /\ Len(r.got) = Len(r.clk)
                        /\ r.got[1] = r.clk[1]
                        /\ \A i \in 2..Len(r.clk) : r.got[i] = Minus(r.clk[i], r.clk[i - 1])

Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok(Trace[l]) THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Trace[l]>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
