------------------------------- MODULE TlTrace -------------------------------
(* Checks recorded uses of the timeline against Timeline. *)
EXTENDS Timeline, TLC, Json, IOUtils, Sequences

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Step(r) ==
  CASE r.op = "N" -> r.ok = 1 /\ New(r.fp)
    [] r.op = "L" -> r.ok = 1 /\ t0' = (IF r.start = <<>> THEN Zero ELSE r.start) /\ pending' = Zero /\ frames' = <<>> /\ fp0' = r.fp
    [] r.op = "A" -> AddFrame(r.delays, r.len, r.data, r.fp)
    [] r.op = "V" -> r.i = Found(r.at) /\ r.fp = PrintAt(r.i) /\ r.t = TimeAt(r.i) /\ UNCHANGED tlvars
    [] r.op = "S" -> r.i = Found(r.at) /\ r.t = TimeAt(r.i) /\ UNCHANGED tlvars
    [] r.op = "Q" -> r.fr = WalkFrom(Found(r.at)) /\ UNCHANGED tlvars
    [] r.op = "W" -> r.ok = 1 /\ r.fr = Selected(r.a, r.b) /\ UNCHANGED tlvars
    [] OTHER -> UNCHANGED tlvars

Init == l = 1 /\ bad = FALSE /\ t0 = Zero /\ pending = Zero /\ frames = <<>> /\ fp0 = 0
Good == /\ ~bad /\ l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1 /\ bad' = FALSE
Bad == /\ ~bad /\ l <= Len(Trace) /\ ~ENABLED Step(Trace[l])
       /\ PrintT(<<"MISMATCH", l, Trace[l], "start", t0, "frames", frames>>)
       /\ bad' = TRUE /\ UNCHANGED <<l, tlvars>>
Next == Good \/ Bad
Spec == Init /\ [][Next]_<<l, bad, tlvars>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
