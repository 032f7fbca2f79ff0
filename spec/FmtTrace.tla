------------------------------ MODULE FmtTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs of the recorders and players: each line of the     *)
(* trace is one file, written or played.                                   *)
(***************************************************************************)
EXTENDS Rec, Json, IOUtils
AC == INSTANCE Asciicast

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

Ok(r) ==
  CASE r.op = "play" /\ r.fmt = "ttyrec" -> r.res = 1 /\ TtyrecOk(r.tok, r.ev)
    [] r.op = "play" /\ r.fmt = "nh_recorder" -> r.res = 1 /\ NhOk(r.tok, r.ev)
    [] r.op = "play" /\ r.fmt = "text" -> r.res = 1 /\ TextOk(r.n, r.ev)
    [] r.op = "rec" /\ r.fmt = "ttyrec" -> r.res = 1 /\ r.tok = TtyrecFile(r.frames)
    [] r.op = "rec" /\ r.fmt = "nh_recorder" -> r.res = 1 /\ NhFileOk(r.start, r.frames, r.tok)
    [] r.op = "rec" /\ r.fmt = "text" -> r.res = 1 /\ r.n = Len(r.frames)
    [] r.op = "cast" -> r.res = 1 /\ AC!PlayOk(r.tok, r.ev)
    [] r.op = "castrec" -> r.res = 1 /\ AC!FileOk(r.ver, r.start, r.size, r.frames, r.tok) /\ AC!PlayOk(r.tok, r.ev)
    [] r.op = "same" -> r.res = 1 /\ CanonB(r.ev) = CanonB(r.other)
    [] r.op = "live" -> /\ r.res = 1 /\ Waits(r.ev)
                        /\ ~Canon(r.ev).bad /\ Canon(r.ev).init # <<"again">>
                        /\ LET RECURSIVE S(_) S(i) == IF i > Len(r.ev) THEN 0
                                                      ELSE (IF r.ev[i][1] = "p" THEN r.ev[i][2] ELSE 0) + S(i + 1)
                           IN S(1) = r.n

Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok(Trace[l]) THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Trace[l]>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
