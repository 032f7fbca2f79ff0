------------------------------ MODULE NameTrace ------------------------------
(* Each line is one question to the library, or one run of a program. *)
EXTENDS Names, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
R == Trace[l]
Ok == CASE R.op = "find" -> R.got = Format(IF R.rw = "w" THEN Written ELSE Played, R.asked, R.name, R.default)
        [] R.op = "rec" -> RecOk(R.asked, R.name, R.date, R.status, R.files, R.kept)
        [] R.op = "list" -> RefusedOk(IF R.rw = "w" THEN Written ELSE Played, R.asked, R.status, R.left, R.listed)
        [] R.op = "write" -> WriteOk(R.asked, R.name, R.res, R.files, R.kept)
        [] R.op = "play" -> PlayOk(R.asked, R.name, R.res, R.true, R.raw, R.text, R.shown)
        [] R.op = "stream" -> StreamOk(R.name, R.files, R.kept)
        [] R.op = "read" -> ReadOk(R.name, R.comp, R.data, R.bytes, R.got)
        [] R.op = "ext" -> R.got = (IF R.asked \in DOMAIN (IF R.rw = "w" THEN Written ELSE Played) THEN
                                       (IF R.rw = "w" THEN Written ELSE Played)[R.asked] ELSE "")
Why == IF R.op \in {"read", "play"} THEN R.op ELSE R
ASSUME TLCSet(1, 0)
Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Why>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
