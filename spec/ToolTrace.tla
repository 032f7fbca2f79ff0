------------------------------ MODULE ToolTrace ------------------------------
(* Each line of the trace is one run of termcat or termtime. *)
EXTENDS Tools, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
R == Trace[l]
Set(s) == {s[i] : i \in DOMAIN s}
Ok == IF R.op = "cat" THEN CatOk(R.in, R.dest, R.fmt, R.whole, R.out, R.status, Set(R.said))
      ELSE TimeOk(R.in, R.dest, R.lines, R.status, Set(R.said))
Why == IF R.op = "cat" THEN <<R.dest, R.fmt, R.whole, SameFile(R.fmt, Join(R.in), R.out), R.status, R.said, Join(R.in), R.out>>
       ELSE <<R.dest, R.lines, R.status, R.said, [i \in DOMAIN R.in |-> Length(R.in[i])]>>
ASSUME TLCSet(1, 0)
Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Why>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
