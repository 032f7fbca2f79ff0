----------------------------- MODULE SessTrace -----------------------------
(***************************************************************************)
(* Checks recorded sessions of the real termrec against Session.  A line   *)
(* of the trace: utf, size: of the terminal; raw; frames: the recording;   *)
(* whole: it could be read; ev: the events; status: termrec's own.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, cs, bad       \* cs: the possible states, each with the number of the frame that's next
vars == <<l, i, cs, bad>>
R == Trace[l]
S == INSTANCE Session WITH Empty <- "", Raw <- R.raw

ASSUME TLCSet(1, 0)
Init == l = 1 /\ i = 0 /\ cs = {} /\ bad = FALSE

Do(e, st, k) ==
  LET Same(x) == {[st |-> x, k |-> k]}
  IN CASE e[1] = "out" -> Same(S!Out(st, e[2]))
       [] e[1] = "in" -> Same(S!In(st, e[2]))
       [] e[1] = "size" -> Same(S!Resize(st, <<e[2], e[3]>>))
       [] e[1] = "sig" -> Same(S!Signal(st, e[2]))
       [] e[1] = "t" -> Same(S!Tick(st, e[2]))
       [] e[1] = "exit" -> Same(S!Exit(st))
       [] e[1] = "eof" -> Same(S!Eof(st))
       [] e[1] = "gone" -> Same(S!Gone(st))
       [] e[1] = "go" -> Same(S!Go(st))
       [] e[1] = "intr" -> Same(S!Intr(st))
       [] e[1] = "shown" -> Same(S!Shown(st, e[2]))
       [] e[1] = "got" -> Same(S!Got(st, e[2]))
       [] e[1] = "told" -> Same(S!Told(st, <<e[2], e[3]>>))
       [] e[1] = "kill" -> Same(S!Kill(st, e[2] = 1, e[3]))
       [] e[1] = "wait" -> S!Wait(st, e[2] = 1, R.frames, k)
       [] e[1] = "end" -> S!End(st, e[2] = 1, R.whole, R.frames, k)
       [] OTHER -> Same(S!Bad(st, "must not happen"))

Start == /\ ~bad /\ l <= Len(Trace) /\ i = 0
         /\ cs' = {[st |-> S!Begin(R.utf, R.size), k |-> 1]} /\ i' = 1 /\ UNCHANGED <<l, bad>>
Step == /\ ~bad /\ l <= Len(Trace) /\ i \in 1..Len(R.ev)
        /\ LET n == UNION {Do(R.ev[i], c.st, c.k) : c \in cs}  good == {c \in n : c.st.ok}
           IN IF good # {} THEN cs' = good /\ i' = i + 1 /\ UNCHANGED <<l, bad>>
              ELSE PrintT(<<"MISMATCH", l, i, R.ev[i], {<<c.st.why, c.k>> : c \in n}>>) /\ bad' = TRUE /\ UNCHANGED <<l, i, cs>>
Line == /\ ~bad /\ l <= Len(Trace) /\ i = Len(R.ev) + 1 /\ i > 0
        /\ IF R.status = 0 /\ (\E c \in cs : c.st.ended)
           THEN l' = l + 1 /\ i' = 0 /\ cs' = {} /\ UNCHANGED bad
           ELSE PrintT(<<"MISMATCH", l, i, "status", R.status>>) /\ bad' = TRUE /\ UNCHANGED <<l, i, cs>>
Next == Start \/ Step \/ Line
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
