----------------------------- MODULE HistTrace -----------------------------
(***************************************************************************)
(* What a terminal looks like is a function of its history alone: the size *)
(* it was made with and the bytes, resizes and resets since.  How the      *)
(* bytes were cut into calls, whether the terminal is a copy, and what has *)
(* happened to others (the original of a copy included) does not matter.   *)
(*                                                                         *)
(* hist[k] is the history of terminal k: a copy takes over that of its     *)
(* original.  Look[k] is what it looked like when last seen.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Slots == 8
VARIABLES l, hist, look, bad
vars == <<l, hist, look, bad>>

None == [sx |-> -1]

After(h, r) ==
  LET k == r.k + 1 IN
  CASE r.op = "I" -> [h EXCEPT ![k] = <<r.a, r.b, r.c>>]
    [] r.op \in {"W", "p"} -> [h EXCEPT ![k] = @ \o r.w]
    [] r.op = "R" -> [h EXCEPT ![k] = @ \o <<1000, r.a, r.b>>]
    [] r.op = "Z" -> [h EXCEPT ![k] = Append(@, 2000)]
    [] r.op = "C" -> [h EXCEPT ![r.a + 1] = h[k]]
    [] r.op = "F" -> [h EXCEPT ![k] = <<>>]
    [] OTHER -> h

Which(r) == IF r.op = "C" THEN r.a + 1 ELSE r.k + 1

Init == /\ l = 1 /\ bad = FALSE
        /\ hist = [k \in 1..Slots |-> <<>>]
        /\ look = [k \in 1..Slots |-> None]

Next ==
  /\ ~bad /\ l <= Len(Trace)
  /\ LET r == Trace[l]
         h == After(hist, r)
         k == Which(r)
         twins == {j \in 1..Slots : j # k /\ hist[j] = h[k] /\ look[j] # None}
                    \cup (IF r.op # "I" /\ hist[k] = h[k] /\ look[k] # None THEN {k} ELSE {})
     IN IF r.op = "F"
        THEN hist' = h /\ look' = [look EXCEPT ![k] = None] /\ l' = l + 1 /\ bad' = FALSE
        ELSE IF r.o.ok = 1 /\ \A j \in twins : look[j] = r.o
        THEN hist' = h /\ look' = [look EXCEPT ![k] = r.o] /\ l' = l + 1 /\ bad' = FALSE
        ELSE /\ PrintT(<<"MISMATCH", l, r.op, "same history, different look", twins, r.k>>)
             /\ bad' = TRUE /\ UNCHANGED <<l, hist, look>>

Spec == Init /\ [][Next]_vars
SpecOk == \A k \in 1..Slots : look[k] # None => hist[k] # <<>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
