------------------------------- MODULE MCTools -------------------------------
(***************************************************************************)
(* How termcat and termtime go: input after input, the player of each      *)
(* calls back with each delay, which moves the clock on, and each piece of *)
(* text, which is written with the clock's time; termtime sets the clock   *)
(* back between inputs.  TLC checks that what they come to is what Tools   *)
(* says, for all lists of inputs, and that the times written never go      *)
(* back.                                                                   *)
(***************************************************************************)
EXTENDS Tools

CONSTANTS MaxIn, MaxEv, Dests

Delays == {Zero, <<0, 0, 600000>>, <<0, 65535, 999999>>}
Ev == {<<"w", d>> : d \in Delays} \cup {<<"p", "">>, <<"p", "61">>}
Names == {"a", "b"}
SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}
Inputs == [name : {"a"}, ok : {FALSE}, fmt : {"x"}, ev : {<<>>}, s : {""}]
          \cup [name : {"b"}, ok : {TRUE}, fmt : {"x"}, ev : SeqsUpTo(Ev, MaxEv), s : {""}]

VARIABLES in, dest, i, j, clock, out, any, said, sum, status
vars == <<in, dest, i, j, clock, out, any, said, sum, status>>
Init == /\ in \in SeqsUpTo(Inputs, MaxIn) /\ dest \in Dests
        /\ i = 1 /\ j = 1 /\ clock = Zero /\ out = <<>> /\ any = FALSE /\ said = {} /\ sum = <<>>
        /\ status = IF dest = "none" THEN 1 ELSE -1
\* sum is kept along the way, from the clock as termtime would have it
VARIABLE tclock
Step ==
  /\ status = -1 /\ i <= Len(in)
  /\ IF ~in[i].ok THEN said' = said \cup {in[i].name} /\ i' = i + 1 /\ j' = 1 /\ UNCHANGED <<clock, tclock, out, any, sum>>
     ELSE IF j > Len(in[i].ev)
          THEN /\ i' = i + 1 /\ j' = 1 /\ any' = TRUE /\ sum' = Append(sum, <<tclock, in[i].name>>) /\ tclock' = Zero
               /\ UNCHANGED <<clock, out, said>>
     ELSE LET e == in[i].ev[j] IN
          /\ j' = j + 1
          /\ IF e[1] = "w" THEN clock' = Plus(clock, e[2]) /\ tclock' = Plus(tclock, e[2]) /\ out' = out
                           ELSE out' = Append(out, [t |-> clock, s |-> e[2]]) /\ UNCHANGED <<clock, tclock>>
          /\ UNCHANGED <<i, any, said, sum>>
  /\ UNCHANGED <<in, dest, status>>
Text == \E k \in DOMAIN out : Len(out[k].s) > 0
End ==
  /\ status = -1 /\ i > Len(in)
  /\ status' = IF any /\ (dest = "full" => ~Text) THEN 0 ELSE 1
  /\ UNCHANGED <<in, dest, i, j, clock, tclock, out, any, said, sum>>
Spec == Init /\ tclock = Zero /\ [][Step \/ End]_<<vars, tclock>>

Full(o) == SelectSeq(o, LAMBDA p : Len(p.s) > 0)
Right == status # -1 => CatOk(in, dest, "ttyrec", TRUE, Full(out), status, said)
RightSums == status # -1 /\ dest = "good" => TimeOk(in, dest, sum, status, said)
Forward == \A k \in 1..Len(out) - 1 : Leq(out[k].t, out[k + 1].t)
=============================================================================
