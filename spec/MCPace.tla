------------------------------- MODULE MCPace -------------------------------
(* Live output, all short sequences of frames and of how the clock goes on:  *)
(* the machine with an origin gives the frames when the specification says;  *)
(* no delay of the recording is shortened, nothing is given before it comes, *)
(* and nobody waits without need.  And the pace of texts.                    *)
EXTENDS Pace, TLC
CONSTANT N
Ticks == {<<0, 0, 0>>, <<0, 0, 1>>, <<0, 0, 999999>>, <<0, 1, 0>>, <<0, 2, 500000>>}
Deltas == Ticks \cup {<<-1, 65535, 999999>>, <<-1, 65534, 0>>}
VARIABLES start, opened, origin, clock, fr
vars == <<start, opened, origin, clock, fr>>
Init == /\ start \in {Zero, <<0, 5, 999999>>, <<15258, 51712, 3>>}
        /\ opened \in {<<0, 1, 0>>, <<24414, 4, 999999>>}
        /\ clock = opened /\ fr = <<>>
        /\ origin = Minus(opened, start)
Last == IF fr = <<>> THEN start ELSE fr[Len(fr)].at
Frame(d, e) ==
  LET at == Plus(Last, d) call == Plus(clock, e) out == GivenBy(origin, at, call) IN
  /\ Len(fr) < N
  /\ fr' = Append(fr, [at |-> at, call |-> call, out |-> out])
  /\ origin' = OriginAfter(origin, at, call)
  /\ clock' = out
  /\ UNCHANGED <<start, opened>>
Next == \E d \in Deltas, e \in Ticks : Frame(d, e)
Spec == Init /\ [][Next]_vars
AsSpecified == LiveOutOk(start, opened, fr, 0) /\ NoDrift(start, opened, fr, 0)
NotShortened == \A i \in 2..Len(fr) : Leq(Minus(fr[i].at, fr[i - 1].at), Minus(fr[i].out, fr[i - 1].out))
NotBefore == \A i \in DOMAIN fr : Leq(fr[i].call, fr[i].out)
NoNeed == \A i \in 2..Len(fr) :
  fr[i].out # fr[i].call => Minus(fr[i].out, fr[i - 1].out) = Minus(fr[i].at, fr[i - 1].at)
\* 60 bytes each 0.2 s is 2400 baud; 64, 30 or ones of which one is lost are not
Chunks(n, c, w) == LET RECURSIVE P(_) P(k) == IF k <= 0 THEN <<>> ELSE <<<<"p", IF k < c THEN k ELSE c>>, <<"w", w>>>> \o P(k - c) IN P(n)
ASSUME /\ \A n \in {0, 1, 59, 60, 61, 300, 3001} : BaudOk(n, Chunks(n, 60, <<0, 0, 200000>>), 250000) /\ BaudOk(n, Chunks(n, 30, <<0, 0, 100000>>), 250000)
       /\ ~BaudOk(3000, Chunks(3000, 64, <<0, 0, 200000>>), 250000)
       /\ ~BaudOk(3000, Chunks(3000, 60, <<0, 0, 190000>>), 250000)
       /\ ~BaudOk(61, Chunks(60, 60, <<0, 0, 200000>>), 250000)
       /\ ~BaudOk(300, Chunks(300, 300, <<0, 1, 0>>), 250000)
=============================================================================
