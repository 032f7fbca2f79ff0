------------------------------ MODULE MCPlayer ------------------------------
(***************************************************************************)
(* Small instances of Player.tla: whatever keys are pressed while frames   *)
(* arrive, the screen shows what the recording has up to the position.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Times, Step, Until, MaxKeys
P == INSTANCE Player WITH F <- Times

F1 == <<0, 10000, 10000, 150000, 190000>>

VARIABLES s, now, avail, end, keys, last
vars == <<s, now, avail, end, keys, last>>

Keys == {"space", "left", "right", "slow", "fast", "one", "rewind", "enter"}

Init == /\ s = [play |-> TRUE, pos |-> 0, at |-> 0, speed |-> 1000, fr |-> 0, n |-> 0, eof |-> FALSE]
        /\ now = 0 /\ avail = 0 /\ end = FALSE /\ keys = 0 /\ last = "none"
Arrive == /\ avail < P!N /\ avail' = avail + 1 /\ last' = "none" /\ UNCHANGED <<s, now, end, keys>>
End == /\ avail = P!N /\ ~end /\ end' = TRUE /\ last' = "none" /\ UNCHANGED <<s, now, avail, keys>>
Load == /\ \E z \in P!Load({s}, avail, end) : s' = z
        /\ last' = "none" /\ UNCHANGED <<now, avail, end, keys>>
Show == /\ \E z \in P!Show1(s, now) : s' = z
        /\ last' = "show" /\ UNCHANGED <<now, avail, end, keys>>
\* time goes on when there's nothing to do
Tick == /\ now < Until /\ s.n = avail /\ s.eof = end /\ P!Settled(s, now)
        /\ now' = now + Step /\ last' = "tick" /\ UNCHANGED <<s, avail, end, keys>>
Key == /\ keys < MaxKeys
       /\ \E k \in Keys : (\E z \in P!Press(s, k, now) : s' = z) /\ last' = k
       /\ keys' = keys + 1 /\ UNCHANGED <<now, avail, end>>
Next == Arrive \/ End \/ Load \/ Show \/ Tick \/ Key
Spec == Init /\ [][Next]_vars

Sane == /\ s.pos >= 0 /\ 0 <= s.fr /\ s.fr <= s.n /\ s.n <= avail /\ avail <= P!N
        /\ s.speed \in 1..1000000 /\ (s.eof => end /\ s.n = P!N)
        /\ s.at <= now
\* nothing is shown before its time
NotEarly == s.fr > 0 => P!Time(s.fr) <= P!Pos(s, now) + P!PTol(s)
\* what the screen shows when it has been told to go somewhere
Exact == last \in {"left", "right", "rewind"} =>
           \E f \in P!Upto(0, s.n, s.pos - P!Tol)..P!Upto(0, s.n, s.pos + P!Tol) : s.fr = f

Moves ==
  /\ last' = "show" => s'.fr = s.fr + 1 /\ s.play
  /\ last' = "tick" => P!Pos(s', now') >= P!Pos(s, now) /\ (~s.play => P!Pos(s', now') = P!Pos(s, now))
  \* a running clock shows the position times the speed
  /\ last' = "tick" /\ s.play => P!Pos(s', now') - P!Pos(s, now) \in P!Scale(Step, s.speed) - 1..P!Scale(Step, s.speed) + 1
  /\ last' = "space" => s'.play = ~s.play
  /\ last' \in {"rewind", "enter"} => ~s'.play
  /\ last' \in {"left", "right", "slow", "fast", "one"} => s'.play = s.play
  /\ last' = "rewind" => s'.pos = 0
  \* keys other than seeks leave the position where it is, but for frames
  \* that are late and the end of the recording
  /\ last' \in {"space", "slow", "fast", "one"} => s'.pos <= P!Max(P!Pos(s, now), P!Time(s'.fr)) + P!PTol(s)
  /\ last' = "enter" => s'.fr >= s.fr /\ (s'.fr > s.fr => s'.pos >= P!Time(s'.fr))
Steps == [][Moves]_vars
=============================================================================
