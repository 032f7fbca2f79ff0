------------------------------- MODULE Player -------------------------------
(***************************************************************************)
(* termplay: a recording that is still being loaded, played against the    *)
(* clock, under the keyboard.  Pure definitions over states                *)
(*                                                                         *)
(*   play   does time go on                                                *)
(*   pos    the position in the recording, at wall clock time `at'         *)
(*   speed  in 1/1000                                                      *)
(*   fr     frames on the screen: 1..fr                                    *)
(*   n, eof frames that have been loaded; whether that's all               *)
(*                                                                         *)
(* Times are in units of 100 us.  The program rounds to 1 us and looks at  *)
(* the clock more than once, so instants closer than Tol are not told      *)
(* apart: operators give sets of states.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANT F        \* times of the frames, F[1] <= F[2] <= ...
Tol == 50
Second == 10000
Huge == 1000000000

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
N == Len(F)
Time(j) == IF j = 0 THEN 0 ELSE F[j]

\* a * sp / 1000, at most Huge
Scale(a, sp) ==
  LET q == sp \div 1000  r == sp % 1000
      big == IF q > 0 /\ a > Huge \div q THEN Huge ELSE a * q
      rest == IF a > 2000000 THEN ((a \div 1000) * r) ELSE (a * r) \div 1000
  IN Min(Huge, big + rest)

Pos(s, t) == IF s.play THEN Min(Huge, s.pos + Scale(t - s.at, s.speed)) ELSE s.pos
PTol(s) == Scale(10, s.speed) + Tol

Start0(speed) == {[play |-> TRUE, pos |-> 0, at |-> 0, speed |-> speed, fr |-> f, n |-> f, eof |-> FALSE] : f \in {0}}

(* Loading.  What has arrived by now may have been taken in or not.        *)
Load(S, avail, end) ==
  UNION {{[s EXCEPT !.n = m, !.eof = s.eof] : m \in s.n..avail}
         \cup (IF end THEN {[s EXCEPT !.n = avail, !.eof = TRUE]} ELSE {}) : s \in S}

\* all that has arrived
LoadAll(S, avail, end) == {[s EXCEPT !.n = avail, !.eof = end] : s \in S}

(* Playing.  A frame that is late by more than a second puts the clock     *)
(* back instead of making all the rest hurry.                              *)
Show1(s, t) ==
  IF ~(s.play /\ s.fr < s.n /\ Time(s.fr + 1) <= Pos(s, t) + PTol(s)) THEN {}
  ELSE LET late == Pos(s, t) - Time(s.fr + 1)
           s2 == [s EXCEPT !.fr = @ + 1]
       IN (IF late > Scale(Second - Tol, s.speed) - Tol THEN {[s2 EXCEPT !.pos = Time(s.fr + 1), !.at = t]} ELSE {})
          \cup (IF late < Scale(Second + Tol, s.speed) + Tol THEN {s2} ELSE {})
RECURSIVE ShowOn(_, _, _)
ShowOn(S, New, t) == LET R == UNION {Show1(s, t) : s \in New} \ S
                     IN IF R = {} THEN S ELSE ShowOn(S \cup R, R, t)
ShowAll(S, t) == ShowOn(S, S, t)

\* nothing more to show at time t
Settled(s, t) == IF ~s.play \/ s.fr >= s.n THEN TRUE ELSE Time(s.fr + 1) >= Pos(s, t) - PTol(s)

(* Keys.                                                                   *)
\* the position is taken, then the player stopped: it may have shown a frame
\* or two in between
Stop(s, t) ==
  IF ~s.play THEN {s}
  ELSE {LET p == IF s2.eof /\ s2.fr = s2.n THEN Time(s2.fr) ELSE q
        IN [s2 EXCEPT !.play = FALSE, !.pos = p, !.at = t] : s2 \in ShowAll({s}, t), q \in {Pos(s, t)}}
     \cup {LET p == IF s2.eof /\ s2.fr = s2.n THEN Time(s2.fr) ELSE Pos(s2, t)
           IN [s2 EXCEPT !.play = FALSE, !.pos = p, !.at = t] : s2 \in ShowAll({s}, t)}
Go(s, on, t) == IF on THEN [s EXCEPT !.play = TRUE, !.at = t] ELSE s

\* how many frames there are up to position p
RECURSIVE Upto(_, _, _)
Upto(j, n, p) == IF j < n /\ Time(j + 1) <= p THEN Upto(j + 1, n, p) ELSE j
SeekTo(s, p) == {[s EXCEPT !.pos = p, !.fr = f] : f \in Upto(0, s.n, p - Tol)..Upto(0, s.n, p + Tol)}

Toggle(s, t) == IF s.play THEN Stop(s, t) ELSE {Go(s, TRUE, t)}
Seek(s, d, t) == {Go(z, s.play, t) : z \in UNION {SeekTo(y, Max(0, y.pos + d * Second)) : y \in Stop(s, t)}}
Faster(v) == IF v * 2 > 1000000 THEN 1000000 ELSE v * 2
Slower(v) == IF v \div 2 = 0 THEN 1 ELSE v \div 2
Speed(s, v, t) == {Go([y EXCEPT !.speed = v], s.play, t) : y \in Stop(s, t)}
\* ... to the beginning, and stays there
Rewind(s, t) == UNION {{[y EXCEPT !.pos = 0, !.fr = f] : f \in {Upto(0, y.n, 0), Upto(0, y.n, Tol)}} : y \in Stop(s, t)}
Frame(s, t) == {IF y.fr < y.n THEN [y EXCEPT !.fr = @ + 1, !.pos = Time(y.fr + 1)] ELSE y : y \in Stop(s, t)}

Press(s, k, t) ==
  CASE k = "space" -> Toggle(s, t)
    [] k = "left" -> Seek(s, -10, t)
    [] k = "right" -> Seek(s, 10, t)
    [] k = "down" -> Seek(s, -60, t)
    [] k = "up" -> Seek(s, 60, t)
    [] k = "pgdn" -> Seek(s, -600, t)
    [] k = "pgup" -> Seek(s, 600, t)
    [] k = "one" -> Speed(s, 1000, t)
    [] k = "slow" -> Speed(s, Slower(s.speed), t)
    [] k = "fast" -> Speed(s, Faster(s.speed), t)
    [] k = "rewind" -> Rewind(s, t)
    [] k = "enter" -> Frame(s, t)
    [] OTHER -> {s}
=============================================================================
