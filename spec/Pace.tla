-------------------------------- MODULE Pace --------------------------------
(***************************************************************************)
(* The pace of what has no times of its own, or is shown at once:          *)
(*                                                                         *)
(*   plain text is played at 2400 baud, that is 300 bytes in a second;     *)
(*   a live input is shown as it arrives;                                  *)
(*   a live output gives every frame when it is due.                       *)
(*                                                                         *)
(* Live output.  The first frame is due as long after the output was       *)
(* opened as it comes after the start of the recording; every other, as    *)
(* long after the frame before was given as it comes after it.  A frame    *)
(* is given when it is due, or if it comes later than that, at once: what  *)
(* follows is then late as much, and no delay is ever shortened.           *)
(***************************************************************************)
EXTENDS Time, Sequences

Later(a, b) == IF Less(a, b) THEN b ELSE a

\* When a frame due at `due` that comes at `call` is given
Given(due, call) == Later(due, call)

\* The times of the frames at, and when they come: when they are given.
\* tol: how much off, in microseconds.  fr: Seq([at, call, out])
LiveOutOk(start, opened, fr, tol) ==
  \A i \in DOMAIN fr :
    LET due == IF i = 1 THEN Plus(opened, Minus(fr[1].at, start))
               ELSE Plus(fr[i - 1].out, Minus(fr[i].at, fr[i - 1].at))
    IN Near(fr[i].out, Given(due, fr[i].call), tol)
\* nor do small errors add up
RECURSIVE NoDriftR(_, _, _, _, _)
NoDriftR(fr, i, at, out, tol) ==
  \/ i > Len(fr)
  \/ LET o == Given(Plus(out, Minus(fr[i].at, at)), fr[i].call)
     IN Near(fr[i].out, o, tol) /\ NoDriftR(fr, i + 1, fr[i].at, o, tol)
NoDrift(start, opened, fr, tol) == NoDriftR(fr, 1, start, opened, tol)

(***************************************************************************)
(* The same as a machine, with an origin: the time of the clock at which   *)
(* time zero of the recording would have been given.                       *)
(***************************************************************************)
GivenBy(origin, at, clock) == Later(Plus(origin, at), clock)
OriginAfter(origin, at, clock) == LET due == Plus(origin, at) IN
  IF Less(due, clock) THEN Plus(origin, Minus(clock, due)) ELSE origin

(***************************************************************************)
(* 2400 baud.  The k-th byte of a text is due k/300 s after its start; it  *)
(* is shown with a piece of it, within `tol` microseconds of that.         *)
(***************************************************************************)
BaudAt(k) == <<0, k \div 300, ((k % 300) * 10000) \div 3>>
RECURSIVE BaudR(_, _, _, _, _)
BaudR(ev, i, at, d, tol) ==             \* -> how many were shown; -1: wrong
  IF i > Len(ev) THEN at
  ELSE CASE ev[i][1] = "w" -> IF IsTime(ev[i][2]) /\ Leq(Zero, ev[i][2]) THEN BaudR(ev, i + 1, at, Plus(d, ev[i][2]), tol) ELSE -1
         [] ev[i][1] = "i" -> IF i = 1 THEN BaudR(ev, i + 1, at, d, tol) ELSE -1
         [] OTHER -> IF /\ ev[i][2] >= 0
                        /\ ev[i][2] > 0 => Near(d, BaudAt(at), tol) /\ Near(d, BaudAt(at + ev[i][2]), tol)
                     THEN BaudR(ev, i + 1, at + ev[i][2], d, tol) ELSE -1
BaudOk(n, ev, tol) == BaudR(ev, 1, 0, Zero, tol) = n

(***************************************************************************)
(* Live input.  arr: Seq([at, n]): n bytes arrive at a time.  Shown as it  *)
(* arrives: every byte before anything later arrives (`seen`: how many had *)
(* been shown then), and after delays that add up to the time since the    *)
(* start it was announced with.                                            *)
(***************************************************************************)
RECURSIVE SumN(_, _)
SumN(arr, i) == IF i = 0 THEN 0 ELSE arr[i].n + SumN(arr, i - 1)
RECURSIVE LiveR(_, _, _, _, _, _, _)
LiveR(arr, ev, i, a, left, d, tol) ==   \* left: how many of arrival a are to be shown
  IF i > Len(ev) THEN left = 0 /\ \A j \in DOMAIN arr : j > a => arr[j].n = 0
  ELSE CASE ev[i][1] = "w" -> IsTime(ev[i][2]) /\ LiveR(arr, ev, i + 1, a, left, Plus(d, ev[i][2]), tol)
         [] ev[i][1] = "i" -> FALSE
         [] OTHER ->
              IF ev[i][2] < 0 THEN FALSE
              ELSE IF ev[i][2] = 0 THEN LiveR(arr, ev, i + 1, a, left, d, tol)
              ELSE IF left = 0 THEN a < Len(arr) /\ LiveR(arr, ev, i, a + 1, arr[a + 1].n, d, tol)
              ELSE /\ ev[i][2] <= left
                   /\ Near(d, Minus(arr[a].at, ev[1][2]), tol)
                   /\ LiveR(arr, ev, i + 1, a, left - ev[i][2], d, tol)
LiveInOk(opened, arr, ev, tol) ==
  /\ ev # <<>> /\ ev[1][1] = "i" /\ Near(ev[1][2], opened, tol)
  /\ LiveR(arr, ev, 2, 0, 0, Zero, tol)
=============================================================================
