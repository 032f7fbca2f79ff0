------------------------------- MODULE Timeline -------------------------------
(***************************************************************************)
(* A recording in memory: frames with their times, found by seeking.  A    *)
(* terminal is known by what the reference (a terminal that got all frames *)
(* so far, one after the other) was at each frame.                         *)
(***************************************************************************)
EXTENDS Time, FiniteSets

Limit == <<0, 5, 0>>
\* a delay, as it counts
Counted(d) == IF Less(d, Zero) \/ ~Less(d, Limit) THEN Limit ELSE d

VARIABLES
  t0,           \* the time of the start
  pending,      \* delays that no frame has followed yet
  frames,       \* Seq([t, len, data, fp])
  fp0           \* the terminal at the start

tlvars == <<t0, pending, frames, fp0>>

TypeOK == /\ IsTime(t0) /\ IsTime(pending)
          /\ \A i \in DOMAIN frames : IsTime(frames[i].t)

End == IF frames = <<>> THEN t0 ELSE frames[Len(frames)].t
Sorted == \A i \in 1..(Len(frames) - 1) : Leq(frames[i].t, frames[i + 1].t)

New(fp) == t0' = Zero /\ pending' = Zero /\ frames' = <<>> /\ fp0' = fp
Start(t) == t0' = t /\ UNCHANGED <<pending, frames, fp0>>
Wait(d) == pending' = Plus(pending, Counted(d)) /\ UNCHANGED <<t0, frames, fp0>>
Frame(len, data, fp) ==
  /\ frames' = Append(frames, [t |-> Plus(End, pending), len |-> len, data |-> data, fp |-> fp])
  /\ pending' = Zero
  /\ UNCHANGED <<t0, fp0>>
AddFrame(delays, len, data, fp) ==           \* any number of waits, then a frame
  LET RECURSIVE Sum(_, _)
      Sum(i, s) == IF i > Len(delays) THEN s ELSE Sum(i + 1, Plus(s, Counted(delays[i])))
  IN /\ frames' = Append(frames, [t |-> Plus(End, Sum(1, pending)), len |-> len, data |-> data, fp |-> fp])
     /\ pending' = Zero
     /\ UNCHANGED <<t0, fp0>>

\* the last frame not later than t; 0 if all are
Before(t) == LET RECURSIVE B(_)
                 B(i) == IF i = 0 THEN 0 ELSE IF Leq(frames[i].t, t) THEN i ELSE B(i - 1)
             IN B(Len(frames))
\* where a seek ends; <<>> asks for the first frame
Found(t) == IF t = <<>> THEN (IF frames = <<>> THEN 0 ELSE 1) ELSE Before(t)
TimeAt(i) == IF i = 0 THEN t0 ELSE frames[i].t
PrintAt(i) == IF i = 0 THEN fp0 ELSE frames[i].fp
\* the frames a walk from there meets: the start itself is no frame
WalkFrom(i) == [k \in 1..(Len(frames) - i + 1) |-> IF i + k - 1 = 0 THEN <<0, t0, 0, 0>>
                   ELSE <<i + k - 1, frames[i + k - 1].t, frames[i + k - 1].len, frames[i + k - 1].data>>]
\* what a saved selection has (frames without data do not count)
Selected(a, b) ==
  LET i == Found(a)
      from == IF i = 0 THEN 1 ELSE i
      last == IF b = <<>> THEN Len(frames) ELSE Before(b)
      RECURSIVE S(_)
      S(k) == IF k > last THEN <<>>
              ELSE (IF frames[k].len = 0 THEN <<>> ELSE <<<<frames[k].t, frames[k].len, frames[k].data>>>>) \o S(k + 1)
  IN S(from)
=============================================================================
