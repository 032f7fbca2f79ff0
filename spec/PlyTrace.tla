------------------------------ MODULE PlyTrace ------------------------------
(***************************************************************************)
(* Checks runs of termplay under a controlled clock and schedule.  A line  *)
(* of the trace is one run:                                                *)
(*   d      delays of the frames, from the recording                       *)
(*   speed  that it started with                                           *)
(*   ev     <<"arr", t, n>>: n frames can have been loaded by now          *)
(*          <<"eof", t>>, <<"key", t, name>>, <<"gone", t, status, k>>     *)
(*          <<"leave", t, k, w>>: until now the screen has shown k frames, *)
(*          and w threads wait for something to arrive                     *)
(* S is the set of states the program may be in.                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

\* what comes at the instant of a key may come before it is acted upon: `was'
\* has the states before the key `key', S those before and after
VARIABLES l, i, S, was, key, now, avail, end, f, bad
vars == <<l, i, S, was, key, now, avail, end, f, bad>>

\* recordings are not paused for more than 5 seconds
RECURSIVE Times(_, _, _)
Times(d, j, t) == IF j > Len(d) THEN <<>>
                  ELSE LET u == t + (IF d[j] >= 50000 \/ d[j] < 0 THEN 50000 ELSE d[j]) IN <<u>> \o Times(d, j + 1, u)
P == INSTANCE Player WITH F <- f

First(r) == {[play |-> TRUE, pos |-> 0, at |-> 0, speed |-> r.speed, fr |-> 0, n |-> 0, eof |-> FALSE]}
\* the player starts at the first frame, if that has been loaded
Begin(s, a) == IF s.at = 0 /\ now = 0 /\ s.pos = 0 /\ s.fr = 0 /\ a > 0 THEN {s, [s EXCEPT !.fr = 1, !.n = 1]} ELSE {s}

Could(Z, av, en, t) == P!ShowAll(P!Load(UNION {Begin(s, av) : s \in Z}, av, en), t)
OnTime(t) == {s \in S : P!Settled(s, t)}
Pressed(Z, k, t) == UNION {P!Press(s, k, t) : s \in Z}

Ev == Trace[l].ev[i]
\* all that the program may be like once more input is there
More(e, av, en) ==
  LET t == e[2]  S0 == IF t > now THEN OnTime(t) ELSE S
      u == IF t > now THEN {} ELSE was
  IN [S |-> S0 \cup (IF u = {} THEN {} ELSE Pressed(Could(u, av, en, t), key, t)), was |-> u, key |-> key, avail |-> av, end |-> en]
Next1(e) ==
  LET t == e[2]
      S0 == IF t > now THEN OnTime(t) ELSE S
      C == IF t > now THEN P!ShowAll(P!Load(S0, avail, end), t) ELSE Could(S, avail, end, t)
      To(Z) == [S |-> Z, was |-> {}, key |-> "", avail |-> avail, end |-> end]
  IN CASE e[1] = "arr" -> More(e, e[3], end)
       [] e[1] = "eof" -> More(e, avail, TRUE)
       [] e[1] = "key" -> [To(Pressed(C, e[3], t)) EXCEPT !.was = C, !.key = e[3]]
       [] e[1] = "leave" -> LET All == P!ShowAll(P!LoadAll(UNION {Begin(s, avail) : s \in S0}, avail, end), t)
                            IN To({s \in All : s.fr = e[3] /\ P!Settled(s, t) /\ (end => e[4] = 0)})
       [] e[1] = "gone" -> To({s \in C : s.fr = e[4] /\ e[3] = 0})
       [] OTHER -> To({})

ASSUME TLCSet(1, 0)
Fresh(k) == /\ S = First(Trace[k])
Init == l = 1 /\ i = 1 /\ now = 0 /\ avail = 0 /\ end = FALSE /\ bad = FALSE /\ was = {} /\ key = ""
        /\ S = First(Trace[1]) /\ f = Times(Trace[1].d, 1, 0)
Do == /\ ~bad /\ l <= Len(Trace) /\ i <= Len(Trace[l].ev)
      /\ LET x == Next1(Ev)
         IN IF x.S = {} THEN /\ PrintT(<<"MISMATCH", l, i, Ev, now, S, f>>) /\ bad' = TRUE /\ UNCHANGED <<l, i, S, was, key, now, avail, end, f>>
            ELSE /\ S' = x.S /\ was' = x.was /\ key' = x.key /\ avail' = x.avail /\ end' = x.end /\ now' = Ev[2] /\ i' = i + 1
                 /\ UNCHANGED <<l, f, bad>>
Line == /\ ~bad /\ l <= Len(Trace) /\ i = Len(Trace[l].ev) + 1
        /\ l' = l + 1 /\ i' = 1 /\ now' = 0 /\ avail' = 0 /\ end' = FALSE /\ was' = {} /\ key' = "" /\ UNCHANGED bad
        /\ IF l < Len(Trace) THEN S' = First(Trace[l + 1]) /\ f' = Times(Trace[l + 1].d, 1, 0)
           ELSE UNCHANGED <<S, f>>
Next == Do \/ Line
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
