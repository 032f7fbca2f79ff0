-------------------------------- MODULE Tools --------------------------------
(***************************************************************************)
(* termcat and termtime.                                                   *)
(*                                                                         *)
(* An input is [name, ok, fmt, ev, s]: whether it can be opened at all;    *)
(* what it shows (events as in Rec, <<"w", t>> and <<"p", s>>) or, if it   *)
(* is plain text, its bytes s.  Text is in hexadecimal.                    *)
(*                                                                         *)
(* An input after an input goes on from the time at which the other ended, *)
(* delays at its end included.                                             *)
(***************************************************************************)
EXTENDS Rec

TextEv(s) ==
  LET RECURSIVE P(_)
      P(i) == IF i > Len(s) THEN <<>>
              ELSE <<<<"p", SubSeq(s, i, IF i + 119 > Len(s) THEN Len(s) ELSE i + 119)>>, <<"w", <<0, 0, 200000>>>>>> \o P(i + 120)
  IN P(1)
Events(x) == IF ~x.ok THEN <<>> ELSE IF x.fmt = "text" THEN TextEv(x.s) ELSE x.ev

\* How long an input is
Length(x) == FoldLeft(LAMBDA t, e : IF e[1] = "w" THEN Plus(t, e[2]) ELSE t, Zero, Events(x))

\* The whole: [t, s] pieces of text, none of them empty
JoinStep(c, e) ==
  CASE e[1] = "w" -> [c EXCEPT !.t = Plus(@, e[2])]
    [] e[1] = "p" /\ Len(e[2]) > 0 -> [c EXCEPT !.out = Append(@, [t |-> c.t, s |-> e[2]])]
    [] OTHER -> c
Join(in) ==
  LET RECURSIVE J(_, _)
      J(i, c) == IF i > Len(in) THEN c.out ELSE J(i + 1, FoldLeft(JoinStep, c, Events(in[i])))
  IN J(1, [t |-> Zero, out |-> <<>>])

\* Two such have the same text, each byte of it at the same time, as far as
\* the format can tell
SameTime(fmt, a, b) ==
  CASE fmt = "text" -> TRUE
    [] fmt = "nh" -> Near(a, b, 10000)
    [] OTHER -> a = b
Same(fmt, a, b) ==
  LET RECURSIVE W(_, _, _, _)
      W(i, j, u, v) ==          \* u bytes of a[i] and v of b[j] are done
        IF i > Len(a) \/ j > Len(b) THEN i > Len(a) /\ j > Len(b)
        ELSE LET n == IF Len(a[i].s) - u < Len(b[j].s) - v THEN Len(a[i].s) - u ELSE Len(b[j].s) - v
             IN /\ SameTime(fmt, a[i].t, b[j].t)
                /\ SubSeq(a[i].s, u + 1, u + n) = SubSeq(b[j].s, v + 1, v + n)
                /\ W(IF u + n = Len(a[i].s) THEN i + 1 ELSE i, IF v + n = Len(b[j].s) THEN j + 1 ELSE j,
                     IF u + n = Len(a[i].s) THEN 0 ELSE u + n, IF v + n = Len(b[j].s) THEN 0 ELSE v + n)
  IN W(1, 1, 0, 0)

AnyOf(in) == \E i \in DOMAIN in : in[i].ok
Unreadable(in) == {in[i].name : i \in {k \in DOMAIN in : ~in[k].ok}}
Readable(in) == SelectSeq(in, LAMBDA x : x.ok)

\* An asciicast has a size in its header instead of at its start
Size == "1b25471b5b383b32353b383074"
SameFile(fmt, a, b) == \/ Same(fmt, a, b)
                       \/ fmt \in {"cast", "v1"} /\ a # <<>> /\ a[1].s = Size /\ Same(fmt, Tail(a), b)

\* What termcat does with a destination that is "good", "full" or can't be
\* opened ("none"); got: the pieces in the file it made of the format fmt,
\* well-formed or not; status, said: the names that are complained about
CatOk(in, dest, fmt, wellformed, got, status, said) ==
  CASE dest = "none" -> status # 0
    [] dest = "full" -> Join(in) # <<>> => status # 0
    [] OTHER -> /\ wellformed
                /\ SameFile(fmt, Join(in), got)
                /\ said = Unreadable(in)
                /\ (status = 0) = AnyOf(in)
\* termtime's lines are <<time, name>>
TimeOk(in, dest, lines, status, said) ==
  IF dest = "full" THEN (AnyOf(in) => status # 0)
  ELSE /\ lines = [i \in DOMAIN Readable(in) |-> <<Length(Readable(in)[i]), Readable(in)[i].name>>]
       /\ said = Unreadable(in)
       /\ (status = 0) = AnyOf(in)
=============================================================================
