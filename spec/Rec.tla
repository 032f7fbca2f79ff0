--------------------------------- MODULE Rec ---------------------------------
(***************************************************************************)
(* Recordings, and the files that hold them.                               *)
(*                                                                         *)
(* The text of a recording is abstracted to positions in one known stream  *)
(* of bytes: a piece of n bytes is the next n of them.  What a player is   *)
(* told is a sequence of events <<"i", t>> (the recording starts at t),    *)
(* <<"w", t>> (wait) and <<"p", n>> (show the next n bytes; n = -1 if they *)
(* were not those).                                                        *)
(*                                                                         *)
(* Two sequences of events show the same if they have the same canonical   *)
(* form: the pieces with the total delay before each, pieces without a     *)
(* delay between them joined.                                              *)
(***************************************************************************)
EXTENDS Time, TLC, SequencesExt

\* Canonical form: [init, fr: Seq([d, n]), rest: the delay after the last]
CanonStep(c, e) ==
  CASE e[1] = "i" -> [c EXCEPT !.init = IF c.init = <<>> /\ c.fr = <<>> /\ c.rest = Zero THEN e[2] ELSE <<"again">>]
    [] e[1] = "w" -> [c EXCEPT !.rest = Plus(@, e[2])]
    [] e[1] = "p" /\ e[2] = 0 -> c
    [] e[1] = "p" /\ e[2] < 0 -> [c EXCEPT !.bad = TRUE]
    [] e[1] = "p" /\ c.rest = Zero /\ c.fr # <<>> -> [c EXCEPT !.fr[Len(c.fr)].n = @ + e[2]]
    [] OTHER -> [c EXCEPT !.fr = Append(@, [d |-> c.rest, n |-> e[2]]), !.rest = Zero]
Canon(ev) == FoldLeft(CanonStep, [init |-> <<>>, fr |-> <<>>, rest |-> Zero, bad |-> FALSE], ev)
\* ... whatever time it says it started at
Shown(ev) == [Canon(ev) EXCEPT !.init = <<>>]

\* the same for events that have the bytes themselves
RECURSIVE CanonBR(_, _, _)
CanonBR(ev, i, c) ==
  IF i > Len(ev) THEN c
  ELSE LET e == ev[i] IN
    CanonBR(ev, i + 1,
      CASE e[1] = "i" -> [c EXCEPT !.init = Append(@, e[2])]
        [] e[1] = "w" -> [c EXCEPT !.rest = Plus(@, e[2])]
        [] e[1] = "p" /\ e[2] = <<>> -> c
        [] e[1] = "p" /\ c.rest = Zero /\ c.fr # <<>> -> [c EXCEPT !.fr[Len(c.fr)].s = @ \o e[2]]
        [] OTHER -> [c EXCEPT !.fr = Append(@, [d |-> c.rest, s |-> e[2]]), !.rest = Zero])
CanonB(ev) == CanonBR(ev, 1, [init |-> <<>>, fr |-> <<>>, rest |-> Zero])

Waits(ev) == \A i \in DOMAIN ev : ev[i][1] = "w" => IsTime(ev[i][2])

\* b shows what a does, or stops early, somewhere within its last piece or
\* right after it
PrefixOf(b, a) ==
  /\ b.init = a.init \/ (b.init = <<>> /\ b.fr = <<>>)
  /\ ~b.bad
  /\ Len(b.fr) <= Len(a.fr)
  /\ \A i \in 1..Len(b.fr) : /\ b.fr[i].d = a.fr[i].d
                             /\ IF i < Len(b.fr) THEN b.fr[i].n = a.fr[i].n ELSE b.fr[i].n <= a.fr[i].n

Total(c) == LET RECURSIVE S(_) S(i) == IF i > Len(c.fr) THEN c.rest ELSE Plus(c.fr[i].d, S(i + 1)) IN S(1)

(***************************************************************************)
(* Recorders are given frames [t, n]: n bytes at (absolute) time t.        *)
(* A file is a sequence of tokens <<"x", n>>: the next n bytes of text;    *)
(* the others depend on the format.                                        *)
(***************************************************************************)

\* ---- ttyrec: <<"h", t, n>> is a header, <<"e", n>> n bytes of one cut off
TtyrecFile(frames) ==
  LET RECURSIVE F(_)
      F(i) == IF i > Len(frames) THEN <<>>
              ELSE <<<<"h", frames[i].t, frames[i].n>>>> \o (IF frames[i].n > 0 THEN <<<<"x", frames[i].n>>>> ELSE <<>>) \o F(i + 1)
  IN F(1)

\* The events of a file, complete up to the last frame that is whole, and
\* the frame that is not: [ev, tail].  tail = <<delay, bytes there>>
TtyrecPlay(tok) ==
  LET RECURSIVE P(_, _, _)
      P(i, prev, ev) ==
        IF i > Len(tok) \/ tok[i][1] = "e" THEN [ev |-> ev, tail |-> <<>>]
        ELSE LET h == tok[i]
                 there == IF i < Len(tok) /\ tok[i + 1][1] = "x" THEN tok[i + 1][2] ELSE 0
                 first == prev = <<>>
                 when == IF first THEN <<"i", h[2]>> ELSE <<"w", Minus(h[2], prev)>>
             IN IF there < h[3] THEN [ev |-> ev, tail |-> <<when, there>>]
                ELSE P(IF h[3] = 0 THEN i + 1 ELSE i + 2, h[2], ev \o <<when, <<"p", h[3]>>>>)
  IN P(1, <<>>, <<>>)

TtyrecOk(tok, ev) ==
  LET p == TtyrecPlay(tok)
      c == Canon(ev)
      whole == Canon(p.ev)
      all == Canon(p.ev \o (IF p.tail = <<>> THEN <<>> ELSE <<p.tail[1], <<"p", p.tail[2]>>>>))
      \* what was announced of the frame that is cut off
      part == Canon(p.ev \o (IF p.tail = <<>> THEN <<>> ELSE <<p.tail[1]>>))
  IN /\ Waits(ev)
     /\ ~c.bad
     /\ \/ c = whole \/ c = part
        \/ p.tail # <<>> /\ PrefixOf(c, all) /\ c.rest = Zero /\ PrefixOf(whole, c)
           /\ (whole.rest = Zero \/ Len(c.fr) > Len(whole.fr))

\* ---- nh_recorder: <<"z", t>> is a time stamp, <<"e", n>> n bytes of one.
\* t is in hundredths of a second
Centi(n) == <<0, n \div 100, (n % 100) * 10000>>
NhStep(c, k) ==
  CASE c.cut -> c
    [] ~c.cut /\ k[1] = "x" -> [c EXCEPT !.ev = Append(@, <<"p", k[2]>>)]
    [] ~c.cut /\ k[1] = "e" -> [c EXCEPT !.cut = TRUE]
    [] OTHER -> [c EXCEPT !.ev = Append(@, <<"w", Minus(Centi(k[2]), Centi(c.at))>>), !.at = k[2]]
NhPlay(tok) == FoldLeft(NhStep, [ev |-> <<>>, at |-> 0, cut |-> FALSE], tok).ev
NhOk(tok, ev) == Waits(ev) /\ Shown(ev) = Shown(NhPlay(tok))

\* The file of a recording: before each frame's text a stamp with its time
\* since the start, to a hundredth
NhFileOk(start, frames, tok) ==
  LET RECURSIVE At(_, _)
      \* the pieces of text with the stamp in force
      At(i, z) == IF i > Len(tok) THEN <<>>
                  ELSE IF tok[i][1] = "x" THEN <<<<z, tok[i][2]>>>> \o At(i + 1, z)
                  ELSE At(i + 1, tok[i][2])
      fr == SelectSeq(frames, LAMBDA f : f.n > 0)
      got == At(1, 0)
      RECURSIVE Walk(_, _, _)
      Walk(i, j, used) ==              \* frames i.. are the pieces j.. less used
        IF i > Len(fr) THEN j > Len(got)
        ELSE /\ j <= Len(got)
             /\ used + fr[i].n <= got[j][2]
             /\ Near(Centi(got[j][1]), Minus(fr[i].t, start), 10000)
             /\ IF used + fr[i].n = got[j][2] THEN Walk(i + 1, j + 1, 0) ELSE Walk(i + 1, j, used + fr[i].n)
  IN (\A i \in DOMAIN tok : tok[i][1] # "e") /\ Walk(1, 1, 0)

\* ---- plain text, played at 2400 baud: 60 bytes, then 0.2 s
TextPlay(n) ==
  LET RECURSIVE P(_)
      P(k) == IF k <= 0 THEN <<>> ELSE <<<<"p", IF k < 60 THEN k ELSE 60>>, <<"w", <<0, 0, 200000>>>>>> \o P(k - 60)
  IN P(n)
TextOk(n, ev) == Shown(ev) = Shown(TextPlay(n))
=============================================================================
