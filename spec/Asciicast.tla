------------------------------- MODULE Asciicast -------------------------------
(***************************************************************************)
(* asciicast v1 and v2.  A file is given as its JSON tokens:               *)
(*   <<"{">> <<"}">> <<"[">> <<"]">> <<",">> <<":">>                       *)
(*   <<"s", units, whole>>  a string: bytes as they are; 256 + c is the    *)
(*                          escape \c, 1000 + u is \u with four digits;    *)
(*                          whole: its closing quote is there              *)
(*   <<"n", neg, digits, digits after the point, exponent>>                *)
(*   <<"k", word>>          true, false, null                              *)
(*   <<"?">>                anything that is not JSON                      *)
(* What a player is told is a sequence of <<"i", t>>, <<"w", t>> and       *)
(* <<"p", bytes>>.                                                         *)
(***************************************************************************)
EXTENDS Time, TLC

Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* The bytes of a string; bad: escapes JSON does not know, or half a pair
RECURSIVE DecR(_, _, _)
DecR(u, i, out) ==
  IF i > Len(u) THEN [s |-> out, bad |-> FALSE]
  ELSE LET x == u[i] IN
    IF x < 256 THEN DecR(u, i + 1, Append(out, x))
    ELSE IF x < 1000 THEN
      LET e == x - 256
          m == [c \in {98, 102, 110, 114, 116} |-> CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9]
      IN IF e \in DOMAIN m THEN DecR(u, i + 1, Append(out, m[e]))
         ELSE IF e \in {34, 92, 47} THEN DecR(u, i + 1, Append(out, e))
         ELSE [s |-> out, bad |-> TRUE]
    ELSE LET c == x - 1000 IN
      IF c \in 55296..56319 /\ i < Len(u) /\ u[i + 1] - 1000 \in 56320..57343
      THEN DecR(u, i + 2, out \o Utf8(65536 + (c - 55296) * 1024 + (u[i + 1] - 1000 - 56320)))
      ELSE IF c \in 55296..57343 THEN [s |-> out, bad |-> TRUE]
      ELSE DecR(u, i + 1, out \o Utf8(c))
RECURSIVE DecH(_)
DecH(u) ==                      \* the same, halved again and again: TLC is quicker so
  IF Len(u) <= 40 THEN DecR(u, 1, <<>>)
  ELSE LET m == Len(u) \div 2
           k == IF u[m] - 1000 \in 55296..56319 THEN m - 1 ELSE m
           a == DecH(SubSeq(u, 1, k))
           b == DecH(SubSeq(u, k + 1, Len(u)))
       IN IF a.bad THEN a ELSE [s |-> a.s \o b.s, bad |-> b.bad]
Dec(u) == IF \A i \in DOMAIN u : u[i] < 256 THEN [s |-> u, bad |-> FALSE] ELSE DecH(u)

\* A number, as a time, cut down to microseconds
NumTime(n) ==
  LET d == n[3] \o n[4]
      p == Len(n[3]) + n[5]
      At(k) == IF k \in 1..Len(d) THEN d[k] ELSE 0
      RECURSIVE S(_, _, _)
      S(k, h, l) == IF k > p THEN <<h, l>>
                    ELSE LET x == l * 10 + At(k) IN S(k + 1, h * 10 + (x \div 65536), x % 65536)
      s == S(1, 0, 0)
  IN <<s[1], s[2], ((((At(p + 1) * 10 + At(p + 2)) * 10 + At(p + 3)) * 10 + At(p + 4)) * 10 + At(p + 5)) * 10 + At(p + 6)>>
IsInt(n) == n[2] = 0 /\ n[4] = <<>> /\ n[5] = 0
IntOf(n) == LET RECURSIVE V(_, _) V(k, v) == IF k > Len(n[3]) \/ v > 100000000 THEN v ELSE V(k + 1, v * 10 + n[3][k]) IN V(1, 0)

\* The token after the value that starts at i; 0: there is none (the file
\* ends, or it is no value), -1: a value beyond those in asciicast headers
RECURSIVE SkipValue(_, _), SkipFields(_, _)
SkipValue(tok, i) ==
  IF i > Len(tok) THEN 0
  ELSE LET t == tok[i] IN
    CASE t[1] = "s" -> IF ~t[3] THEN 0 ELSE IF Dec(t[2]).bad THEN -1 ELSE i + 1
      [] t[1] = "n" -> IF t[2] = 1 THEN -1 ELSE i + 1
      [] t[1] = "k" -> IF t[2] = "null" THEN i + 1 ELSE -1
      [] t[1] = "{" -> IF i < Len(tok) /\ tok[i + 1][1] = "}" THEN i + 2 ELSE SkipFields(tok, i + 1)
      [] t[1] \in {"[", "?"} -> -1
      [] OTHER -> 0
SkipFields(tok, i) ==
  IF i + 1 > Len(tok) THEN 0
  ELSE IF tok[i][1] = "?" \/ tok[i + 1][1] = "?" \/ tok[i][1] = "}" THEN -1
  ELSE IF tok[i][1] # "s" \/ tok[i + 1][1] # ":" THEN 0
  ELSE LET e == SkipValue(tok, i + 2) IN
    IF e <= 0 THEN e
    ELSE IF e > Len(tok) THEN 0
    ELSE CASE tok[e][1] = "," -> SkipFields(tok, e + 1)
           [] tok[e][1] = "}" -> e + 1
           [] tok[e][1] = "?" -> -1
           [] OTHER -> 0

\* The header: st = "ok", "fault" (it has to be refused) or "any" (malformed,
\* in a way that readers may let pass); next: where the events start
Name(t) == IF t[1] = "s" /\ t[3] THEN Dec(t[2]).s ELSE <<>>
N_version == <<118, 101, 114, 115, 105, 111, 110>>
N_width == <<119, 105, 100, 116, 104>>
N_height == <<104, 101, 105, 103, 104, 116>>
N_timestamp == <<116, 105, 109, 101, 115, 116, 97, 109, 112>>
N_stdout == <<115, 116, 100, 111, 117, 116>>

RECURSIVE Fields(_, _, _)
Fields(tok, i, h) ==
  IF i > Len(tok) THEN [h EXCEPT !.st = "fault"]
  ELSE IF tok[i][1] = "?" THEN [h EXCEPT !.st = "any"]
  ELSE IF tok[i][1] = "}" THEN [h EXCEPT !.st = IF h.ver = 0 THEN "fault" ELSE "any"]
  ELSE IF tok[i][1] # "s" \/ i + 1 > Len(tok) THEN [h EXCEPT !.st = "fault"]
  ELSE IF Dec(tok[i][2]).bad \/ tok[i + 1][1] = "?" THEN [h EXCEPT !.st = "any"]
  ELSE IF tok[i + 1][1] # ":" THEN [h EXCEPT !.st = "fault"]
  ELSE IF i + 2 > Len(tok) THEN [h EXCEPT !.st = "fault"]
  ELSE
  LET nm == Name(tok[i])
      v == tok[i + 2]
      num == v[1] = "n"
      After(e, hh) ==
        IF e > Len(tok) THEN [hh EXCEPT !.st = "fault"]
        ELSE CASE tok[e][1] = "," -> Fields(tok, e + 1, hh)
               [] tok[e][1] = "}" -> [hh EXCEPT !.st = IF hh.ver # 2 THEN "fault" ELSE IF hh.w = 0 \/ hh.h = 0 THEN "any" ELSE "ok", !.next = e + 1]
               [] tok[e][1] = "?" -> [hh EXCEPT !.st = "any"]
               [] OTHER -> [hh EXCEPT !.st = "fault"]
      any == [h EXCEPT !.st = "any"]
  IN CASE v[1] = "?" -> any
       [] nm = N_version -> IF num /\ IsInt(v) /\ IntOf(v) \in {1, 2} THEN After(i + 3, [h EXCEPT !.ver = IntOf(v)])
                            ELSE IF num /\ ~IsInt(v) THEN any ELSE [h EXCEPT !.st = "fault"]
       [] nm = N_width -> IF num /\ IsInt(v) THEN After(i + 3, [h EXCEPT !.w = IntOf(v)]) ELSE any
       [] nm = N_height -> IF num /\ IsInt(v) THEN After(i + 3, [h EXCEPT !.h = IntOf(v)]) ELSE any
       [] nm = N_timestamp -> IF num /\ v[2] = 0 THEN After(i + 3, [h EXCEPT !.ts = NumTime(v)]) ELSE any
       [] nm = N_stdout /\ h.ver = 1 ->
            IF v[1] = "[" THEN [h EXCEPT !.st = IF h.w = 0 \/ h.h = 0 THEN "any" ELSE "ok", !.next = i + 3] ELSE [h EXCEPT !.st = "fault"]
       [] OTHER -> LET e == SkipValue(tok, i + 2) IN
                   IF e = 0 THEN [h EXCEPT !.st = "fault"] ELSE IF e < 0 THEN any ELSE After(e, h)

Header(tok) ==
  LET h == [st |-> "ok", next |-> 0, ver |-> 0, w |-> 0, h |-> 0, ts |-> <<>>] IN
  IF tok = <<>> THEN [h EXCEPT !.st = "fault"]
  ELSE IF tok[1][1] = "{" THEN Fields(tok, 2, h)
  ELSE [h EXCEPT !.st = "fault"]

\* The events: st as above, "end" being a file that is fine but for its end
\* missing; ev: Seq([t, s, o]) with the time since the start, the text, and
\* whether it is output
RECURSIVE Events(_, _, _, _, _)
Events(tok, i, ver, now, ev) ==
  LET T(k) == IF k > Len(tok) THEN "" ELSE tok[k][1]
      R(st) == [st |-> st, ev |-> ev, next |-> i]
      Fault(k) == IF T(k) = "?" THEN R("any") ELSE R("fault")
  IN
  IF T(i) = "" THEN R(IF ver = 2 THEN "ok" ELSE "end")
  ELSE IF ver = 1 /\ T(i) = "]" THEN R("ok")
  ELSE IF ver = 1 /\ T(i) = "," /\ ev # <<>> /\ T(i - 1) = "]" /\ T(i + 1) \in {"["} THEN Events(tok, i + 1, ver, now, ev)
  ELSE IF T(i) \in {",", "]", "}"} THEN R("any")
  ELSE IF T(i) # "[" THEN Fault(i)
  ELSE IF ver = 1 /\ ev # <<>> /\ T(i - 1) # "," THEN R("any")
  ELSE IF T(i + 1) # "n" THEN Fault(i + 1)
  ELSE IF tok[i + 1][2] = 1 THEN R("fault")
  ELSE IF T(i + 2) # "," THEN Fault(i + 2)
  ELSE IF T(i + 3) # "s" THEN Fault(i + 3)
  ELSE
    LET d3 == Dec(tok[i + 3][2])
        d5 == Dec(tok[i + 5][2])
        d == IF ver = 2 THEN d5 ELSE d3
        t == NumTime(tok[i + 1])
        at == IF ver = 2 THEN t ELSE Plus(now, t)
        k == IF ver = 2 THEN i + 5 ELSE i + 3
    IN IF d3.bad THEN R("any")
       ELSE IF ver = 2 /\ T(i + 4) # "," THEN Fault(i + 4)
       ELSE IF ver = 2 /\ T(i + 5) # "s" THEN Fault(i + 5)
       ELSE IF d.bad THEN R("any")
       ELSE IF T(k + 1) # "]" THEN Fault(k + 1)
       ELSE Events(tok, k + 2, ver, at,
                   Append(ev, [t |-> at, s |-> d.s, o |-> (ver = 1 \/ d3.s = <<111>>)]))

Parse(tok) ==
  LET h == Header(tok)
      e == IF h.st = "ok" THEN Events(tok, h.next, h.ver, Zero, <<>>) ELSE [st |-> "none", ev |-> <<>>, next |-> 0]
  IN [h |-> h, e |-> e]

\* ---- what is shown
RECURSIVE Dec10(_)
Dec10(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec10(n \div 10), 48 + (n % 10))
SizeText(w, h) == <<27, 37, 71, 27, 91, 56, 59>> \o Dec10(h) \o <<59>> \o Dec10(w) \o <<116>>

\* pieces [t, s] of text with the time each is shown
RECURSIVE GotR(_, _, _, _)
GotR(ev, i, now, out) ==
  IF i > Len(ev) THEN [p |-> out, total |-> now]
  ELSE LET e == ev[i] IN
    CASE e[1] = "w" -> GotR(ev, i + 1, Plus(now, e[2]), out)
      [] e[1] = "p" /\ e[2] # <<>> -> GotR(ev, i + 1, now, Append(out, [t |-> now, s |-> e[2]]))
      [] OTHER -> GotR(ev, i + 1, now, out)
Got(ev) == GotR(ev, 1, Zero, <<>>)

RECURSIVE TextOf(_, _, _)
TextOf(p, i, out) == IF i > Len(p) THEN out ELSE TextOf(p, i + 1, out \o p[i].s)
Text(p) == TextOf(p, 1, <<>>)

\* where each piece ends
RECURSIVE EndsR(_, _, _, _)
EndsR(p, i, at, out) == IF i > Len(p) THEN out ELSE EndsR(p, i + 1, at + Len(p[i].s), Append(out, at + Len(p[i].s)))
Ends(p) == EndsR(p, 1, 0, <<>>)

\* every byte of `want` appears in `got` at its place and about its time
SameTimes(want, got, tol) ==
  LET a == Ends(want) b == Ends(got)
      RECURSIVE W(_, _)
      W(i, j) == IF i > Len(a) \/ j > Len(b) THEN TRUE
                 ELSE /\ Near(want[i].t, got[j].t, tol)
                      /\ IF a[i] = b[j] THEN W(i + 1, j + 1) ELSE IF a[i] < b[j] THEN W(i + 1, j) ELSE W(i, j + 1)
      \* pieces without text have no time to compare
  IN W(1, 1)

Strip(p) == SelectSeq(p, LAMBDA x : x.s # <<>>)
Shown(ev) == Strip(SelectSeq(ev, LAMBDA x : x.o))
StartsWith(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p

Inits(ev) == SelectSeq(ev, LAMBDA e : e[1] = "i")
WaitsOk(ev) == \A i \in DOMAIN ev : ev[i][1] # "p" => IsTime(ev[i][2])

PlayOk(tok, ev) ==
  LET p == Parse(tok)
      g == Got(ev)
      head == IF p.h.st = "ok" THEN <<[t |-> Zero, s |-> SizeText(p.h.w, p.h.h)]>> ELSE <<>>
      want == head \o Shown(p.e.ev)
      text == Text(g.p)
      wtext == Text(want)
      tol == 2 + Len(p.e.ev)
      n == Len(p.e.ev)
  IN /\ p.h.st # "any" /\ p.e.st # "any" => WaitsOk(ev)
     /\ Len(Inits(ev)) <= 1
     /\ p.h.st = "ok" /\ p.h.ts # <<>> => Inits(ev) # <<>> /\ Near(Inits(ev)[1][2], p.h.ts, 2) /\ ev[1][1] = "i"
     /\ IF p.h.st = "fault"
        THEN \* refused, with a message
             /\ \A i \in DOMAIN ev : ev[i][1] # "w"
             /\ text # <<>> /\ text[Len(text)] = 10 /\ text[1] # 27
        ELSE IF p.h.st = "any" THEN TRUE
        ELSE /\ StartsWith(text, wtext)
             /\ SameTimes(want, g.p, tol)
             /\ p.e.st = "ok" => /\ Len(text) = Len(wtext)
                                 /\ Leq(g.total, IF n = 0 THEN Zero ELSE Plus(p.e.ev[n].t, <<0, 0, tol>>))
             /\ p.e.st = "fault" => Len(text) > Len(wtext) /\ text[Len(text)] = 10

(***************************************************************************)
(* Recording: frames are [t, s]; text goes to the file with the frame its  *)
(* last byte is in, as no string may end within a character.               *)
(***************************************************************************)
\* how many bytes at the end of s are the start of a character
Partial(s) ==
  LET n == Len(s)
      Lead(k) == IF k > n THEN 0 ELSE s[n - k + 1]         \* k-th from the end
      Needs(b) == IF b >= 240 THEN 4 ELSE IF b >= 224 THEN 3 ELSE IF b >= 192 THEN 2 ELSE 1
      C(k) == Lead(k) \in 128..191
  IN IF Needs(Lead(1)) > 1 THEN 1
     ELSE IF C(1) /\ Needs(Lead(2)) > 2 THEN 2
     ELSE IF C(1) /\ C(2) /\ Needs(Lead(3)) > 3 THEN 3
     ELSE 0
RECURSIVE WholeR(_, _, _, _)
WholeR(fr, i, left, out) ==
  IF i > Len(fr) THEN out
  ELSE LET s == left \o fr[i].s
           k == Partial(s)
       IN WholeR(fr, i + 1, SubSeq(s, Len(s) - k + 1, Len(s)), Append(out, [t |-> fr[i].t, s |-> SubSeq(s, 1, Len(s) - k)]))

FileOk(ver, start, size, frames, tok) ==
  LET p == Parse(tok)
      st == IF start = <<>> THEN Zero ELSE start
      lead == SizeText(size[1], size[2])
      \* the size at the very start is told by the header
      fr0 == IF frames # <<>> /\ StartsWith(frames[1].s, lead)
             THEN <<[frames[1] EXCEPT !.s = SubSeq(@, Len(lead) + 1, Len(@))]>> \o Tail(frames)
             ELSE frames
      From(base) == Strip([i \in DOMAIN fr0 |-> [t |-> Minus(fr0[i].t, base), s |-> fr0[i].s]])
      want == Strip(WholeR(From(Whole(st)), 1, <<>>, <<>>))
      want1 == Strip(WholeR(From(st), 1, <<>>, <<>>))
      got == Shown(p.e.ev)
  IN /\ p.h.st = "ok" /\ p.e.st = "ok"
     /\ p.h.ver = ver /\ p.h.w = size[1] /\ p.h.h = size[2]
     /\ ver = 1 => p.e.next + 1 = Len(tok) /\ tok[p.e.next + 1][1] = "}"
     /\ Whole(st) # Zero => p.h.ts = Whole(st)
     /\ p.h.ts # <<>> => p.h.ts = Whole(st)
     /\ Text(got) = Text(want)
     /\ SameTimes(want, got, 1) \/ (ver = 1 /\ SameTimes(want1, got, 1))
     /\ \A i \in DOMAIN p.e.ev : p.e.ev[i].o
=============================================================================
