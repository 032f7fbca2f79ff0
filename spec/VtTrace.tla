------------------------------ MODULE VtTrace ------------------------------
(***************************************************************************)
(* Redirection of a terminal to another one.  A recording has what the     *)
(* inner terminal looks like after every call and the bytes the redirec-   *)
(* tion produced; the outer terminal is the specification's own, fed those *)
(* bytes.  The two screens are the same after every write.                 *)
(*                                                                         *)
(* If CLIP is set, the outer terminal has a size of its own ("S"), which   *)
(* the redirection is told when it changes; one that obeys requests (CLIP  *)
(* is "obey") may change it too.  What is on both screens is the same,     *)
(* but a wide character of which a half is.                                *)
(***************************************************************************)
EXTENDS Tty, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, Outer, known, bad
vars == <<l, Outer, known, bad>>

Clip == IF "CLIP" \in DOMAIN IOEnv THEN IOEnv.CLIP ELSE ""
Min3(a, b, c) == IF a <= b /\ a <= c THEN a ELSE IF b <= c THEN b ELSE c

NoTty == [sx |-> 0]
Cells(scr) == [i \in 1..Len(scr) |-> <<scr[i][1], scr[i][2], scr[i][3], scr[i][4], scr[i][5]>>]
Text1(t) == IF t = NoTitle THEN <<>> ELSE t
\* a cursor waiting past the last column can only be put on it
Shown(cx, sx) == IF cx >= sx THEN sx - 1 ELSE cx

Wrong(t, o) ==
  IF t.sx # o.sx \/ t.sy # o.sy THEN <<"size", t.sx, t.sy>>
  ELSE IF \E i \in 1..Len(t.scr) : Cells(t.scr)[i] # o.scr[i]
  THEN LET i == CHOOSE i \in 1..Len(t.scr) : t.scr[i] # o.scr[i]
       IN <<"cell", (i - 1) % t.sx, (i - 1) \div t.sx, "shown", t.scr[i], "is", o.scr[i]>>
  ELSE IF <<Shown(t.cx, t.sx), t.cy>> # <<Shown(o.cx, o.sx), o.cy>>
  THEN <<"cursor shown", t.cx, t.cy, "is", o.cx, o.cy>>
  ELSE IF Text1(t.title) # Text1(o.ti) THEN <<"title shown", t.title, "is", o.ti>>
  ELSE IF t.st # "normal" THEN <<"output ends inside a sequence">>
  ELSE <<>>

\* The size the redirection knows of, and whether all has been drawn since.
\* It has to know if the display got too small for what is to be shown.
Least(a, b) == IF a <= b THEN a ELSE b
Known(r, t) ==
  LET ok == t.sx >= Least(known[1], r.o.sx) /\ t.sy >= Least(known[2], r.o.sy)
  IN CASE r.op = "I" -> <<80, 25, FALSE>>
       [] r.op = "S" -> <<r.a, r.b, FALSE>>
       [] r.op = "D" -> <<known[1], known[2], ok>>
       [] r.op = "W" -> <<known[1], known[2], known[3] /\ ok>>
       [] OTHER -> <<known[1], known[2], FALSE>>

Clipped(t, o) ==
  LET w == Min3(t.sx, o.sx, known[1])
      h == Min3(t.sy, o.sy, known[2])
      In(x, y) == o.scr[y * o.sx + x + 1]
      Half(x, y) == x = w - 1 /\ w < o.sx /\ In(x + 1, y)[1] = RIGHT
      D == {p \in (0..w - 1) \X (0..h - 1) : ~Half(p[1], p[2]) /\ Cells(t.scr)[p[2] * t.sx + p[1] + 1] # In(p[1], p[2])}
  IN IF D # {}
     THEN LET p == CHOOSE p \in D : TRUE
          IN <<"cell", p, "shown", t.scr[p[2] * t.sx + p[1] + 1], "is", In(p[1], p[2])>>
     ELSE IF \/ t.cy # Shown(o.cy, h)
             \/ (Shown(t.cx, t.sx) # Shown(o.cx, w) /\ ~(o.cx >= w /\ t.cx = w))
     THEN <<"cursor shown", t.cx, t.cy, "is", o.cx, o.cy>>
     ELSE IF Text1(t.title) # Text1(o.ti) THEN <<"title shown", t.title, "is", o.ti>>
     ELSE IF t.st # "normal" THEN <<"output ends inside a sequence">>
     ELSE <<>>

Init == l = 1 /\ Outer = NoTty /\ known = <<80, 25, FALSE>> /\ bad = FALSE

Next ==
  /\ ~bad /\ l <= Len(Trace)
  /\ LET r == Trace[l]
         \* "w": the redirection is not attached yet
         t == CASE r.op = "I" -> New(r.a, r.b, Clip # "deaf")
                [] r.op = "R" -> IF Clip = "" THEN Resize(Outer, r.a, r.b) ELSE Outer
                [] r.op = "S" /\ Clip # "" -> Quiet(Resize(Outer, r.a, r.b))
                [] r.op = "w" -> Outer
                \* a dump draws the screen: the title is told only when set
                [] r.op = "V" -> [Quiet(Feed(Outer, r.v)) EXCEPT !.title = r.o.ti]
                [] OTHER -> Quiet(Feed(Outer, r.v))
         w == IF Clip = "" /\ r.op \in {"W", "D", "V"} THEN Wrong(t, r.o)
              ELSE IF Clip # "" /\ r.op \in {"D", "W"} /\ Known(r, t)[3] THEN Clipped(t, r.o)
              ELSE <<>>
     IN IF w = <<>>
        THEN Outer' = t /\ l' = l + 1 /\ bad' = FALSE /\ known' = Known(r, t)
        ELSE PrintT(<<"MISMATCH", l, r.op, w>>) /\ bad' = TRUE /\ UNCHANGED <<Outer, known, l>>

Spec == Init /\ [][Next]_vars
SpecOk == Outer = NoTty \/ WellFormed(Outer)
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
