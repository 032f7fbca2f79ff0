--------------------------------- MODULE Tty ---------------------------------
(***************************************************************************)
(* The terminal emulator (libtty/tty.c) as a transition system: a record   *)
(* for the complete state of one terminal, and Byte(s, b), the state after *)
(* it has been sent one more byte.  Everything here is total and           *)
(* deterministic: whatever bytes arrive, the specification says what the   *)
(* screen is.                                                              *)
(*                                                                         *)
(* A cell is <<ch, comb, fg, bg, fl>>: the character (RIGHT for the right  *)
(* half of a double-width one), the combining marks over it, the two       *)
(* colours (type * 2^24 + value) and the flag bits.                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TtyTables

RIGHT     == -1
NoAttr    == <<0, 0, 0>>
BOLD      == 1
DIM       == 2
ITALIC    == 4
UNDERLINE == 8
STRIKE    == 16
INVERSE   == 32
BLINK     == 64
CJK       == 128
MaxTok    == 16
MaxOsc    == 4095
MaxComb   == 4
NoTitle   == <<-1>>

Has(f, b)   == (f \div b) % 2 = 1
SetB(f, b)  == IF Has(f, b) THEN f ELSE f + b
ClrB(f, b)  == IF Has(f, b) THEN f - b ELSE f

Blank(at)   == <<32, <<>>, at[1], at[2], at[3]>>
ZeroTok     == [i \in 1..MaxTok |-> <<0, 0>>]

New(sx, sy, resizable) ==
  [ sx |-> sx, sy |-> sy,
    scr |-> [i \in 1..(sx * sy) |-> Blank(NoAttr)],
    cx |-> 0, cy |-> 0, at |-> NoAttr,
    s1 |-> 0, s2 |-> sy,
    scx |-> 0, scy |-> 0, sat |-> NoAttr,
    g |-> <<FALSE, TRUE>>, cg |-> 1, sg |-> <<FALSE, TRUE>>, scg |-> 1,
    cp |-> FALSE, rs |-> resizable, aw |-> TRUE, cur |-> 1, kp |-> 0,
    un |-> 0, uc |-> 0, us |-> 0,
    st |-> "normal", nt |-> 0, tok |-> ZeroTok,
    oscon |-> FALSE, osc |-> <<>>, title |-> NoTitle,
    ev |-> <<>> ]

-----------------------------------------------------------------------------
(* Parameters are unsigned 32-bit numbers, kept as two 16-bit halves.      *)
TokDigit(t, d) == LET lo == t[2] * 10 + d
                  IN  << (t[1] * 10 + lo \div 65536) % 65536, lo % 65536 >>
Signed(t)    == IF t[1] >= 32768 THEN (t[1] - 65536) * 65536 + t[2]
                              ELSE t[1] * 65536 + t[2]
Low24(t)  == (t[1] % 256) * 65536 + t[2]
Low8(t)   == t[2] % 256
IsZero(t) == t[1] = 0 /\ t[2] = 0
\* unsigned t <= n, for a small n
AtMost(t, n) == t[1] = 0 /\ t[2] <= n
Count(t)  == LET i == Signed(t) IN IF i < 1 THEN 1 ELSE i
Coord(t, n) == LET i == Signed(t) - 1        \* Signed(t) = -2^31 wraps, see CoordSafe
               IN  IF i < 0 THEN 0 ELSE IF i >= n THEN n - 1 ELSE i
\* the smallest integer less one: wraps to the largest in two's complement
CoordSafe(t, n) == IF t = <<32768, 0>> THEN n - 1 ELSE Coord(t, n)

-----------------------------------------------------------------------------
Ix(s, x, y)  == y * s.sx + x + 1
At(s, x, y)  == s.scr[y * s.sx + x + 1]

\* a half of a torn double-width character
Torn(c)      == <<32, <<>>, c[3], c[4], ClrB(c[5], CJK)>>

\* the cell x of the cursor's row is about to change: if it is a right half,
\* its left half goes
DamageLeft(s, x) ==
  IF x <= 0 \/ x >= s.sx THEN s
  ELSE IF At(s, x, s.cy)[1] # RIGHT THEN s
  ELSE [s EXCEPT !.scr[Ix(s, x - 1, s.cy)] = Torn(@)]

\* ... if it is a left half, its right half goes
DamageRight(s, x) ==
  IF x < 0 \/ x + 1 >= s.sx THEN s
  ELSE LET c == At(s, x, s.cy) IN
       IF Has(c[5], CJK) /\ c[1] # RIGHT
       THEN [s EXCEPT !.scr[Ix(s, x + 1, s.cy)] = Torn(@)]
       ELSE s

\* blank l cells from offset o (0-based, in reading order)
Clear(s, o, l) ==
  IF l <= 0 THEN s
  ELSE [s EXCEPT !.scr =
          SubSeq(@, 1, o) \o [i \in 1..l |-> Blank(s.at)]
                          \o SubSeq(@, o + l + 1, Len(@))]

\* scroll the rows a <= y < b by nl: forwards (contents move up) if nl > 0
ScrollRows(s, a, b, nl) ==
  LET n == IF nl < 0 THEN -nl ELSE nl
      k == b - a - n
      w == s.sx
  IN IF k <= 0 THEN Clear(s, a * w, (b - a) * w)
     ELSE LET blanks == [i \in 1..(n * w) |-> Blank(s.at)]
              before == SubSeq(s.scr, 1, a * w)
              after  == SubSeq(s.scr, b * w + 1, Len(s.scr))
          IN IF nl > 0
             THEN [s EXCEPT !.scr = before \o SubSeq(@, (a + n) * w + 1, b * w)
                                           \o blanks \o after]
             ELSE [s EXCEPT !.scr = before \o blanks
                                    \o SubSeq(@, a * w + 1, (b - n) * w) \o after]

Scroll(s, nl) == ScrollRows(s, s.s1, s.s2, nl)

\* one line down: scrolls at the bottom of the scrolling region only
LineDown(s) ==
  IF s.cy + 1 = s.s2 THEN Scroll([s EXCEPT !.cy = s.s2 - 1], 1)
  ELSE IF s.cy + 1 >= s.sy THEN [s EXCEPT !.cy = s.sy - 1]
  ELSE [s EXCEPT !.cy = @ + 1]

LineUp(s) ==
  IF s.cy = s.s1 THEN Scroll(s, -1)
  ELSE IF s.cy = 0 THEN s
  ELSE [s EXCEPT !.cy = @ - 1]

-----------------------------------------------------------------------------
(* Text.                                                                   *)
AddComb(s, c) ==
  IF s.cx = 0 THEN s
  ELSE LET x == IF At(s, s.cx - 1, s.cy)[1] = RIGHT THEN s.cx - 2 ELSE s.cx - 1
           k == Ix(s, x, s.cy)
       IN IF Len(s.scr[k][2]) >= MaxComb THEN s
          ELSE [s EXCEPT !.scr[k][2] = Append(@, c)]

PutChar(s, c, w) ==
  LET d1 == DamageLeft(s, s.cx)
      d2 == DamageRight(d1, s.cx + w - 1)
      k  == Ix(s, s.cx, s.cy)
      a  == s.at
  IN IF w = 1
     THEN [d2 EXCEPT !.scr[k] = <<c, <<>>, a[1], a[2], a[3]>>, !.cx = @ + 1]
     ELSE [d2 EXCEPT !.scr[k] = <<c, <<>>, a[1], a[2], a[3] + CJK>>,
                     !.scr[k + 1] = <<RIGHT, <<>>, a[1], a[2], a[3] + CJK>>,
                     !.cx = @ + 2]

WriteChar(s, c) ==
  LET w == Width(c) IN
  IF w < 0 THEN s
  ELSE IF w = 0 THEN AddComb(s, c)
  ELSE LET g  == IF c < 128 /\ s.g[s.cg] THEN CsGraph[c + 1] ELSE c
           s1 == IF s.cx + w <= s.sx THEN s
                 ELSE IF s.aw THEN LineDown([s EXCEPT !.cx = 0])
                 ELSE [s EXCEPT !.cx = s.sx - w]
       IN PutChar(s1, g, w)

Tab(s) ==
  IF s.cx >= s.sx THEN s
  ELSE LET stop == (s.cx \div 8) * 8 + 8
           to   == IF stop > s.sx THEN s.sx ELSE stop
           d1   == DamageLeft(s, s.cx)
           d2   == DamageRight(d1, stop - 1)
       IN [Clear(d2, s.cy * s.sx + s.cx, to - s.cx) EXCEPT !.cx = to]

\* a complete multi-byte sequence gave the number c
Decoded(s, c0) ==
  LET c == IF c0 < 160 THEN 65533 ELSE c0 IN      \* overlong, C1
  IF c = 65279 THEN s                             \* dropped
  ELSE IF c >= 55296 /\ c < 56320 THEN [s EXCEPT !.us = c]
  ELSE LET trail == c >= 56320 /\ c <= 57343
           j == IF ~trail THEN c
                ELSE IF s.us # 0 THEN (s.us - 55296) * 1024 + (c - 56320) + 65536
                ELSE 65533
           v == IF j > 1114111 THEN 65533
                ELSE IF j % 65536 >= 65534 \/ (j >= 64976 /\ j < 65008) THEN 65533
                ELSE j
       IN WriteChar(IF trail THEN [s EXCEPT !.us = 0] ELSE s, v)

Text(s, b) ==
  IF s.cp THEN WriteChar(s, CsCP437[b + 1])
  ELSE IF b < 128 THEN WriteChar([s EXCEPT !.un = 0], b)
  ELSE IF s.un > 0 /\ b < 192
       THEN LET c == s.uc * 64 + (b - 128)
                t == [s EXCEPT !.uc = c, !.un = @ - 1]
            IN IF s.un > 1 THEN t ELSE Decoded(t, c)
  ELSE IF b < 192 THEN [s EXCEPT !.un = 0]
  ELSE IF b < 224 THEN [s EXCEPT !.un = 1, !.uc = b - 192]
  ELSE IF b < 240 THEN [s EXCEPT !.un = 2, !.uc = b - 224]
  ELSE IF b < 248 THEN [s EXCEPT !.un = 3, !.uc = b - 240]
  ELSE IF b < 252 THEN [s EXCEPT !.un = 4, !.uc = b - 248]
  ELSE IF b < 254 THEN [s EXCEPT !.un = 5, !.uc = b - 252]
  ELSE [s EXCEPT !.un = 0]

-----------------------------------------------------------------------------
(* Attributes: CSI ... m                                                   *)
\* parameter number i (0-based)
P(s, i) == s.tok[i + 1]

RECURSIVE Sgr(_, _, _)
Sgr(s, i, at) ==
  IF i > s.nt THEN at
  ELSE
  LET v == Signed(P(s, i))
      f == at[3]
      fl(x) == Sgr(s, i + 1, <<at[1], at[2], x>>)
      fg(x) == Sgr(s, i + 1, <<x, at[2], f>>)
      bg(x) == Sgr(s, i + 1, <<at[1], x, f>>)
      \* an extended colour, for slot k
      put(k, x) == IF k = 1 THEN <<x, at[2], f>> ELSE <<at[1], x, f>>
      ext(k) ==
        IF i >= MaxTok - 1 THEN Sgr(s, i + 1, at)
        ELSE LET kind == Signed(P(s, i + 1)) IN
          CASE kind = 5 -> IF i + 1 >= MaxTok - 1 THEN Sgr(s, i + 2, at)
                           ELSE Sgr(s, i + 3, put(k, 2 * 16777216 + Low24(P(s, i + 2))))
            [] kind = 2 -> IF i + 1 >= MaxTok - 3 THEN Sgr(s, i + 2, at)
                           ELSE Sgr(s, i + 5, put(k, 3 * 16777216
                                    + Low8(P(s, i + 2)) * 65536
                                    + Low8(P(s, i + 3)) * 256
                                    + Low8(P(s, i + 4))))
            [] kind = 3 -> Sgr(s, i + 5, at)
            [] kind = 4 -> Sgr(s, i + 6, at)
            [] OTHER -> Sgr(s, i + 2, at)
  IN CASE v = 0 -> Sgr(s, i + 1, NoAttr)
       [] v = 1 -> fl(ClrB(SetB(f, BOLD), DIM))
       [] v = 2 -> fl(ClrB(SetB(f, DIM), BOLD))
       [] v = 3 -> fl(SetB(f, ITALIC))
       [] v = 4 -> fl(SetB(f, UNDERLINE))
       [] v = 5 -> fl(SetB(f, BLINK))
       [] v = 7 -> fl(SetB(f, INVERSE))
       [] v = 9 -> fl(SetB(f, STRIKE))
       [] v \in {21, 22} -> fl(ClrB(ClrB(f, BOLD), DIM))
       [] v = 23 -> fl(ClrB(f, ITALIC))
       [] v = 24 -> fl(ClrB(f, UNDERLINE))
       [] v = 25 -> fl(ClrB(f, BLINK))
       [] v = 27 -> fl(ClrB(f, INVERSE))
       [] v = 29 -> fl(ClrB(f, STRIKE))
       [] v \in 30..37 -> fg(16777216 + v - 30)
       [] v = 38 -> ext(1)
       [] v = 39 -> fg(0)
       [] v \in 40..47 -> bg(16777216 + v - 40)
       [] v = 48 -> ext(2)
       [] v = 49 -> bg(0)
       [] v \in 90..97 -> fg(2 * 16777216 + 8 + v - 90)
       [] v \in 100..107 -> bg(2 * 16777216 + 8 + v - 100)
       [] OTHER -> Sgr(s, i + 1, at)

-----------------------------------------------------------------------------
Ground(s) == [s EXCEPT !.st = "normal"]
Emit(s, e) == [s EXCEPT !.ev = Append(@, e)]
SetFlag(s, f, v) == IF f = 0 THEN Emit([s EXCEPT !.cur = v], <<2, 0, v>>)
                             ELSE Emit([s EXCEPT !.kp = v], <<2, 1, v>>)

\* back to the power-on state; the window title, the 8-bit mode and a saved
\* attribute stay
Reset(s) ==
  LET t == [s EXCEPT !.at = NoAttr] IN
  [Clear(t, 0, s.sx * s.sy) EXCEPT
     !.cx = 0, !.cy = 0, !.scx = 0, !.scy = 0, !.s1 = 0, !.s2 = s.sy,
     !.st = "normal", !.aw = TRUE, !.cur = 1, !.kp = 0,
     !.g = <<FALSE, TRUE>>, !.sg = <<FALSE, TRUE>>, !.cg = 1, !.scg = 1,
     !.un = 0]

Lesser(a, b) == IF a < b THEN a ELSE b

Resize(s, nx, ny) ==
  IF nx = s.sx /\ ny = s.sy THEN s
  ELSE
  LET cell(x, y) ==
        IF x >= s.sx \/ y >= s.sy THEN Blank(s.at)
        ELSE IF x = nx - 1 /\ nx < s.sx /\ At(s, nx, y)[1] = RIGHT
             THEN Torn(At(s, x, y))
        ELSE At(s, x, y)
  IN [s EXCEPT !.sx = nx, !.sy = ny,
        !.scr = [i \in 1..(nx * ny) |-> cell((i - 1) % nx, (i - 1) \div nx)],
        !.s1 = 0, !.s2 = ny,
        !.cx = Lesser(@, nx), !.cy = Lesser(@, ny - 1),
        !.scx = Lesser(@, nx), !.scy = Lesser(@, ny - 1)]

\* the end of an operating system command: number 0 sets the title
OscEnd(s) ==
  IF P(s, 0) = <<65535, 65535>> THEN s
  ELSE LET t == IF IsZero(P(s, 0))
                THEN [s EXCEPT !.title = IF s.oscon THEN s.osc ELSE NoTitle]
                ELSE s
           n == P(s, 0)
       IN Emit([t EXCEPT !.oscon = FALSE, !.osc = <<>>],
               <<3, n[1], n[2], IF s.oscon THEN s.osc ELSE <<>> >>)

-----------------------------------------------------------------------------
(* ESC x                                                                   *)
Esc(s, b) ==
  CASE b = 91 -> [s EXCEPT !.st = "square", !.nt = 0, !.tok = ZeroTok]   \* [
    [] b = 93 -> [s EXCEPT !.st = "osc", !.tok[1] = <<0, 0>>,            \* ]
                           !.oscon = FALSE, !.osc = <<>>]
    [] b = 40 -> [s EXCEPT !.st = "g0"]
    [] b = 41 -> [s EXCEPT !.st = "g1"]
    [] b = 37 -> [s EXCEPT !.st = "percent"]
    [] b = 55 -> [s EXCEPT !.scx = s.cx, !.scy = s.cy, !.sat = s.at,     \* 7
                           !.sg = s.g, !.scg = s.cg, !.st = "normal"]
    [] b = 56 -> [s EXCEPT !.cx = s.scx, !.cy = s.scy, !.at = s.sat,     \* 8
                           !.g = s.sg, !.cg = s.scg, !.st = "normal"]
    [] b = 68 -> LineDown(Ground(s))                                     \* D
    [] b = 69 -> LineDown([Ground(s) EXCEPT !.cx = 0])                   \* E
    [] b = 77 -> LineUp(Ground(s))                                       \* M
    [] b = 61 -> SetFlag(Ground(s), 1, 1)                                \* =
    [] b = 62 -> SetFlag(Ground(s), 1, 0)                                \* >
    [] OTHER -> Ground(s)

(* CSI ... x                                                               *)
SetRegion(s) ==
  LET top == IF IsZero(P(s, 0)) THEN <<0, 1>> ELSE P(s, 0)
      bot == IF s.nt = 0 \/ IsZero(P(s, 1)) THEN <<0, s.sy>> ELSE P(s, 1)
  IN IF AtMost(bot, s.sy) /\ AtMost(top, bot[2] - 1)
     THEN [s EXCEPT !.s1 = top[2] - 1, !.s2 = bot[2], !.cx = 0, !.cy = top[2] - 1]
     ELSE s

InsLines(s, dir) ==
  IF s.s1 > s.cy \/ s.s2 <= s.cy THEN s
  ELSE ScrollRows(s, s.cy, s.s2, dir * Count(P(s, 0)))

Erase(s, from, to) == Clear(s, from, to - from)

EraseScreen(s) ==
  LET here == s.cy * s.sx + s.cx
      all  == s.sx * s.sy
  IN CASE P(s, 0) = <<0, 0>> -> Erase(DamageLeft(s, s.cx), here, all)
       [] P(s, 0) = <<0, 1>> -> Erase(DamageRight(s, s.cx - 1), 0, here)
       [] P(s, 0) = <<0, 2>> -> Erase(s, 0, all)
       [] OTHER -> s

EraseLine(s) ==
  LET row == s.cy * s.sx
  IN CASE P(s, 0) = <<0, 0>> -> Erase(DamageLeft(s, s.cx), row + s.cx, row + s.sx)
       [] P(s, 0) = <<0, 1>> -> Erase(DamageRight(s, s.cx - 1), row, row + s.cx)
       [] P(s, 0) = <<0, 2>> -> Erase(s, row, row + s.sx)
       [] OTHER -> s

Here(s) == s.cy * s.sx + s.cx
Room(s) == LET n == Count(P(s, 0)) IN Lesser(n, s.sx - s.cx)

InsChars(s) ==
  LET n == Room(s) IN
  IF n <= 0 THEN s
  ELSE LET d1 == DamageLeft(s, s.cx)
           d2 == IF At(d1, s.cx, s.cy)[1] = RIGHT
                 THEN [d1 EXCEPT !.scr[Here(s) + 1] = Torn(@)] ELSE d1
           d3 == DamageLeft(d2, s.sx - n)
           e  == (s.cy + 1) * s.sx
       IN [d3 EXCEPT !.scr = SubSeq(@, 1, Here(s))
                             \o [i \in 1..n |-> Blank(s.at)]
                             \o SubSeq(@, Here(s) + 1, e - n)
                             \o SubSeq(@, e + 1, Len(@))]

DelChars(s) ==
  LET n == Room(s) IN
  IF n <= 0 THEN s
  ELSE LET d2 == DamageRight(DamageLeft(s, s.cx), s.cx + n - 1)
           e  == (s.cy + 1) * s.sx
       IN [d2 EXCEPT !.scr = SubSeq(@, 1, Here(s))
                             \o SubSeq(@, Here(s) + n + 1, e)
                             \o [i \in 1..n |-> Blank(s.at)]
                             \o SubSeq(@, e + 1, Len(@))]

EraseChars(s) ==
  LET n == Room(s) IN
  IF n <= 0 THEN s
  ELSE Clear(DamageRight(DamageLeft(s, s.cx), s.cx + n - 1), Here(s), n)

WindowOp(s) ==
  IF P(s, 0) # <<0, 8>> \/ ~s.rs THEN s
  ELSE LET h == IF s.nt < 1 THEN <<0, 0>> ELSE P(s, 1)
           w == IF s.nt < 2 THEN <<0, 0>> ELSE P(s, 2)
       IN IF ~AtMost(h, 256) \/ ~AtMost(w, 512) THEN s
          ELSE LET ny == IF h[2] = 0 THEN s.sy ELSE h[2]
                   nx == IF w[2] = 0 THEN s.sx ELSE w[2]
               IN IF nx < 2 THEN s
                  ELSE Emit(Resize(s, nx, ny), <<4, nx, ny>>)

Csi(s, b) ==
  LET n == Count(P(s, 0)) IN
  CASE b = 109 -> [s EXCEPT !.at = Sgr(s, 0, s.at)]                              \* m
    [] b = 68 -> [s EXCEPT !.cx = IF @ > n THEN @ - n ELSE 0]                    \* D
    [] b \in {67, 97} -> [s EXCEPT !.cx = IF n < s.sx - @ THEN @ + n ELSE s.sx]  \* C a
    [] b = 65 -> [s EXCEPT !.cy = IF @ > n THEN @ - n ELSE 0]                    \* A
    [] b = 70 -> [s EXCEPT !.cx = 0, !.cy = IF @ > n THEN @ - n ELSE 0]          \* F
    [] b = 66 -> [s EXCEPT !.cy = IF n < s.sy - @ THEN @ + n ELSE s.sy - 1]      \* B
    [] b = 69 -> [s EXCEPT !.cx = 0, !.cy = IF n < s.sy - @ THEN @ + n ELSE s.sy - 1] \* E
    [] b = 114 -> SetRegion(s)                                                   \* r
    [] b = 74 -> EraseScreen(s)                                                  \* J
    [] b = 75 -> EraseLine(s)                                                    \* K
    [] b = 76 -> InsLines(s, -1)                                                 \* L
    [] b = 77 -> InsLines(s, 1)                                                  \* M
    [] b = 64 -> InsChars(s)                                                     \* @
    [] b = 80 -> DelChars(s)                                                     \* P
    [] b = 88 -> EraseChars(s)                                                   \* X
    [] b \in {72, 102} -> [s EXCEPT !.cy = CoordSafe(P(s, 0), s.sy),             \* H f
                                    !.cx = IF s.nt = 0 THEN 0
                                           ELSE CoordSafe(P(s, 1), s.sx)]
    [] b \in {71, 96} -> [s EXCEPT !.cx = CoordSafe(P(s, 0), s.sx)]              \* G `
    [] b = 100 -> [s EXCEPT !.cy = CoordSafe(P(s, 0), s.sy)]                     \* d
    [] b = 99 -> [Reset(s) EXCEPT !.ev = @ \o << <<2, 0, 1>>, <<2, 1, 0>> >>]    \* c
    [] b = 116 -> WindowOp(s)                                                    \* t
    [] OTHER -> s

RECURSIVE Modes(_, _, _)
Modes(s, i, v) ==
  IF i > s.nt THEN s
  ELSE CASE P(s, i) = <<0, 7>>  -> Modes([s EXCEPT !.aw = (v = 1)], i + 1, v)
         [] P(s, i) = <<0, 25>> -> Modes(SetFlag(s, 0, v), i + 1, v)
         [] OTHER -> Modes(s, i + 1, v)

Digit(s, b) == [s EXCEPT !.tok[s.nt + 1] = TokDigit(@, b - 48)]
NextTok(s)  == IF s.nt + 1 >= MaxTok THEN Ground(s)
               ELSE [s EXCEPT !.nt = @ + 1, !.tok[s.nt + 2] = <<0, 0>>]

Params(s, b) ==
  IF b >= 48 /\ b <= 57 THEN Digit(s, b)
  ELSE IF b = 59 THEN NextTok(s)
  ELSE Csi(Ground(s), b)

Ques(s, b) ==
  IF b >= 48 /\ b <= 57 THEN Digit(s, b)
  ELSE IF b = 59 THEN NextTok(s)
  ELSE IF b = 104 THEN Modes(Ground(s), 0, 1)
  ELSE IF b = 108 THEN Modes(Ground(s), 0, 0)
  ELSE Ground(s)

Charset(s, k, b) ==
  CASE b = 48 -> [Ground(s) EXCEPT !.g[k] = TRUE]
    [] b \in {66, 85} -> [Ground(s) EXCEPT !.g[k] = FALSE]
    [] OTHER -> Ground(s)

Dispatch(s, b) ==
  CASE s.st = "normal" -> Text(s, b)
    [] s.st = "esc"    -> Esc(s, b)
    [] s.st = "square" -> IF b = 63 THEN [s EXCEPT !.st = "ques"]
                          ELSE Params([s EXCEPT !.st = "pars"], b)
    [] s.st = "pars"   -> Params(s, b)
    [] s.st = "ques"   -> Ques(s, b)
    [] s.st = "g0"     -> Charset(s, 1, b)
    [] s.st = "g1"     -> Charset(s, 2, b)
    [] s.st = "percent" -> IF b = 64 THEN [Ground(s) EXCEPT !.cp = TRUE]
                           ELSE IF b \in {56, 71} THEN [Ground(s) EXCEPT !.cp = FALSE]
                           ELSE Ground(s)
    [] s.st = "osc"    -> IF b >= 48 /\ b <= 57
                          THEN [s EXCEPT !.tok[1] = TokDigit(@, b - 48)]
                          ELSE IF b = 59
                          THEN [s EXCEPT !.st = "oscstr", !.oscon = TRUE, !.osc = <<>>]
                          ELSE [s EXCEPT !.st = "oscstr", !.tok[1] = <<65535, 65535>>]
    [] s.st = "oscstr" -> IF s.oscon /\ Len(s.osc) < MaxOsc
                          THEN [s EXCEPT !.osc = Append(@, b)] ELSE s

InOsc(s) == s.st \in {"osc", "oscstr"}

Byte(s, b) ==
  IF b >= 32 /\ b # 127 THEN Dispatch(s, b)
  ELSE CASE b \in {0, 5, 127} -> s
         [] b = 7  -> IF InOsc(s) THEN Ground(OscEnd(s)) ELSE Emit(s, <<1>>)
         [] b = 8  -> IF s.cx > 0 THEN [s EXCEPT !.cx = @ - 1] ELSE s
         [] b = 9  -> Tab(s)
         [] b = 10 -> LineDown([s EXCEPT !.cx = 0])
         [] b = 11 -> LineDown(s)
         [] b = 12 -> Clear([s EXCEPT !.cx = 0, !.cy = 0], 0, s.sx * s.sy)
         [] b = 13 -> [s EXCEPT !.cx = 0]
         [] b = 14 -> [s EXCEPT !.cg = 2]
         [] b = 15 -> [s EXCEPT !.cg = 1]
         [] b \in {24, 26} -> Ground(s)
         [] b = 27 -> [(IF InOsc(s) THEN OscEnd(s) ELSE s) EXCEPT !.st = "esc"]
         [] OTHER -> Dispatch(s, b)

\* what a whole string of bytes does
Feed(s, bytes) == FoldLeft(Byte, s, bytes)

\* ... without the notifications raised on the way
Quiet(s) == [s EXCEPT !.ev = <<>>]

-----------------------------------------------------------------------------
(* What a well-formed terminal is.                                         *)
CellOk(c) == /\ c[1] = RIGHT \/ c[1] >= 32
             /\ Len(c[2]) <= MaxComb
             /\ c[1] = RIGHT => c[2] = <<>>
             /\ \A i \in 1..Len(c[2]) : Width(c[2][i]) = 0
             /\ c[1] # RIGHT => (Has(c[5], CJK) <=> Width(c[1]) = 2)

PairsOk(s) ==
  \A y \in 0..(s.sy - 1), x \in 0..(s.sx - 1) :
     /\ At(s, x, y)[1] = RIGHT =>
           /\ x > 0
           /\ Has(At(s, x, y)[5], CJK)
           /\ At(s, x - 1, y)[1] # RIGHT
           /\ Has(At(s, x - 1, y)[5], CJK)
     /\ (Has(At(s, x, y)[5], CJK) /\ At(s, x, y)[1] # RIGHT) =>
           /\ x + 1 < s.sx
           /\ At(s, x + 1, y)[1] = RIGHT

\* ... as far as it can be seen
WellSeen(s) ==
  /\ s.sx >= 2 /\ s.sy >= 1
  /\ Len(s.scr) = s.sx * s.sy
  /\ 0 <= s.cx /\ s.cx <= s.sx
  /\ 0 <= s.cy /\ s.cy < s.sy
  /\ s.at[3] < CJK
  /\ \A i \in 1..Len(s.scr) : CellOk(s.scr[i])
  /\ PairsOk(s)

WellFormed(s) ==
  /\ WellSeen(s)
  /\ 0 <= s.s1 /\ s.s1 < s.s2 /\ s.s2 <= s.sy
  /\ 0 <= s.scx /\ s.scx <= s.sx
  /\ 0 <= s.scy /\ s.scy < s.sy
  /\ s.nt \in 0..(MaxTok - 1)
  /\ Len(s.osc) <= MaxOsc

(* What the outside can see of it.                                         *)
Seen(s) == << s.sx, s.sy, s.cx, s.cy, s.at, s.title, s.scr >>
=============================================================================
