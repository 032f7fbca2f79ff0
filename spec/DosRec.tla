------------------------------- MODULE DosRec -------------------------------
(***************************************************************************)
(* A DosRecorder recording: a sequence of frames that work upon a set of   *)
(* remembered screens.  A cell is char + 256 * attribute, a screen the     *)
(* sequence of its cells.  A frame is                                      *)
(*   delay  milliseconds since the one before                              *)
(*   s, d   the screen it starts with, and where the result is kept        *)
(*   ch     chunks: <<position, cells>>                                    *)
(*   note   <<>>, or <<w, h, x, y, cells>>: shown above it, but not kept   *)
(* It is bad if anything of it is out of the screen, or there are too many *)
(* chunks: nothing is shown of it or of what follows.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
CONSTANTS W, H

Blank == [i \in 1..W * H |-> 32 + 256 * 7]

\* screens never written are blank: `scrs' has the others, as pairs
Get(scrs, n) == LET P == {p \in scrs : p[1] = n} IN IF P = {} THEN Blank ELSE (CHOOSE p \in P : TRUE)[2]
Put(scrs, n, x) == {p \in scrs : p[1] # n} \cup {<<n, x>>}

FitsChunk(c) == c[1] + Len(c[2]) <= W * H /\ c[1] < W * H
FitsNote(n) == IF n = <<>> THEN TRUE ELSE n[1] + n[3] <= W /\ n[2] + n[4] <= H
Good(f) == Len(f.ch) <= W * H /\ (\A i \in 1..Len(f.ch) : FitsChunk(f.ch[i])) /\ FitsNote(f.note)

Chunk(scr, c) == SubSeq(scr, 1, c[1]) \o c[2] \o SubSeq(scr, c[1] + Len(c[2]) + 1, W * H)
Drawn(scrs, f) == FoldLeft(Chunk, Get(scrs, f.s), f.ch)
Noted(scr, n) ==
  IF n = <<>> THEN scr
  ELSE [i \in 1..W * H |-> LET x == ((i - 1) % W) - n[3]  y == ((i - 1) \div W) - n[4]
                           IN IF x >= 0 /\ x < n[1] /\ y >= 0 /\ y < n[2] THEN n[5][y * n[1] + x + 1] ELSE scr[i]]

Start == [scrs |-> {}, shown |-> Blank]
Frame(st, f) == LET x == Drawn(st.scrs, f) IN [scrs |-> Put(st.scrs, f.d, x), shown |-> Noted(x, f.note)]

----------------------------------------------------------------------------
\* what a cell looks like on the terminal
Low == <<9786, 9787, 9829, 9830, 9827, 9824, 8226, 9688, 9675, 9689, 9794, 9792, 9834, 9835, 9788,
         9654, 9664, 8597, 8252, 182, 167, 9644, 8616, 8593, 8595, 8594, 8592, 8735, 8596, 9650, 9660>>
High == <<199, 252, 233, 226, 228, 224, 229, 231, 234, 235, 232, 239, 238, 236,
          196, 197, 201, 230, 198, 244, 246, 242, 251, 249, 255, 214, 220, 162,
          163, 165, 8359, 402, 225, 237, 243, 250, 241, 209, 170, 186, 191,
          8976, 172, 189, 188, 161, 171, 187, 9617, 9618, 9619, 9474, 9508,
          9569, 9570, 9558, 9557, 9571, 9553, 9559, 9565, 9564, 9563, 9488,
          9492, 9524, 9516, 9500, 9472, 9532, 9566, 9567, 9562, 9556, 9577,
          9574, 9568, 9552, 9580, 9575, 9576, 9572, 9573, 9561, 9560, 9554,
          9555, 9579, 9578, 9496, 9484, 9608, 9604, 9612, 9616, 9600, 945, 223,
          915, 960, 931, 963, 181, 964, 934, 920, 937, 948, 8734, 966, 949,
          8745, 8801, 177, 8805, 8804, 8992, 8993, 247, 8776, 176, 8729, 183,
          8730, 8319, 178, 9632, 160>>
Glyph(c) == CASE c = 0 -> {32} [] c \in 1..31 -> {Low[c]} \cup (IF c = 16 THEN {9658} ELSE IF c = 17 THEN {9668} ELSE {})
              [] c \in 32..126 -> {c} [] c = 127 -> {8962} [] OTHER -> {High[c - 127]}
\* DOS and terminals number the colours in a different way
Hue(n) == 16777216 + <<0, 4, 2, 6, 1, 5, 3, 7>>[n + 1]
Bright(n) == 2 * 16777216 + 8 + <<0, 4, 2, 6, 1, 5, 3, 7>>[n + 1]
Bold == 1  Blink == 64
\* at: <<foreground, background, flags>> may show attribute a
AttrOk(at, a, blank) ==
  LET fg == a % 8  hi == (a \div 8) % 2 = 1  bg == (a \div 16) % 8  bl == a \div 128 = 1
  IN /\ at[2] = Hue(bg)
     /\ \/ blank
        \/ at[1] = Hue(fg) /\ at[3] = (IF hi THEN Bold ELSE 0) + (IF bl THEN Blink ELSE 0)
        \/ hi /\ at[1] = Bright(fg) /\ at[3] = (IF bl THEN Blink ELSE 0)
\* a terminal's cells, each char * 512 + index into attributes, look like it
Looks(cells, attrs, scr) ==
  /\ Len(cells) = Len(scr)
  /\ \A i \in 1..Len(scr) :
       LET v == cells[i]  c == scr[i] % 256  a == scr[i] \div 256
       IN v >= 0 /\ (v \div 512) \in Glyph(c) /\ v % 512 < Len(attrs) /\ AttrOk(attrs[(v % 512) + 1], a, c \in {0, 32})
=============================================================================
