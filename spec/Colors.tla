------------------------------- MODULE Colors -------------------------------
(***************************************************************************)
(* The colours of the terminal and what they become in another mode.       *)
(* A colour is its components <<r, g, b>>; a palette is a function from    *)
(* its indices to them.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* The 16 standard ones: dark and bright, bit 0 red, bit 1 green, bit 2 blue;
\* dark yellow is brown
Bit(i, k) == (i \div k) % 2
Standard(i) ==
  IF i = 3 THEN <<170, 85, 0>>
  ELSE LET base == IF i >= 8 THEN 85 ELSE 0
       IN <<base + 170 * Bit(i, 1), base + 170 * Bit(i, 2), base + 170 * Bit(i, 4)>>
\* The cube of 6 * 6 * 6 and the 24 greys
Level(x) == IF x = 0 THEN 0 ELSE 55 + 40 * x
Cube(i) == <<Level(i \div 36), Level((i \div 6) % 6), Level(i % 6)>>
Grey(i) == <<8 + 10 * i, 8 + 10 * i, 8 + 10 * i>>
Pal == [i \in 0..255 |-> IF i < 16 THEN Standard(i) ELSE IF i < 232 THEN Cube(i - 16) ELSE Grey(i - 232)]

Abs(x) == IF x < 0 THEN -x ELSE x
Far(a, b) == LET m(x, y) == IF x > y THEN x ELSE y
             IN m(Abs(a[1] - b[1]), m(Abs(a[2] - b[2]), Abs(a[3] - b[3])))
IsGrey(c) == c[1] = c[2] /\ c[2] = c[3]

\* x is what a palette that has the first n may show for the colour c
Shade(c, x, n) ==
  /\ x \in 0..(n - 1)
  /\ (\E i \in 0..(n - 1) : Pal[i] = c) => Pal[x] = c
  /\ IsGrey(c) => IsGrey(Pal[x])
  /\ Far(c, Pal[x]) <= 128

\* Converting <<mode, value>> to a mode gives x: modes 1: one of 16, 2: one of
\* 256, 3: the components, 0: none
Value(m, v) == IF m = 3 THEN v ELSE Pal[v]
Converted(m, v, to, x) ==
  CASE to = 0 -> x = 0
    [] to = 3 -> x = Value(m, v)
    [] to = m -> x = v
    [] to = 2 /\ m = 1 -> x = v                  \* they are the first of them
    [] to = 1 -> Shade(Value(m, v), x, 16)
    [] OTHER -> Shade(Value(m, v), x, 256)
=============================================================================
