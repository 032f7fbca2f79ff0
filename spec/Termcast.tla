------------------------------ MODULE Termcast ------------------------------
(***************************************************************************)
(* A watcher of a termcast server: shows all it gets, and presses the key  *)
(* of the session called `name' once its line in the menu has been shown:  *)
(*   CR LF ESC [ row d, perhaps a space, key ), space, the name, space, (  *)
(* where there may be a change of colour before and after the name, and    *)
(* before the parenthesis.                                                 *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Digit(b) == b >= 48 /\ b <= 57
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
RECURSIVE Digits(_, _)
Digits(s, p) == IF Digit(At(s, p)) THEN Digits(s, p + 1) ELSE p
RECURSIVE Params(_, _)
Params(s, p) == IF Digit(At(s, p)) \/ At(s, p) = 59 THEN Params(s, p + 1) ELSE p
\* a position after what is expected; 0 if something else is there
Lit(s, p, lit) == IF p > 0 /\ p + Len(lit) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(lit) - 1) = lit THEN p + Len(lit) ELSE 0
Colour(s, p) == IF p = 0 \/ At(s, p) # 27 THEN p
                ELSE IF At(s, p + 1) # 91 THEN 0
                ELSE Lit(s, Params(s, p + 2), <<109>>)

\* the key of the line that starts at p, or 0: none, or not yet complete
KeyAt(s, p, name) ==
  LET a == Lit(s, p, <<13, 10, 27, 91>>)
      b == IF a = 0 THEN 0 ELSE Lit(s, Digits(s, a), <<100>>)
      c == IF b > 0 /\ At(s, b) = 32 THEN b + 1 ELSE b
      d == IF c = 0 THEN 0 ELSE Lit(s, c + 1, <<41, 32>>)
      e == Lit(s, Colour(s, d), name)
      f == Lit(s, Colour(s, e), <<32>>)
      g == Lit(s, Colour(s, f), <<40>>)
  IN IF g = 0 THEN 0 ELSE s[c]
\* the first in a text
Key(s, name) == LET P == {p \in 1..Len(s) : s[p] = 13 /\ KeyAt(s, p, name) # 0}
                IN IF P = {} THEN 0 ELSE KeyAt(s, CHOOSE p \in P : \A q \in P : p <= q, name)
\* all that matters of a text without one
LastCR(s) == LET P == {p \in 1..Len(s) : s[p] = 13} IN IF P = {} THEN <<>> ELSE SubSeq(s, CHOOSE p \in P : \A q \in P : q <= p, Len(s))
=============================================================================
