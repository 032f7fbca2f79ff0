-------------------------------- MODULE MCTime --------------------------------
(* The laws of time arithmetic, on all times around the places where it      *)
(* carries.                                                                   *)
EXTENDS Time, TLC
H == {-1, 0, 1}
L == {0, 1, 65535}
U == {0, 1, 499999, 999999}
Times == H \X L \X U
VARIABLE t
Init == t \in Times \X Times
Next == UNCHANGED t
a == t[1]
b == t[2]
Laws ==
  /\ IsTime(Plus(a, b)) /\ IsTime(Minus(a, b))
  /\ Plus(a, b) = Plus(b, a) /\ Minus(Plus(a, b), b) = a /\ Plus(a, Zero) = a
  /\ Cmp(a, b) = -Cmp(b, a) /\ (Cmp(a, b) = 0 <=> a = b)
  /\ (Less(a, b) <=> Less(Minus(a, b), Zero))
  /\ \A c \in Times : Less(a, b) => Less(Plus(a, c), Plus(b, c))
  \* scaling by one is nothing
  /\ IsMul(a, a, 1000) /\ IsDiv(a, a, 1000)
  /\ IsMul(b, a, 1000) => a = b
  /\ IsDiv(b, a, 1000) => a = b
  /\ IsMul(Plus(a, a), a, 2000) /\ IsDiv(Plus(a, a), a, 500)
=============================================================================
