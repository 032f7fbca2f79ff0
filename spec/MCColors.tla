------------------------------ MODULE MCColors ------------------------------
(* What there is to choose from: for every colour of a grid a mode can show   *)
(* one, and each colour of a palette survives going to the components and    *)
(* back; to a smaller palette and back if it has it.                         *)
EXTENDS Colors, TLC
CONSTANT Step
G == {x \in 0..255 : x % Step = 0} \cup {255}
VARIABLES c
Init == c \in G \X G \X G
Next == UNCHANGED c
Possible == /\ \E x \in 0..15 : Shade(c, x, 16)
            /\ \E x \in 0..255 : Shade(c, x, 256)
ASSUME /\ \A i \in 0..255 : Pal[i] \in (0..255) \X (0..255) \X (0..255)
       /\ \A i, j \in 0..15 : i # j => Pal[i] # Pal[j]
       /\ \A i, j \in 16..231 : i # j => Pal[i] # Pal[j]
       /\ \A i \in 0..15 : \A x \in 0..15 : Shade(Pal[i], x, 16) => x = i
       /\ \A i \in 0..255 : \A x \in 0..255 : Shade(Pal[i], x, 256) => Pal[x] = Pal[i]
=============================================================================
