------------------------------ MODULE MCTelnet ------------------------------
(***************************************************************************)
(* A server that says things, in the way RFC 854 has them said, to the     *)
(* client of Telnet.tla over a wire that keeps their order and nothing     *)
(* else: the client gets what was meant.                                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt
CONSTANT MaxItems
T == INSTANCE Telnet

Chars == {65, 240, 255}
Items == {<<"char", b>> : b \in Chars}
         \cup {<<"req", r, o>> : r \in 251..254, o \in {0, 1, 3, 24}}
         \cup {<<"cmd", b>> : b \in {241, 249}}
         \cup {<<"sub", 24, s>> : s \in {<<>>, <<1>>, <<255>>, <<240>>, <<255, 240, 1>>}}

Double(b) == IF b = 255 THEN <<255, 255>> ELSE <<b>>
Enc(x) == CASE x[1] = "char" -> Double(x[2])
            [] x[1] = "req" -> <<255, x[2], x[3]>>
            [] x[1] = "cmd" -> <<255, x[2]>>
            [] x[1] = "sub" -> <<255, 250, x[2]>> \o FoldLeft(LAMBDA a, b : a \o Double(b), <<>>, x[3]) \o <<255, 240>>

VARIABLES wire, said, asked, c, n
Init == wire = <<>> /\ said = <<>> /\ asked = <<>> /\ c = T!Conn /\ n = 0
Say(x) == /\ n < MaxItems /\ n' = n + 1
          /\ wire' = wire \o Enc(x)
          /\ said' = IF x[1] = "char" THEN Append(said, x[2]) ELSE said
          /\ asked' = IF x[1] = "req" THEN Append(asked, <<x[2], x[3]>>) ELSE asked
          /\ UNCHANGED c
Take == wire # <<>> /\ wire' = Tail(wire) /\ c' = T!Byte(c, Head(wire)) /\ UNCHANGED <<said, asked, n>>
Next == Take \/ \E x \in Items : Say(x)
Spec == Init /\ [][Next]_<<wire, said, asked, c, n>>

Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Answers == [k \in 1..(Len(c.ans) \div 3) |-> SubSeq(c.ans, 3 * k - 2, 3 * k)]
Correct(q, a) == /\ a[1] = 255 /\ a[3] = q[2]
                 /\ CASE q[1] = 251 -> a[2] = (IF q[2] \in {1, 3} THEN 253 ELSE 254)
                      [] q[1] = 252 -> a[2] = 254
                      [] q[1] = 253 -> a[2] = (IF q[2] = 3 THEN 251 ELSE 252)
                      [] q[1] = 254 -> a[2] = 252
Sound == /\ Prefix(c.data, said) /\ Len(Answers) <= Len(asked)
         /\ \A k \in 1..Len(Answers) : Correct(asked[k], Answers[k])
Complete == wire = <<>> => c.data = said /\ Len(Answers) = Len(asked) /\ c.at = "data"
=============================================================================
