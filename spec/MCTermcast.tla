----------------------------- MODULE MCTermcast -----------------------------
(***************************************************************************)
(* A watcher that keeps only what follows the last CR of what it has seen, *)
(* getting the menu in pieces of any size, presses the key that one who    *)
(* keeps everything would (Termcast.tla), and no other.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences
C == INSTANCE Termcast
CONSTANT MaxLines

Name == <<97, 98>>
Row(k, n, rest) == <<13, 10, 27, 91, 53, 100>> \o <<k, 41, 32>> \o n \o rest
Col == <<27, 91, 51, 109>>
Lines == { Row(97, Name, <<32, 40>>),
           Row(98, Name, <<99, 32, 40>>),          \* abc
           Row(99, <<97>>, <<32, 40>>),            \* a
           Row(100, Name, <<32, 43>>),
           Row(101, Col \o Name, <<32>> \o Col \o <<40>>),
           <<13>>, <<13, 10, 27, 91, 53>>, <<120>> }
VARIABLES rest, n, seen, win, key
Init == rest = <<>> /\ n = 0 /\ seen = <<>> /\ win = <<>> /\ key = 0
Send(x) == n < MaxLines /\ key = 0 /\ n' = n + 1 /\ rest' = rest \o x /\ UNCHANGED <<seen, win, key>>
Get(k) == /\ key = 0
          /\ LET w == win \o SubSeq(rest, 1, k)
             IN /\ key' = C!Key(w, Name)
                /\ win' = C!LastCR(w)
          /\ seen' = seen \o SubSeq(rest, 1, k) /\ rest' = SubSeq(rest, k + 1, Len(rest)) /\ UNCHANGED n
Next == (\E x \in Lines : Send(x)) \/ (\E k \in 1..Len(rest) : Get(k))
Spec == Init /\ [][Next]_<<rest, n, seen, win, key>>
Same == key = C!Key(seen, Name)
Right == key # 0 => key \in {97, 101}
=============================================================================
