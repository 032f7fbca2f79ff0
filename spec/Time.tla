-------------------------------- MODULE Time --------------------------------
(***************************************************************************)
(* Points in time and delays.  TLC's integers have 32 bits, so seconds are *)
(* split: <<h, l, u>> is (h * 65536 + l) seconds and u microseconds, with  *)
(* l in 0..65535 and u in 0..999999; h carries the sign.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences

Million == 1000000
Zero == <<0, 0, 0>>
IsTime(t) == t[2] \in 0..65535 /\ t[3] \in 0..(Million - 1)

Norm(h, l, u) ==                \* l, u: a carry or a borrow away from normal
  LET u1 == u % Million
      l1 == l + (u \div Million)
  IN <<h + (l1 \div 65536), l1 % 65536, u1>>

Plus(a, b)  == Norm(a[1] + b[1], a[2] + b[2], a[3] + b[3])
Minus(a, b) == Norm(a[1] - b[1], a[2] - b[2], a[3] - b[3])
Neg(a) == Minus(Zero, a)

Less(a, b) == \/ a[1] < b[1]
              \/ a[1] = b[1] /\ a[2] < b[2]
              \/ a[1] = b[1] /\ a[2] = b[2] /\ a[3] < b[3]
Leq(a, b) == ~Less(b, a)
Cmp(a, b) == IF Less(a, b) THEN -1 ELSE IF a = b THEN 0 ELSE 1
Sec(n) == <<n \div 65536, n % 65536, 0>>
Whole(t) == <<t[1], t[2], 0>>           \* without the fraction of a second
Near(a, b, us) ==                       \* not more than us microseconds apart
  LET d == Minus(a, b) e == Minus(b, a)
  IN Leq(d, <<0, us \div Million, us % Million>>) /\ Leq(e, <<0, us \div Million, us % Million>>)

(***************************************************************************)
(* Natural numbers of any size, as sequences of digits base 1000, least    *)
(* significant first, without leading zeros.                               *)
(***************************************************************************)
RECURSIVE Trim(_), Digits(_), AddC(_, _, _), MulD(_, _, _), Mul(_, _), CmpR(_, _, _)
Trim(x) == IF x # <<>> /\ x[Len(x)] = 0 THEN Trim(SubSeq(x, 1, Len(x) - 1)) ELSE x
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % 1000>> \o Digits(n \div 1000)
D(x, i) == IF i <= Len(x) THEN x[i] ELSE 0
AddC(x, y, c) ==
  IF x = <<>> /\ y = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == D(x, 1) + D(y, 1) + c
       IN <<s % 1000>> \o AddC(IF x = <<>> THEN x ELSE Tail(x), IF y = <<>> THEN y ELSE Tail(y), s \div 1000)
Add(x, y) == Trim(AddC(x, y, 0))
MulD(x, d, c) ==                        \* by a single digit
  IF x = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == x[1] * d + c IN <<s % 1000>> \o MulD(Tail(x), d, s \div 1000)
Mul(x, y) == IF x = <<>> \/ y = <<>> THEN <<>>
             ELSE Add(Trim(MulD(x, y[1], 0)), Trim(<<0>> \o Mul(x, Tail(y))))
CmpR(x, y, i) == IF i = 0 THEN 0 ELSE IF D(x, i) # D(y, i) THEN (IF D(x, i) < D(y, i) THEN -1 ELSE 1) ELSE CmpR(x, y, i - 1)
Leb(x, y) == CmpR(x, y, IF Len(x) > Len(y) THEN Len(x) ELSE Len(y)) <= 0

\* the microseconds in a time not below zero
Micros(t) == Add(Mul(Add(Mul(Digits(t[1]), Digits(65536)), Digits(t[2])), Digits(Million)), Digits(t[3]))

(***************************************************************************)
(* r is t * m / 1000, rounded down to a microsecond.                       *)
(***************************************************************************)
IsMul(r, t, m) ==
  LET M == Digits(m) K == <<0, 1>> IN   \* K = 1000
  IF Leq(Zero, t)
  THEN /\ Leq(Zero, r)
       /\ Leb(Mul(Micros(r), K), Mul(Micros(t), M))
       /\ ~Leb(Mul(Add(Micros(r), <<1>>), K), Mul(Micros(t), M))
  ELSE /\ Leq(r, Zero)                  \* -r is -t * m / 1000 rounded up
       /\ Leb(Mul(Micros(Neg(t)), M), Mul(Micros(Neg(r)), K))
       /\ (Less(r, Zero) => ~Leb(Mul(Micros(Neg(t)), M), Mul(Micros(Minus(Neg(r), <<0, 0, 1>>)), K)))

(***************************************************************************)
(* r is t * 1000 / m, rounded towards zero.                                *)
(***************************************************************************)
IsDiv(r, t, m) ==
  LET M == Digits(m) K == <<0, 1>>
      F(rr, tt) == /\ Leb(Mul(Micros(rr), M), Mul(Micros(tt), K))
                   /\ ~Leb(Mul(Add(Micros(rr), <<1>>), M), Mul(Micros(tt), K))
  IN IF Leq(Zero, t) THEN Leq(Zero, r) /\ F(r, t)
     ELSE Leq(r, Zero) /\ F(Neg(r), Neg(t))
=============================================================================
