------------------------------- MODULE MCAddr -------------------------------
(* The laws of addresses, for all short ones of these characters: whatever   *)
(* is taken could have been meant, and what was meant is taken.              *)
EXTENDS Addr, TLC
CONSTANT N
Chars == {Slash, Colon, Open, Close, 97, 48, 49, 50, 45}
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Chars : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Plain(h) == h # <<>> /\ \A i \in DOMAIN h : h[i] \notin {Slash, Colon, Open, Close}
InBrackets(h) == \A i \in DOMAIN h : h[i] \notin {Slash, Close}
Has(x, h, p) == x.ok /\ x.host = h /\ x.port = p
Laws ==
  LET x == Parse(s, 23) y == Parse(s, 0) IN
  /\ x.ok => x.port \in 1..65535
  /\ y.ok => x = y                       \* one that needs no default doesn't use it
  /\ \A i \in DOMAIN x.host : x.host[i] # Slash
  \* a path is no part of the address
  /\ Parse(s \o <<Slash, Colon, 49>>, 23) = Parse(Authority(s), 23)
  /\ Plain(s) => Has(x, s, 23) /\ ~y.ok /\ Has(Parse(s \o <<Colon, 48, 49, 50>>, 0), s, 12)
  /\ InBrackets(s) =>
       /\ Has(Parse(<<Open>> \o s \o <<Close>>, 23), s, 23)
       /\ Has(Parse(<<Open>> \o s \o <<Close, Colon, 49>>, 23), s, 1)
       /\ ~Parse(<<Open>> \o s, 23).ok
       /\ ~Parse(<<Open>> \o s \o <<Close, 97>>, 23).ok
  /\ ~Parse(s \o <<Colon>>, 23).ok \/ First(s, Slash) # 0
ASSUME /\ Port(<<54, 53, 53, 51, 53>>) = 65535 /\ Port(<<54, 53, 53, 51, 54>>) = 0
       /\ Port(<<52, 50, 57, 52, 57, 54, 55, 51, 49, 57>>) = 0     \* 4294967319: 23 in 32 bits
       /\ Port(<<45, 49>>) = 0
=============================================================================
