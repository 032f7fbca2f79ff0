-------------------------------- MODULE Addr --------------------------------
(***************************************************************************)
(* Addresses of streams from the network: who is connected to.             *)
(*                                                                         *)
(* An address is what follows the :// in a URL, as a sequence of           *)
(* characters (byte codes): a host, perhaps in brackets, perhaps a colon   *)
(* and a port, perhaps a slash and more.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Slash == 47 Colon == 58 Open == 91 Close == 93
Digit == 48..57

First(s, c) == LET at == {i \in DOMAIN s : s[i] = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i <= j
Last_(s, c) == LET at == {i \in DOMAIN s : s[i] = c} IN IF at = {} THEN 0 ELSE CHOOSE i \in at : \A j \in at : i >= j
Upto(s, i) == SubSeq(s, 1, i - 1)
After(s, i) == SubSeq(s, i + 1, Len(s))

Authority(s) == LET i == First(s, Slash) IN IF i = 0 THEN s ELSE Upto(s, i)
Path(s) == LET i == First(s, Slash) IN IF i = 0 THEN <<>> ELSE After(s, i)

\* A port: its number; 0 if it is none
Num(p) == FoldLeft(LAMBDA n, d : IF n > 65535 THEN n ELSE n * 10 + d - 48, 0, p)
Port(p) == IF p # <<>> /\ (\A i \in DOMAIN p : p[i] \in Digit) /\ Num(p) <= 65535 THEN Num(p) ELSE 0
Refused == [ok |-> FALSE, host |-> <<>>, port |-> 0]
At(h, p) == IF p = 0 THEN Refused ELSE [ok |-> TRUE, host |-> h, port |-> p]

\* Who is asked for; default: the port unless there is one
Parse(s, default) ==
  LET a == Authority(s) IN
  IF a # <<>> /\ a[1] = Open
  THEN LET c == First(a, Close) IN
       IF c = 0 THEN Refused
       ELSE LET h == SubSeq(a, 2, c - 1) r == After(a, c) IN
            CASE r = <<>> -> At(h, default)
              [] r # <<>> /\ r[1] = Colon -> At(h, Port(Tail(r)))
              [] OTHER -> Refused
  ELSE LET c == Last_(a, Colon) IN
       IF c = 0 THEN At(a, default) ELSE At(Upto(a, c), Port(After(a, c)))

Default(proto) == IF proto = "tcp" THEN 0 ELSE 23
\* a session has to be named
Named(proto, s) == proto = "termcast" => Path(s) # <<>>

(***************************************************************************)
(* A connection: answer[i] says what comes of address i of the host:       *)
(* "1" it answers, "i" it does and we are interrupted meanwhile, "0" it    *)
(* doesn't, "x" addresses of its kind can't be used here.  They are tried  *)
(* in order until one answers.                                             *)
(***************************************************************************)
Good(a) == a \in {"1", "i"}
Tried(answer) ==                        \* the addresses that are
  LET y == {i \in DOMAIN answer : Good(answer[i])}
      last == IF y = {} THEN Len(answer) ELSE CHOOSE i \in y : \A j \in y : i <= j
  IN SelectSeq([i \in 1..last |-> i], LAMBDA i : answer[i] # "x")
Connects(answer) == \E i \in DOMAIN answer : Good(answer[i])
=============================================================================
