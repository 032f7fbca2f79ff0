------------------------------ MODULE Streams ------------------------------
(***************************************************************************)
(* A compressed file as its users see it: streams of data, one after       *)
(* another, whose concatenation is what one reads.  Data are counted: byte *)
(* i of the file's content is byte i of what was written to it.            *)
(*                                                                         *)
(*   len      the length of each stream in the file                        *)
(*   open     whether the last of them is still being written              *)
(*   have     how much of the content the file can give: all, or after     *)
(*            damage at least `low'                                        *)
(*   fault    "none", "cut" (the rest is gone), "bad" (altered)            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

VARIABLES len, open, low, fault
svars == <<len, open, low, fault>>

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
Total == Sum(len)

New == len = <<>> /\ open = FALSE /\ low = 0 /\ fault = "none"

OpenW == ~open /\ len' = <<0>> /\ open' = TRUE /\ low' = 0 /\ fault' = "none"
OpenA == ~open /\ fault = "none" /\ len' = Append(len, 0) /\ open' = TRUE /\ UNCHANGED <<low, fault>>
Write(n) == open /\ len' = [len EXCEPT ![Len(len)] = @ + n] /\ UNCHANGED <<open, low, fault>>
Close == open /\ open' = FALSE /\ low' = Total /\ UNCHANGED <<len, fault>>
\* what is left of the file is known to hold the first k bytes
Cut(k) == ~open /\ fault = "none" /\ k <= Total /\ fault' = "cut" /\ low' = k /\ UNCHANGED <<len, open>>
Bad(k) == ~open /\ fault = "none" /\ k <= Total /\ fault' = "bad" /\ low' = k /\ UNCHANGED <<len, open>>

\* a reader gets n bytes of which the first k are right, followed by a
\* message or not, and the end
ReadOk(n, k, msg) ==
  /\ ~open
  /\ k >= low
  /\ CASE fault = "none" -> n = Total /\ k = n /\ ~msg
       [] fault = "cut" -> n = k /\ n <= Total
       [] fault = "bad" -> k <= n
\* and so does the reference tool for this kind of file, without complaint
ToolOk(n, k, fine) == ~open /\ (fault = "none" => fine /\ n = Total /\ k = n)
=============================================================================
