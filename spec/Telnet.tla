------------------------------- MODULE Telnet -------------------------------
(***************************************************************************)
(* The receiving end of a telnet connection.  Bytes are taken one at a     *)
(* time, so that it doesn't matter what packets they come in:              *)
(*   at    in the middle of what: "data", "iac", "opt" (of a request),     *)
(*         "sb" (its option comes), "sub", "subiac"                        *)
(*   req   the request whose option comes                                  *)
(*   data  what was received                                               *)
(*   ans   what was answered                                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

SE == 240  SB == 250  WILL == 251  WONT == 252  DO == 253  DONT == 254  IAC == 255
ECHO == 1  SGA == 3

\* The server may echo, and either side may do without go-aheads; nothing
\* else is agreed to.  What isn't wanted is acknowledged.
Answer(req, opt) ==
  CASE req = WILL -> IF opt \in {ECHO, SGA} THEN DO ELSE DONT
    [] req = DO -> IF opt = SGA THEN WILL ELSE WONT
    [] req = WONT -> DONT
    [] req = DONT -> WONT

Conn == [at |-> "data", req |-> 0, data |-> <<>>, ans |-> <<>>]

Byte(c, b) ==
  CASE c.at = "data" -> IF b = IAC THEN [c EXCEPT !.at = "iac"] ELSE [c EXCEPT !.data = Append(@, b)]
    [] c.at = "iac" -> CASE b = IAC -> [c EXCEPT !.at = "data", !.data = Append(@, b)]
                         [] b \in {WILL, WONT, DO, DONT} -> [c EXCEPT !.at = "opt", !.req = b]
                         [] b = SB -> [c EXCEPT !.at = "sb"]
                         [] OTHER -> [c EXCEPT !.at = "data"]
    [] c.at = "opt" -> [c EXCEPT !.at = "data", !.ans = @ \o <<IAC, Answer(c.req, b), b>>]
    [] c.at = "sb" -> [c EXCEPT !.at = "sub"]
    [] c.at = "sub" -> IF b = IAC THEN [c EXCEPT !.at = "subiac"] ELSE c
    [] c.at = "subiac" -> [c EXCEPT !.at = IF b = SE THEN "data" ELSE "sub"]

Bytes(c, s) == FoldLeft(Byte, c, s)
\* what was received or answered was taken away
Flush(c) == [c EXCEPT !.data = <<>>, !.ans = <<>>]
=============================================================================
