------------------------------ MODULE NetTrace ------------------------------
(***************************************************************************)
(* Checks what the real streams do with what a server sends.  A line of    *)
(* the trace is one connection:                                            *)
(*   kind  "tcp", "telnet", "termcast"                                     *)
(*   name  the session that was asked for                                  *)
(*   ev    <<what, bytes, data, sent, gone>>: the server sent bytes, and   *)
(*         the reader has got data, and the server sent, when nothing goes *)
(*         on anymore ("leave") or the reader came to the end ("end");     *)
(*         gone: the server hung up at once                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
T == INSTANCE Telnet
C == INSTANCE Termcast

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, c, menu, key, bad
vars == <<l, i, c, menu, key, bad>>

\* the answers, with the key among them, if it has been chosen just now
WithKey(sent, ans, k) ==
  IF k = 0 THEN sent = ans
  ELSE /\ Len(sent) = Len(ans) + 1
       /\ \E p \in 1..Len(sent) : sent[p] = k /\ SubSeq(sent, 1, p - 1) \o SubSeq(sent, p + 1, Len(sent)) = ans
Message(x) == Len(x) <= 300 /\ \A j \in 1..Len(x) : x[j] \in {27, 10, 13} \cup 32..126
Shown(got, want, mayend) ==
  IF mayend THEN Len(got) >= Len(want) /\ SubSeq(got, 1, Len(want)) = want /\ Message(SubSeq(got, Len(want) + 1, Len(got)))
  ELSE got = want

\* -> the connection, the menu and the key after an event, if it is right
Next1(r, e) ==
  LET d == IF r.kind = "tcp" THEN [T!Conn EXCEPT !.data = e[2]] ELSE T!Bytes(c, e[2])
      m == IF r.kind = "termcast" /\ key = 0 THEN menu \o d.data ELSE <<>>
      k == IF m = <<>> THEN 0 ELSE C!Key(m, r.name)
      ok == /\ e[1] \in {"leave", "end"}
            /\ Shown(e[3], d.data, e[1] = "end" /\ r.kind = "termcast" /\ key = 0 /\ k = 0)
            /\ e[5] \/ WithKey(e[4], d.ans, k)
  IN [ok |-> ok, c |-> T!Flush(d), menu |-> IF k = 0 THEN C!LastCR(m) ELSE <<>>, key |-> IF k = 0 THEN key ELSE k]

ASSUME TLCSet(1, 0)
Fresh == c' = T!Conn /\ menu' = <<>> /\ key' = 0
Init == l = 1 /\ i = 1 /\ c = T!Conn /\ menu = <<>> /\ key = 0 /\ bad = FALSE
Do == /\ ~bad /\ l <= Len(Trace) /\ i <= Len(Trace[l].ev)
      /\ LET x == Next1(Trace[l], Trace[l].ev[i])
         IN IF x.ok THEN c' = x.c /\ menu' = x.menu /\ key' = x.key /\ i' = i + 1 /\ UNCHANGED <<l, bad>>
            ELSE /\ PrintT(<<"MISMATCH", l, i, Trace[l].ev[i], x>>)
                 /\ bad' = TRUE /\ UNCHANGED <<l, i, c, menu, key>>
Line == /\ ~bad /\ l <= Len(Trace) /\ i = Len(Trace[l].ev) + 1
        /\ l' = l + 1 /\ i' = 1 /\ Fresh /\ UNCHANGED bad
Next == Do \/ Line
Spec == Init /\ [][Next]_vars
Done == l = Len(Trace) + 1 => TLCSet(1, 1)
Accepted == PrintT(<<"STEPS", IF TLCGet(1) = 1 THEN Len(Trace) ELSE 0, Len(Trace)>>)
=============================================================================
