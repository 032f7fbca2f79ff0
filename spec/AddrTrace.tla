------------------------------ MODULE AddrTrace ------------------------------
(* Checks recorded attempts to open streams from the network: each line of   *)
(* the trace is one, with all connections that were tried.                   *)
EXTENDS Addr, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad

AllTo(r, h, p, at) == r.tries = [i \in DOMAIN at |-> [host |-> h, port |-> p, addr |-> at[i]]]
Failed(r) == r.res = 0 /\ r.told
Ok(r) ==
  LET x == Parse(r.s, Default(r.proto))
      n == Tried(r.answer)
  IN /\ r.left = 0                      \* nothing is left open
     /\ IF r.write /\ r.proto # "tcp" THEN Failed(r) /\ r.tries = <<>>
        ELSE IF ~x.ok \/ ~r.known THEN Failed(r) /\ r.tries = <<>>
        ELSE IF ~Named(r.proto, r.s) THEN Failed(r) /\ (r.tries = <<>> \/ AllTo(r, x.host, x.port, n))
        ELSE /\ AllTo(r, x.host, x.port, n)
             /\ IF Connects(r.answer) THEN r.res = 1 /\ r.data ELSE Failed(r)

Init == l = 1 /\ bad = FALSE
Next == /\ ~bad /\ l <= Len(Trace)
        /\ IF Ok(Trace[l]) THEN l' = l + 1 /\ bad' = FALSE
           ELSE PrintT(<<"MISMATCH", l, Trace[l]>>) /\ bad' = TRUE /\ l' = l
Spec == Init /\ [][Next]_<<l, bad>>
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
