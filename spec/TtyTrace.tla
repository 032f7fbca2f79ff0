------------------------------ MODULE TtyTrace ------------------------------
(***************************************************************************)
(* Trace validation: a recording of a real run of the emulator (one line   *)
(* per call: what was called and what the terminal looked like after it)   *)
(* is a behaviour of Tty.tla, seen through the projection MODE.            *)
(***************************************************************************)
EXTENDS Tty, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Mode  == IOEnv.MODE

VARIABLES l, T, bad
vars == <<l, T, bad>>

NoTty == [sx |-> 0]
Slots == 8

\* the terminals after the call described by line r
After(t, r) ==
  LET k == r.k + 1 IN
  CASE r.op = "I" -> [t EXCEPT ![k] = New(r.a, r.b, r.c = 1)]
    [] Mode = "wf" -> t
    [] r.op \in {"W", "p"} -> [t EXCEPT ![k] = Quiet(Feed(@, r.w))]
    [] r.op = "R" -> [t EXCEPT ![k] = Resize(@, r.a, r.b)]
    [] r.op = "Z" -> [t EXCEPT ![k] = Reset(@)]
    [] r.op = "C" -> [t EXCEPT ![r.a + 1] = t[k]]
    [] OTHER -> t

Chars(scr) == [i \in 1..Len(scr) |-> <<scr[i][1], scr[i][2]>>]
Cells(scr) == [i \in 1..Len(scr) |-> <<scr[i][1], scr[i][2], scr[i][3], scr[i][4], scr[i][5]>>]

View(mode, s) ==
  CASE mode = "text"  -> <<s.sx, s.sy, s.cx, s.cy, Chars(s.scr)>>
    [] mode = "attr"  -> <<s.sx, s.sy, s.cx, s.cy, s.at, Cells(s.scr)>>
    [] mode = "title" -> <<s.sx, s.sy, s.cx, s.cy, s.title, Chars(s.scr)>>
    [] OTHER -> <<s.sx, s.sy, s.cx, s.cy, s.at, s.title, Cells(s.scr)>>

Real(o) == [sx |-> o.sx, sy |-> o.sy, cx |-> o.cx, cy |-> o.cy, at |-> o.at,
            title |-> o.ti, scr |-> o.scr]

\* in mode "wf" the real screen only has to be a well-formed one
Differs(s, o) == \/ o.ok # 1
                 \/ IF Mode = "wf" THEN ~WellSeen(Real(o))
                    ELSE View(Mode, s) # View(Mode, Real(o))

\* where exactly, for the report
Where(s, o) ==
  IF o.ok # 1 THEN <<"combining-mark pool is corrupt">>
  ELSE IF Mode = "wf" THEN <<"the screen is not well-formed", o.sx, o.sy, o.cx, o.cy>>
  ELSE IF <<s.sx, s.sy>> # <<o.sx, o.sy>> THEN <<"size", <<s.sx, s.sy>>, <<o.sx, o.sy>>>>
  ELSE IF <<s.cx, s.cy>> # <<o.cx, o.cy>> THEN <<"cursor", <<s.cx, s.cy>>, <<o.cx, o.cy>>>>
  ELSE IF \E i \in 1..Len(s.scr) : Cells(s.scr)[i] # o.scr[i]
  THEN LET i == CHOOSE i \in 1..Len(s.scr) : /\ s.scr[i] # o.scr[i]
                                             /\ \A j \in 1..(i - 1) : s.scr[j] = o.scr[j]
       IN <<"cell", <<(i - 1) % s.sx, (i - 1) \div s.sx>>, s.scr[i], o.scr[i]>>
  ELSE <<"attr/title", s.at, o.at, s.title, o.ti>>

Init == /\ l = 1
        /\ T = [k \in 1..Slots |-> NoTty]
        /\ bad = FALSE

Next == /\ ~bad
        /\ l <= Len(Trace)
        /\ LET r == Trace[l]
               t == After(T, r)
               k == IF r.op = "C" THEN r.a + 1 ELSE r.k + 1
           IN IF r.op = "F" \/ ~Differs(t[k], r.o)
              THEN /\ T' = t /\ l' = l + 1 /\ bad' = FALSE
              ELSE /\ PrintT(<<"MISMATCH", l, r.op, Where(t[k], r.o)>>)
                   /\ T' = T /\ l' = l /\ bad' = TRUE

Spec == Init /\ [][Next]_vars

\* the specification's own invariant, on every state of the trace
SpecOk == \A k \in 1..Slots : T[k] = NoTty \/ WellFormed(T[k])

Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
