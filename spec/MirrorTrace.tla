---------------------------- MODULE MirrorTrace ----------------------------
(***************************************************************************)
(* A listener that knows nothing but the notifications keeps a picture of  *)
(* its own (a terminal record it never feeds).  Trace validation: after    *)
(* every write that picture is the screen, the flags it was told are the   *)
(* flags, and bells and string commands have reached it exactly as the     *)
(* bytes demand.                                                           *)
(***************************************************************************)
EXTENDS Tty, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, T, M, bad
vars == <<l, T, M, bad>>

NoTty == [sx |-> 0]
Bad(m, w) == [m EXCEPT !.ev = Append(@, <<0, w>>)]
AttrOf(e, i) == <<e[i], e[i + 1], ClrB(e[i + 2], CJK)>>
Inside(m, x, y) == x >= 0 /\ y >= 0 /\ x < m.sx /\ y < m.sy

\* the picture m after one notification
Hear(m, e) ==
  CASE e[1] = 1 ->
         IF ~Inside(m, e[4], e[5]) \/ e[10] \notin {1, 2} \/ e[4] + e[10] > m.sx \/ e[6] < 32
         THEN Bad(m, "char")
         ELSE [PutChar([m EXCEPT !.cx = e[4], !.cy = e[5], !.at = AttrOf(e, 7)], e[6], e[10])
                 EXCEPT !.at = NoAttr]
    [] e[1] = 2 ->
         IF ~Inside(m, e[4], e[5]) THEN Bad(m, "comb")
         ELSE [m EXCEPT !.scr[Ix(m, e[4], e[5])][2] = Append(@, e[6])]
    [] e[1] = 3 -> [m EXCEPT !.cx = e[4], !.cy = e[5]]
    [] e[1] = 4 ->
         LET o == e[5] * m.sx + e[4] IN
         IF e[4] < 0 \/ e[5] < 0 \/ e[6] < 0 \/ e[4] > m.sx \/ e[5] >= m.sy
            \/ e[6] > m.sx * m.sy - o THEN Bad(m, "clear")
         ELSE [Clear([m EXCEPT !.at = AttrOf(e, 7)], o, e[6]) EXCEPT !.at = NoAttr]
    [] e[1] = 5 ->
         IF e[4] < 0 \/ e[5] <= e[4] \/ e[5] > m.sy THEN Bad(m, "scroll")
         ELSE [ScrollRows([m EXCEPT !.at = AttrOf(e, 7)], e[4], e[5], e[6])
                 EXCEPT !.at = NoAttr, !.cx = e[2], !.cy = e[3]]
    [] e[1] = 6 -> IF e[4] = 0 THEN [m EXCEPT !.cur = e[5]]
                   ELSE IF e[4] = 1 THEN [m EXCEPT !.kp = e[5]] ELSE m
    [] e[1] = 7 -> [m EXCEPT !.ev = Append(@, <<3, e[4], e[5], e[6]>>)]
    [] e[1] = 8 -> IF e[4] < 2 \/ e[5] < 1 \/ e[4] > 1000 \/ e[5] > 1000 THEN Bad(m, "resize")
                   ELSE [Resize([m EXCEPT !.at = AttrOf(e, 6)], e[4], e[5])
                           EXCEPT !.at = NoAttr, !.cx = e[2], !.cy = e[3]]
    [] e[1] = 10 -> [m EXCEPT !.ev = Append(@, <<1>>)]
    [] OTHER -> m

Said(s) == SelectSeq(s.ev, LAMBDA x : x[1] \in {0, 1, 3})
Flushed(r) == /\ Len(r.e) > 0 /\ r.e[Len(r.e)][1] = 9
              /\ \A i \in 1..(Len(r.e) - 1) : r.e[i][1] # 9

Cells(scr) == [i \in 1..Len(scr) |-> <<scr[i][1], scr[i][2], scr[i][3], scr[i][4], scr[i][5]>>]

\* what is wrong with the picture m, the terminal being o and t
Wrong(m, t, r) ==
  LET o == r.o IN
  IF m.sx # o.sx \/ m.sy # o.sy THEN <<"size", m.sx, m.sy>>
  ELSE IF \E i \in 1..Len(m.scr) : Cells(m.scr)[i] # o.scr[i]
  THEN LET i == CHOOSE i \in 1..Len(m.scr) : m.scr[i] # o.scr[i]
       IN <<"cell", (i - 1) % m.sx, (i - 1) \div m.sx, "told", m.scr[i], "is", o.scr[i]>>
  ELSE IF <<m.cx, m.cy>> # <<o.cx, o.cy>> THEN <<"cursor told", m.cx, m.cy, "is", o.cx, o.cy>>
  ELSE IF m.cur # t.cur \/ m.kp # t.kp THEN <<"flags told", m.cur, m.kp, "are", t.cur, t.kp>>
  ELSE IF Said(m) # Said(t) THEN <<"bells and strings told", Said(m), "are", Said(t)>>
  ELSE IF ~Flushed(r) THEN <<"flush">>
  ELSE <<>>

Init == l = 1 /\ T = NoTty /\ M = NoTty /\ bad = FALSE

Next ==
  /\ ~bad /\ l <= Len(Trace)
  /\ LET r == Trace[l] IN
     CASE r.op = "I" ->
            /\ T' = New(r.a, r.b, r.c = 1) /\ M' = T' /\ l' = l + 1 /\ bad' = FALSE
       [] r.op = "W" ->
            LET t == Feed(T, r.w)
                m == FoldLeft(Hear, M, r.e)
                w == Wrong(m, t, r)
            IN IF w = <<>>
               THEN T' = Quiet(t) /\ M' = Quiet(m) /\ l' = l + 1 /\ bad' = FALSE
               ELSE /\ PrintT(<<"MISMATCH", l, r.op, w>>)
                    /\ bad' = TRUE /\ UNCHANGED <<T, M, l>>
       [] OTHER -> UNCHANGED <<T, M, bad>> /\ l' = l + 1

Spec == Init /\ [][Next]_vars
SpecOk == T = NoTty \/ WellFormed(T)
Accepted == PrintT(<<"STEPS", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
