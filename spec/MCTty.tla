-------------------------------- MODULE MCTty --------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of Tty.tla: a small screen, the commands *)
(* of one FAMILY, every sequence of at most DEPTH of them.  With EMIT set, *)
(* every transition is printed as <<path, command>>, to be replayed into   *)
(* the real code.                                                          *)
(***************************************************************************)
EXTENDS Tty, TLC, IOUtils

Depth  == atoi(IOEnv.DEPTH)
Family == IOEnv.FAMILY
SX0    == atoi(IOEnv.SX)
SY0    == atoi(IOEnv.SY)

E(q)  == <<27>> \o q
C(q)  == <<27, 91>> \o q
\* "一" (double width) and a combining acute accent
WideCh == <<228, 184, 128>>
Acute  == <<204, 129>>

Cursor == <<
  <<97>>, <<98, 99>>, <<10>>, <<13>>, <<8>>, <<9>>, <<11>>,
  E(<<68>>), E(<<69>>), E(<<77>>), E(<<55>>), E(<<56>>),
  C(<<65>>), C(<<66>>), C(<<67>>), C(<<68>>), C(<<69>>), C(<<70>>),
  C(<<50, 59, 51, 72>>), C(<<51, 71>>), C(<<51, 100>>), C(<<57, 67>>),
  C(<<50, 59, 51, 114>>), C(<<49, 59, 50, 114>>), C(<<114>>),
  C(<<63, 55, 108>>), C(<<63, 55, 104>>) >>

EraseC == <<
  <<97>>, <<98>>, WideCh, Acute, <<13>>, C(<<67>>), C(<<68>>), <<10>>,
  C(<<52, 52, 109>>),
  C(<<64>>), C(<<50, 64>>), C(<<80>>), C(<<50, 80>>), C(<<88>>), C(<<50, 88>>),
  C(<<75>>), C(<<49, 75>>), C(<<50, 75>>), C(<<74>>), C(<<49, 74>>), C(<<50, 74>>),
  C(<<76>>), C(<<77>>), C(<<50, 59, 50, 114>>), <<9>>, <<12>> >>

SgrC == <<
  <<97>>, C(<<109>>), C(<<49, 109>>), C(<<50, 109>>), C(<<51, 109>>), C(<<52, 109>>), C(<<53, 109>>),
  C(<<55, 109>>), C(<<57, 109>>), C(<<50, 49, 109>>), C(<<50, 50, 109>>), C(<<50, 51, 109>>),
  C(<<50, 52, 109>>), C(<<50, 53, 109>>), C(<<50, 55, 109>>), C(<<50, 57, 109>>),
  C(<<51, 49, 109>>), C(<<52, 50, 109>>), C(<<51, 57, 109>>), C(<<52, 57, 109>>),
  C(<<57, 51, 109>>), C(<<49, 48, 52, 109>>),
  C(<<51, 56, 59, 53, 59, 50, 48, 48, 109>>), C(<<52, 56, 59, 50, 59, 49, 59, 50, 59, 51, 109>>),
  C(<<51, 56, 109>>), C(<<52, 56, 59, 53, 109>>), C(<<51, 56, 59, 50, 59, 57, 109>>),
  E(<<55>>), E(<<56>>), C(<<99>>), C(<<75>>), C(<<59, 53, 59, 49, 72>>) >>

CharC == <<
  <<97>>, <<113>>, <<195>>, <<169>>, <<228>>, <<184>>, <<128>>, <<237>>, <<160>>, <<176>>,
  <<240>>, <<144>>, <<248>>, <<255>>, <<192>>, Acute, <<14>>, <<15>>,
  E(<<40, 48>>), E(<<40, 66>>), E(<<41, 66>>), E(<<37, 64>>), E(<<37, 71>>), <<1>>, <<13>> >>

ParserC == <<
  <<27>>, <<91>>, <<93>>, <<63>>, <<48>>, <<53>>, <<59>>, <<109>>, <<97>>, <<65>>, <<64>>, <<80>>, <<88>>,
  <<7>>, <<24>>, <<92>>, <<40>>, <<37>>, <<104>>, <<116>>, <<99>>, <<120>>, <<10>> >>

ResizeC == <<
  <<97>>, WideCh, Acute, <<10>>, C(<<57, 67>>), E(<<55>>), E(<<56>>), C(<<52, 49, 109>>),
  C(<<50, 59, 50, 114>>),
  C(<<56, 59, 50, 59, 51, 116>>), C(<<56, 59, 49, 59, 50, 116>>), C(<<56, 59, 51, 59, 52, 116>>),
  C(<<56, 59, 50, 59, 50, 116>>), C(<<56, 59, 50, 116>>), C(<<56, 59, 59, 53, 116>>) >>

Cmds == CASE Family = "cursor" -> Cursor
          [] Family = "erase"  -> EraseC
          [] Family = "sgr"    -> SgrC
          [] Family = "char"   -> CharC
          [] Family = "parser" -> ParserC
          [] Family = "resize" -> ResizeC

VARIABLES s, h, e
vars == <<s, h, e>>
\* the path is for printing only
Hide == s

Init == s = New(SX0, SY0, TRUE) /\ h = <<>> /\ e = <<>>
Next == \E i \in 1..Len(Cmds) :
          LET n == Feed(s, Cmds[i]) IN
          s' = Quiet(n) /\ e' = n.ev /\ h' = Append(h, i)
Spec == Init /\ [][Next]_vars

Bound == Len(h) < Depth

ASSUME IOEnv.EMIT = "yes" => PrintT(ToString(<<0, Cmds>>))
Emitted == IOEnv.EMIT = "yes" => PrintT(ToString(<<h, h'[Len(h')]>>))

-----------------------------------------------------------------------------
TypeOk == WellFormed(s)

Row(t, y) == SubSeq(t.scr, y * t.sx + 1, (y + 1) * t.sx)
SameSize  == s'.sx = s.sx /\ s'.sy = s.sy
Did(q)    == Cmds[h'[Len(h')]] = q

\* a line feed changes no row outside the scrolling region, and none at all
\* unless the cursor is on the last row of the region
ScrollConfined ==
  [][ (s.st = "normal" /\ Did(<<10>>)) =>
        \/ s.cy # s.s2 - 1 /\ s'.scr = s.scr
        \/ s.cy = s.s2 - 1 /\ s'.cy = s.cy
           /\ \A y \in 0..(s.sy - 1) :
                 (y < s.s1 \/ y >= s.s2) => Row(s', y) = Row(s, y) ]_vars

\* cursor movement never changes a cell
MoveOnly ==
  [][ (s.st = "normal" /\ h'[Len(h')] \in 1..Len(Cmds)
       /\ Len(Cmds[h'[Len(h')]]) >= 3
       /\ Cmds[h'[Len(h')]][2] = 91
       /\ Cmds[h'[Len(h')]][Len(Cmds[h'[Len(h')]])] \in {65, 66, 67, 68, 69, 70, 71, 72, 100, 109, 114})
      => s'.scr = s.scr ]_vars

\* a byte of text never touches a row below the bottom of the region while
\* the cursor is inside it
Confined ==
  [][ (SameSize /\ s.st = "normal" /\ s'.st = "normal" /\ s.cy < s.s2 /\ Did(<<97>>)) =>
        \A y \in s.s2..(s.sy - 1) : Row(s', y) = Row(s, y) ]_vars
=============================================================================
