------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A session of termrec, as seen from outside: what the command writes and *)
(* the user types, what the user is shown and the command gets, and what   *)
(* the recording says.  Each operator is an event; "FALSE" in the field    *)
(* `ok' marks what must not happen.                                        *)
(*                                                                         *)
(* termrec works in turns: it waits, is woken ("go") or interrupted, does  *)
(* what there is to do, and waits again.                                   *)
(*                                                                         *)
(* Bytes are sequences or strings: Empty is the empty one.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Empty,
          Raw       \* termrec -r: neither character set nor size are recorded

Unknown == <<0, 0>>     \* a size when there's no terminal

\* utf: the terminal's character set is UTF-8
Begin(utf, size) ==
  [ok |-> TRUE, why |-> "",
   pend |-> Empty,      \* written by the command, not shown yet
   new |-> Empty,       \* shown since termrec waited
   typed |-> Empty,     \* typed, the command hasn't got it
   size |-> size,       \* of the user's terminal
   seen |-> {size},     \* the sizes it had since termrec waited
   told |-> Unknown,    \* the size the command has been told
   rec |-> Unknown,     \* the last one recorded
   utf |-> utf,         \* the character set is to be recorded
   due |-> FALSE,       \* the size has changed while termrec waited
   soon |-> FALSE,      \* ... or while it worked: it finds out the next time
   waiting |-> FALSE, first |-> TRUE, ready |-> FALSE, moved |-> FALSE,
   sigs |-> <<>>,       \* signals to be passed on
   c |-> 0,             \* the clock
   exited |-> FALSE, eof |-> FALSE,
   gone |-> FALSE,      \* the user's terminal
   ended |-> FALSE]

Bad(st, why) == IF st.ok THEN [st EXCEPT !.ok = FALSE, !.why = why] ELSE st
Need(cond, st, why) == IF cond THEN st ELSE Bad(st, why)
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Rest(b, n) == SubSeq(b, n + 1, Len(b))

\* what happens to termrec
Out(st, b) == [st EXCEPT !.pend = @ \o b]
In(st, b) == [st EXCEPT !.typed = @ \o b]
Resize(st, s) == [st EXCEPT !.size = s, !.seen = @ \cup {s}, !.due = @ \/ st.waiting, !.soon = @ \/ ~st.waiting]
Signal(st, n) == [st EXCEPT !.sigs = Append(@, n)]
Tick(st, c) == [st EXCEPT !.c = c]
Exit(st) == [st EXCEPT !.exited = TRUE]
Eof(st) == [st EXCEPT !.eof = TRUE]
Gone(st) == [st EXCEPT !.gone = TRUE]
Go(st) == [st EXCEPT !.waiting = FALSE, !.moved = FALSE, !.ready = IF st.exited THEN st.pend # Empty /\ st.typed = Empty ELSE st.pend # Empty \/ st.typed # Empty]
Intr(st) == [st EXCEPT !.waiting = FALSE, !.ready = FALSE]

\* what it does
Shown(st, b) == Need(IsPrefix(b, st.pend), [st EXCEPT !.pend = Rest(@, Len(b)), !.new = @ \o b, !.moved = TRUE],
                     "shows what the command hasn't written")
Got(st, b) == Need(IsPrefix(b, st.typed), [st EXCEPT !.typed = Rest(@, Len(b)), !.moved = TRUE],
                   "the command gets what wasn't typed")
Told(st, s) == Need(s \in st.seen, [st EXCEPT !.told = s], "tells a wrong size")
\* passes a signal on; mine: to the command
Kill(st, mine, n) ==
  LET P == {i \in 1..Len(st.sigs) : st.sigs[i] = n}
  IN IF ~mine THEN Bad(st, "a signal to some other process")
     ELSE IF P = {} THEN Bad(st, "a signal that wasn't given")
     ELSE LET i == CHOOSE j \in P : \A k \in P : j <= k
          IN [st EXCEPT !.sigs = SubSeq(@, 1, i - 1) \o Rest(@, i)]

----------------------------------------------------------------------------
(* The recording: frames [c |-> time, kind |-> "out", b |-> bytes], or kind *)
(* "size" with utf: says that the character set is UTF-8, size: a size, if  *)
(* it isn't Unknown.  A turn has what it records.                           *)

\* frames k.. of f that the turn recorded; r: [st, k, b]: up to now
Takes(f, r) ==
  /\ r.k <= Len(f) /\ f[r.k].c = r.st.c
  /\ IF f[r.k].kind = "out" THEN f[r.k].b # Empty /\ IsPrefix(f[r.k].b, r.b)
     ELSE f[r.k].size \in r.st.seen \cup {Unknown, r.st.rec}
Take(f, r) ==
  LET x == f[r.k]
  IN IF x.kind = "out"
     THEN [r EXCEPT !.k = @ + 1, !.b = Rest(@, Len(x.b)),
                    !.st = Need(~r.st.first \/ Raw \/ (~r.st.utf /\ (r.st.rec # Unknown \/ Unknown \in r.st.seen)), @,
                                "output is recorded before the character set and size")]
     ELSE [r EXCEPT !.k = @ + 1,
                    !.st = Need(~Raw /\ (x.utf => r.st.utf), [@ EXCEPT !.rec = IF x.size = Unknown THEN @ ELSE x.size, !.utf = @ /\ ~x.utf],
                                "records what it shouldn't")]
RECURSIVE Recorded(_, _)
Recorded(f, r) == (IF r.b = Empty \/ r.st.gone THEN {r} ELSE {}) \cup (IF Takes(f, r) THEN Recorded(f, Take(f, r)) ELSE {})

\* once the terminal is gone, what comes may be recorded but not shown
\* the turn is over, and all it has shown recorded: -> possible [st, k], as a
\* size after it may belong to the next turn
Over(st, f, k) ==
  LET P == Recorded(f, [st |-> st, k |-> k, b |-> IF st.gone THEN st.new \o st.pend ELSE st.new])
  IN IF P = {} THEN {[st |-> Bad(st, "what was shown is not recorded"), k |-> k]}
     ELSE {[st |-> [r.st EXCEPT !.new = Empty], k |-> r.k] : r \in P}

\* termrec waits; raw: the user's terminal passes everything on
Wait(st, raw, f, k) ==
  LET W(o) ==
        LET s1 == Need(raw, o.st, "the terminal isn't raw")
            s2 == Need(~(st.due \/ st.first) \/ st.size = Unknown \/ st.soon \/
                       (s1.told = st.size /\ (Raw \/ s1.rec = st.size)), s1, "a change of size is missed")
            s3 == Need(~st.first \/ Raw \/ ~s2.utf, s2, "the character set isn't recorded")
            s4 == Need(st.ready => st.moved, s3, "does nothing")
        IN [st |-> [s4 EXCEPT !.waiting = TRUE, !.first = FALSE, !.due = st.soon, !.soon = FALSE, !.seen = {st.size}], k |-> o.k]
  IN {W(o) : o \in Over(st, f, k)}

\* termrec ends; restored: the user's terminal is as it was, whole: so is the file
End(st, restored, whole, f, k) ==
  LET E(o) ==
        LET s1 == Need(restored, o.st, "the terminal isn't restored")
            s2 == Need(whole /\ o.k = Len(f) + 1, s1, "the recording has more, or isn't whole")
            s3 == Need(st.exited \/ st.eof \/ st.gone, s2, "ends too early")
            s4 == Need(st.eof \/ st.gone \/ st.pend = Empty, s3, "doesn't show everything")
            s5 == Need(st.sigs = <<>> \/ st.exited \/ st.gone, s4, "a signal isn't passed on")
        IN [st |-> [s5 EXCEPT !.ended = TRUE], k |-> o.k]
  IN {E(o) : o \in Over(st, f, k)}
=============================================================================
