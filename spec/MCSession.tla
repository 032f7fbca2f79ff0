----------------------------- MODULE MCSession -----------------------------
(***************************************************************************)
(* termrec's loop, as the code has it, with everything that may happen     *)
(* around it: each behaviour is one that Session allows.                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Raw, MaxOut, MaxIn, MaxSize, Utf,
          Known,        \* there is a terminal
          Variant       \* "": the code; otherwise a mistake it could have
Sizes == {<<80, 25>>, <<40, 10>>}
Empty == <<>>
S == INSTANCE Session

VARIABLES cs,           \* states Session may be in, with the next frame
          fr,           \* frames recorded
          pc, need, fds, out, in, size, n, c, exited, eof, fail
vars == <<cs, fr, pc, need, fds, out, in, size, n, c, exited, eof, fail>>

\* n: how many bytes were written and typed, and changes of size made
Init == /\ size \in (IF Known THEN Sizes ELSE {S!Unknown})
        /\ LET f == IF Raw \/ (~Known /\ ~Utf) THEN <<>> ELSE <<[kind |-> "size", c |-> 0, utf |-> Utf, size |-> size]>>
           IN /\ fr = f
              /\ cs = LET b == S!Begin(Utf, size) t == IF Known THEN S!Told(b, size) ELSE b
                      IN S!Wait(t, TRUE, f, 1)
        /\ pc = "wait" /\ need = FALSE /\ fds = {} /\ out = <<>> /\ in = <<>>
        /\ n = [out |-> 0, in |-> 0, size |-> 0] /\ c = 0 /\ exited = FALSE /\ eof = FALSE /\ fail = FALSE

Each(Op(_)) == {[st |-> Op(x.st), k |-> x.k] : x \in cs}
Good(s) == {x \in s : x.st.ok}

Write == /\ pc = "wait" /\ ~exited /\ n.out < MaxOut
         /\ LET b == n.out + 1 Op(st) == S!Out(st, <<b>>)
            IN n' = [n EXCEPT !.out = b] /\ out' = Append(out, b) /\ cs' = Each(Op)
         /\ UNCHANGED <<fr, pc, need, fds, in, size, c, exited, eof, fail>>
Type == /\ pc = "wait" /\ ~eof /\ n.in < MaxIn
        /\ LET b == n.in + 1 Op(st) == S!In(st, <<b>>)
           IN n' = [n EXCEPT !.in = b] /\ in' = Append(in, b) /\ cs' = Each(Op)
        /\ UNCHANGED <<fr, pc, need, fds, out, size, c, exited, eof, fail>>
\* at any time
Resize == /\ pc # "end" /\ Known /\ n.size < MaxSize
          /\ \E s \in Sizes : LET Op(st) == S!Resize(st, s) IN size' = s /\ cs' = Each(Op)
          /\ need' = TRUE /\ n' = [n EXCEPT !.size = @ + 1]
          /\ UNCHANGED <<fr, pc, fds, out, in, c, exited, eof, fail>>
Time == /\ pc = "wait" /\ c < 2
        /\ LET Op(st) == S!Tick(st, c + 1) IN c' = c + 1 /\ cs' = Each(Op)
        /\ UNCHANGED <<fr, pc, need, fds, out, in, size, n, exited, eof, fail>>
Exits == /\ pc = "wait" /\ ~exited
         /\ LET Op(st) == S!Exit(st) IN exited' = TRUE /\ cs' = Each(Op)
         /\ UNCHANGED <<fr, pc, need, fds, out, in, size, n, c, eof, fail>>
Eofs == /\ pc = "wait" /\ ~eof
        /\ LET Op(st) == S!Eof(st) IN eof' = TRUE /\ cs' = Each(Op)
        /\ UNCHANGED <<fr, pc, need, fds, out, in, size, n, c, exited, fail>>

Ready == (IF out # <<>> \/ exited THEN {"out"} ELSE {}) \cup (IF in # <<>> \/ eof THEN {"in"} ELSE {})
Go == /\ pc = "wait" /\ Ready # {}
      /\ fds' = Ready /\ pc' = "size" /\ LET Op(st) == S!Go(st) IN cs' = Each(Op)
      /\ UNCHANGED <<fr, need, out, in, size, n, c, exited, eof, fail>>
\* a signal may also come just before the wait, and not interrupt it
Intr == /\ pc = "wait" /\ need
        /\ fds' = {} /\ pc' = "size" /\ LET Op(st) == S!Intr(st) IN cs' = Each(Op)
        /\ UNCHANGED <<fr, need, out, in, size, n, c, exited, eof, fail>>

SizeAt(before, after) ==
  /\ pc = before /\ pc' = after
  /\ IF need
     THEN LET Op(st) == S!Told(st, size)
          IN cs' = Each(Op) /\ need' = FALSE /\ fr' = (IF Raw THEN fr ELSE Append(fr, [kind |-> "size", c |-> c, utf |-> FALSE, size |-> size]))
     ELSE UNCHANGED <<cs, need, fr>>
  /\ UNCHANGED <<fds, out, in, size, n, c, exited, eof, fail>>
Input == /\ pc = "in"
         /\ IF "in" \notin fds THEN pc' = "out" /\ UNCHANGED <<cs, in>>
            ELSE IF in = <<>> \/ (Variant = "write breaks" /\ exited) THEN pc' = "close" /\ UNCHANGED <<cs, in>>
            ELSE /\ pc' = "out" /\ in' = <<>>
                 /\ LET Op(st) == S!Got(st, in) IN cs' = IF exited THEN cs ELSE Each(Op)
         /\ UNCHANGED <<fr, need, fds, out, size, n, c, exited, eof, fail>>
Output == /\ pc = "out"
          /\ IF "out" \notin fds THEN pc' = "again" /\ UNCHANGED <<cs, out, fr>>
             ELSE IF out = <<>> THEN pc' = "close" /\ UNCHANGED <<cs, out, fr>>
             ELSE /\ pc' = "again" /\ out' = <<>> /\ fr' = Append(fr, [kind |-> "out", c |-> c, b |-> out])
                  /\ LET Op(st) == S!Shown(st, out) IN cs' = Each(Op)
          /\ UNCHANGED <<need, fds, in, size, n, c, exited, eof, fail>>
\* a change of size that is looked at before waiting, but not after: it may come between
Again == /\ pc = "again"
         /\ LET w == UNION {S!Wait(x.st, TRUE, fr, x.k) : x \in cs}
            IN IF Good(w) = {} THEN fail' = TRUE /\ cs' = w /\ pc' = "end" ELSE cs' = Good(w) /\ pc' = "wait" /\ UNCHANGED fail
         /\ UNCHANGED <<fr, need, fds, out, in, size, n, c, exited, eof>>
Close == /\ pc = "close"
         /\ LET w == UNION {S!End(x.st, TRUE, TRUE, fr, x.k) : x \in cs}
            IN cs' = w /\ fail' = (Good(w) = {}) /\ pc' = "end"
         /\ UNCHANGED <<fr, need, fds, out, in, size, n, c, exited, eof>>

Next == Write \/ Type \/ Resize \/ Time \/ Exits \/ Eofs \/ Go \/ Intr \/ Input \/ Output \/ Again \/ Close
        \/ SizeAt("size", "in")
Spec == Init /\ [][Next]_vars
Allowed == ~fail /\ Good(cs) # {}
\* once it's all over, everything is recorded, in order
Whole == pc = "end" /\ ~eof =>
           LET o == SelectSeq(fr, LAMBDA f : f.kind = "out")
               RECURSIVE Cat(_)
               Cat(x) == IF x = <<>> THEN <<>> ELSE Head(x).b \o Cat(Tail(x))
           IN Cat(o) = [i \in 1..n.out |-> i]
=============================================================================
