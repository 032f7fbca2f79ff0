------------------------------- MODULE MCDos -------------------------------
(***************************************************************************)
(* DosRec on screens of two by two: what is remembered changes only where  *)
(* a frame says, notes don't last, what is shown differs from what is kept *)
(* only under the note.                                                    *)
(***************************************************************************)
EXTENDS DosRec
CONSTANTS MaxFrames
VARIABLES st, n, last
Cells == {65, 66}
Chunks == {<<>>} \cup {<< <<p, c>> >> : p \in 0..3, c \in {<<>>, <<65>>, <<66, 65>>}} \cup {<< <<0, <<65, 65>> >>, <<1, <<66>> >> >>}
Notes == {<<>>} \cup {<<w, h, x, y, [i \in 1..w * h |-> 67]>> : w \in 0..2, h \in 1..2, x \in 0..1, y \in 0..1}
Frames == {[delay |-> 0, s |-> s, d |-> d, ch |-> c, note |-> o] : s \in 0..1, d \in 0..1, c \in Chunks, o \in Notes}
Init == st = Start /\ n = 0 /\ last = [s |-> 0, d |-> 0, note |-> <<>>, was |-> {}]
Next == \E f \in Frames : /\ n < MaxFrames /\ Good(f)
                          /\ st' = Frame(st, f) /\ n' = n + 1
                          /\ last' = [s |-> f.s, d |-> f.d, note |-> f.note, was |-> st.scrs]
Spec == Init /\ [][Next]_<<st, n, last>>
In(i) == LET o == last.note IN o # <<>> /\ (i - 1) % 2 >= o[3] /\ (i - 1) % 2 < o[3] + o[1]
                                        /\ (i - 1) \div 2 >= o[4] /\ (i - 1) \div 2 < o[4] + o[2]
Kept == n > 0 => \A k \in 0..1 : k # last.d => Get(st.scrs, k) = Get(last.was, k)
Under == n > 0 => \A i \in 1..4 : st.shown[i] = IF In(i) THEN 67 ELSE Get(st.scrs, last.d)[i]
Sizes == \A p \in st.scrs : Len(p[2]) = 4 /\ \A i \in 1..4 : p[2][i] # 67
Once == \A p, q \in st.scrs : p[1] = q[1] => p = q
=============================================================================
