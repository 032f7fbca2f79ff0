---------------------------- MODULE ExitBarrier ----------------------------
(***************************************************************************)
(* What users of compressed streams rely on at exit: the program opens     *)
(* streams, writes, closes; something compresses behind its back, at its   *)
(* own pace; and when the program is gone, every stream closed is in its   *)
(* file, whole.  Where there is no room for that, whoever writes more than  *)
(* what can be underway (Slack) is told, rather than left waiting.         *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Streams,
          Slack,     \* how much may be on its way to the file
          Sure(_)    \* less than that is sure to fit into a file of that size

VARIABLES st,        \* of each stream: "none", "open", "closed"
          room,      \* the bytes its file can have
          written,   \* bytes given to it
          done,      \* of these, in the file
          finished,  \* the file is complete and closed
          refused,   \* no more is taken
          prog       \* "runs", "exits", "gone"
bvars == <<st, room, written, done, finished, refused, prog>>

Init == /\ st = [s \in Streams |-> "none"] /\ room \in [Streams -> Nat] /\ written = [s \in Streams |-> 0]
        /\ done = [s \in Streams |-> 0] /\ finished = {} /\ refused = {} /\ prog = "runs"
Open(s) == /\ prog = "runs" /\ st[s] = "none" /\ st' = [st EXCEPT ![s] = "open"]
           /\ UNCHANGED <<room, written, done, finished, refused, prog>>
Write(s, n) == /\ prog = "runs" /\ st[s] = "open" /\ s \notin refused /\ written[s] + n <= room[s] + Slack
               /\ written' = [written EXCEPT ![s] = @ + n]
               /\ UNCHANGED <<st, room, done, finished, refused, prog>>
\* n more aren't taken
Refuse(s, n) == /\ prog = "runs" /\ st[s] = "open" /\ written[s] + n >= Sure(room[s])
                /\ refused' = refused \cup {s}
                /\ UNCHANGED <<st, room, written, done, finished, prog>>
Close(s) == /\ prog = "runs" /\ st[s] = "open" /\ st' = [st EXCEPT ![s] = "closed"]
            /\ UNCHANGED <<room, written, done, finished, refused, prog>>
Work(s, n) == /\ prog # "gone" /\ s \notin finished /\ done[s] + n <= written[s]
              /\ done' = [done EXCEPT ![s] = @ + n]
              /\ UNCHANGED <<st, room, written, finished, refused, prog>>
Finish(s) == /\ prog # "gone" /\ st[s] = "closed" /\ s \notin finished /\ done[s] = written[s]
             /\ finished' = finished \cup {s}
             /\ UNCHANGED <<st, room, written, done, refused, prog>>
Exit == prog = "runs" /\ prog' = "exits" /\ UNCHANGED <<st, room, written, done, finished, refused>>
Due(s) == st[s] = "closed" /\ s \notin refused /\ written[s] < Sure(room[s])
Gone == /\ prog = "exits" /\ \A s \in Streams : Due(s) => s \in finished
        /\ prog' = "gone" /\ UNCHANGED <<st, room, written, done, finished, refused>>
Next == \/ \E s \in Streams : Open(s) \/ Close(s) \/ Finish(s) \/ Refuse(s, 1)
        \/ \E s \in Streams : (\E n \in 1..(written[s] - done[s]) : Work(s, n)) \/ \E n \in 1..3 : Write(s, n)
        \/ Exit \/ Gone
Spec == Init /\ [][Next]_bvars

NothingLost == prog = "gone" => \A s \in Streams : Due(s) => done[s] = written[s] /\ s \in finished
=============================================================================
