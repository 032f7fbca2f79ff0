------------------------------ MODULE Filters ------------------------------
(***************************************************************************)
(* libstream/stream.c, at the level of locks, pipes and threads: filter(), *)
(* filterthr() and finish_up().  It implements ExitBarrier, and every exit *)
(* ends.                                                                   *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Streams, Max, Cap, Spurious,
          Keep,    \* bytes a compressor keeps at most
          Small    \* streams whose destinations are full from the start
None == "none"

VARIABLES
  mpc,     \* of the main thread: "run", "lock", "create", "count", "unlock", "xlock", "test", "wait", "xunlock", "gone"
  ms,      \* the stream it is opening
  st, written,
  pipe,    \* bytes in the pipe of each stream
  held,    \* bytes the compressor keeps
  file,
  tpc,     \* of the filters: "none", "work", "flush", "close", "lock", "dec", "wake", "unlock", "end"
  fin,     \* files closed
  dead,    \* filters that have given up
  refused,
  nstreams, owner, signal
vars == <<mpc, ms, st, written, pipe, held, file, tpc, fin, dead, refused, nstreams, owner, signal>>
Z == [s \in Streams |-> 0]

Init == /\ mpc = "run" /\ ms = None /\ st = [s \in Streams |-> "none"] /\ written = Z /\ pipe = Z /\ held = Z
        /\ file = Z /\ tpc = [s \in Streams |-> "none"] /\ fin = {} /\ dead = {} /\ refused = {} /\ nstreams = 0 /\ owner = None /\ signal = FALSE

\* the main thread
Open(s) == /\ mpc = "run" /\ st[s] = "none" /\ mpc' = "lock" /\ ms' = s
           /\ UNCHANGED <<st, written, pipe, held, file, tpc, fin, nstreams, owner, signal, dead, refused>>
Lock == /\ mpc = "lock" /\ owner = None /\ owner' = "main" /\ mpc' = "create"
        /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, signal, dead, refused>>
Create == /\ mpc = "create" /\ tpc' = [tpc EXCEPT ![ms] = "work"] /\ mpc' = "count"
          /\ UNCHANGED <<ms, st, written, pipe, held, file, fin, nstreams, owner, signal, dead, refused>>
Count == /\ mpc = "count" /\ nstreams' = nstreams + 1 /\ mpc' = "unlock"
         /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, owner, signal, dead, refused>>
Unlock == /\ mpc = "unlock" /\ owner' = None /\ mpc' = "run" /\ ms' = None /\ st' = [st EXCEPT ![ms] = "open"]
          /\ UNCHANGED <<written, pipe, held, file, tpc, fin, nstreams, signal, dead, refused>>
Reads(s) == tpc[s] \in {"none", "work"}
Refuse(s) == /\ mpc = "run" /\ st[s] = "open" /\ ~Reads(s) /\ refused' = refused \cup {s}
             /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, tpc, fin, dead, nstreams, owner, signal>>
Write(s) == /\ mpc = "run" /\ st[s] = "open" /\ Reads(s) /\ written[s] < Max /\ pipe[s] < Cap
            /\ pipe' = [pipe EXCEPT ![s] = @ + 1] /\ written' = [written EXCEPT ![s] = @ + 1]
            /\ UNCHANGED <<mpc, ms, st, held, file, tpc, fin, nstreams, owner, signal, dead, refused>>
Close(s) == /\ mpc = "run" /\ st[s] = "open" /\ st' = [st EXCEPT ![s] = "closed"]
            /\ UNCHANGED <<mpc, ms, written, pipe, held, file, tpc, fin, nstreams, owner, signal, dead, refused>>
Exit == /\ mpc = "run" /\ \A s \in Streams : st[s] # "open"
        /\ mpc' = "xlock"
        /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, owner, signal, dead, refused>>
XLock == /\ mpc = "xlock" /\ owner = None /\ owner' = "main" /\ mpc' = "test"
         /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, signal, dead, refused>>
Test == /\ mpc = "test"
        /\ IF nstreams # 0 THEN mpc' = "wait" /\ owner' = None /\ signal' = FALSE
           ELSE mpc' = "xunlock" /\ UNCHANGED <<owner, signal, dead, refused>>
        /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, dead, refused>>
Waited == /\ mpc = "wait" /\ (signal \/ Spurious) /\ owner = None /\ owner' = "main" /\ mpc' = "test"
          /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, signal, dead, refused>>
XUnlock == /\ mpc = "xunlock" /\ owner' = None /\ mpc' = "gone"
           /\ UNCHANGED <<ms, st, written, pipe, held, file, tpc, fin, nstreams, signal, dead, refused>>
Main == \/ Lock \/ Create \/ Count \/ Unlock \/ XLock \/ Test \/ Waited \/ XUnlock

\* the filters
Alive == mpc # "gone"
Read(s) == /\ Alive /\ tpc[s] = "work" /\ pipe[s] > 0
           /\ \E n \in 1..pipe[s] : held[s] + n <= Keep /\ pipe' = [pipe EXCEPT ![s] = @ - n] /\ held' = [held EXCEPT ![s] = @ + n]
           /\ UNCHANGED <<mpc, ms, st, written, file, tpc, fin, nstreams, owner, signal, dead, refused>>
Some(s) == /\ Alive /\ tpc[s] = "work" /\ held[s] > 0 /\ s \notin Small
           /\ \E n \in 1..held[s] : held' = [held EXCEPT ![s] = @ - n] /\ file' = [file EXCEPT ![s] = @ + n]
           /\ UNCHANGED <<mpc, ms, st, written, pipe, tpc, fin, nstreams, owner, signal, dead, refused>>
Break(s) == /\ Alive /\ tpc[s] = "work" /\ held[s] > 0 /\ s \in Small
            /\ tpc' = [tpc EXCEPT ![s] = "lock"] /\ dead' = dead \cup {s}
            /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, refused, nstreams, owner, signal>>
Eof(s) == /\ Alive /\ tpc[s] = "work" /\ pipe[s] = 0 /\ st[s] = "closed"
          /\ tpc' = [tpc EXCEPT ![s] = "flush"]
          /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, nstreams, owner, signal, dead, refused>>
Flush(s) == /\ Alive /\ tpc[s] = "flush" /\ (s \notin Small \/ held[s] = 0) /\ held' = [held EXCEPT ![s] = 0] /\ file' = [file EXCEPT ![s] = @ + held[s]]
            /\ tpc' = [tpc EXCEPT ![s] = "close"]
            /\ UNCHANGED <<mpc, ms, st, written, pipe, fin, nstreams, owner, signal, dead, refused>>
Lose(s) == /\ Alive /\ tpc[s] = "flush" /\ s \in Small /\ held[s] > 0
           /\ tpc' = [tpc EXCEPT ![s] = "lock"] /\ dead' = dead \cup {s}
           /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, refused, nstreams, owner, signal>>
FClose(s) == /\ Alive /\ tpc[s] = "close" /\ fin' = fin \cup {s} /\ tpc' = [tpc EXCEPT ![s] = "lock"]
             /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, nstreams, owner, signal, dead, refused>>
TLock(s) == /\ Alive /\ tpc[s] = "lock" /\ owner = None /\ owner' = s /\ tpc' = [tpc EXCEPT ![s] = "dec"]
            /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, nstreams, signal, dead, refused>>
Dec(s) == /\ Alive /\ tpc[s] = "dec" /\ nstreams' = nstreams - 1
          /\ tpc' = [tpc EXCEPT ![s] = IF nstreams = 1 THEN "wake" ELSE "unlock"]
          /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, owner, signal, dead, refused>>
TWake(s) == /\ Alive /\ tpc[s] = "wake" /\ signal' = TRUE /\ tpc' = [tpc EXCEPT ![s] = "unlock"]
            /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, nstreams, owner, dead, refused>>
TUnlock(s) == /\ Alive /\ tpc[s] = "unlock" /\ owner' = None /\ tpc' = [tpc EXCEPT ![s] = "end"]
              /\ UNCHANGED <<mpc, ms, st, written, pipe, held, file, fin, nstreams, signal, dead, refused>>
Thread(s) == Read(s) \/ Some(s) \/ Break(s) \/ Lose(s) \/ Eof(s) \/ Flush(s) \/ FClose(s) \/ TLock(s) \/ Dec(s) \/ TWake(s) \/ TUnlock(s)

Next == Main \/ Exit \/ \E s \in Streams : Open(s) \/ Write(s) \/ Refuse(s) \/ Close(s) \/ Thread(s)
Spec == Init /\ [][Next]_vars /\ WF_vars(Main) /\ \A s \in Streams : WF_vars(Thread(s)) /\ SF_vars(TLock(s)) /\ SF_vars(XLock) /\ SF_vars(Waited)

Bytes == \A s \in Streams : written[s] = pipe[s] + held[s] + file[s]
Mutex == \A s \in Streams : tpc[s] \in {"dec", "wake", "unlock"} => owner = s
CountOk == nstreams = Cardinality({s \in Streams : tpc[s] \in {"work", "flush", "close", "lock", "dec"}}) - (IF mpc = "count" THEN 1 ELSE 0)
\* who writes is never left waiting
Taken == \A s \in Streams : (mpc = "run" /\ st[s] = "open" /\ pipe[s] = Cap /\ Reads(s)) ~> (pipe[s] < Cap \/ ~Reads(s))
Ends == mpc = "xlock" ~> mpc = "gone"

All(k) == k + 1
B == INSTANCE ExitBarrier WITH Slack <- Cap + Keep, Sure <- All, room <- [s \in Streams |-> IF s \in Small THEN 0 ELSE Max], done <- file, finished <- fin,
       st <- [s \in Streams |-> IF ms = s THEN "open" ELSE st[s]],
       prog <- CASE mpc \in {"xlock", "test", "wait", "xunlock"} -> "exits" [] mpc = "gone" -> "gone" [] OTHER -> "runs"
Refines == B!Spec
NothingLost == B!NothingLost
=============================================================================
