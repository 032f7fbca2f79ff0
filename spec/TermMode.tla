------------------------------ MODULE TermMode ------------------------------
(***************************************************************************)
(* The user's terminal and a program that takes keys from it (termplay,    *)
(* termrec), under a shell with job control.                               *)
(*                                                                         *)
(* tty: whose settings the terminal has: "own", those it had before, or    *)
(* "raw", the program's.  fg: whether the program is in the foreground.    *)
(* prog: "starting", "on" (it takes keys), "stopped" or "ended".           *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Ending == {"INT", "QUIT", "TERM", "HUP", "PIPE"}        \* ask it to end

\* What may come of the program when something happens: <<prog, tty, fg>>
\* before -> the set of those after it
Starts == {<<"starting", "own", TRUE>>}
Takes(s) == IF s[1] = "starting" /\ s[3] THEN {<<"on", "raw", TRUE>>} ELSE {}
\* it ends by itself, or is told to
Ends(s) == IF s[1] \in {"starting", "on"} THEN {<<"ended", "own", s[3]>>} ELSE {}
Suspends(s) == IF s[1] \in {"starting", "on"} THEN {<<"stopped", "own", FALSE>>} ELSE {}
\* in the background it goes on until it wants a key
Continues(s, fg) ==
  IF s[1] = "stopped" THEN {<<"starting", "own", fg>>} ELSE {}

After(s) == Takes(s) \cup Ends(s) \cup Suspends(s) \cup Continues(s, TRUE) \cup Continues(s, FALSE)

\* The user has the terminal whenever the program has stopped or ended, or
\* is in the background
Given(s) == s[1] \in {"stopped", "ended"} \/ ~s[3] => s[2] = "own"
Usable(s) == s[1] = "on" => s[2] = "raw"
=============================================================================
