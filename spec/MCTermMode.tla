----------------------------- MODULE MCTermMode -----------------------------
(* How termplay goes about it: the steps it takes to set the terminal, with  *)
(* signals at any of them, its handlers' steps included, and a shell that    *)
(* has it go on once stopped.  TLC checks that this is TermMode: that the    *)
(* terminal is the user's whenever the program has stopped or ended.         *)
(*                                                                           *)
(* Stops: how often it is stopped at most.  What it can't do otherwise:      *)
(* Way = "plain": it has no handlers; "late": it sets them only once the     *)
(* terminal is raw; "nested": signals come while it is in a handler, too;    *)
(* "nocont": it takes the terminal again only where it was stopped itself;   *)
(* "bold": it does all that in the background, too; "threads": another       *)
(* thread may take the terminal while it is in a handler; "reset": the       *)
(* handler is unset as it begins, so another thread may get the same signal  *)
(* without it.  "good": none of these.                                       *)
EXTENDS TermMode, IOUtils
CONSTANT Stops
Way == IF "WAY" \in DOMAIN IOEnv THEN IOEnv.WAY ELSE "good"

VARIABLES main,         \* what it does next
          stack,        \* the handlers it is in, innermost first: <<signal, what it does next>>
          tty, fg, proc, armed, pend, n,
          dis           \* signals whose handler is unset
vars == <<main, stack, tty, fg, proc, armed, pend, n, dis>>

Init == /\ main = "start" /\ stack = <<>> /\ tty = "own" /\ fg = TRUE /\ proc = "runs"
        /\ armed = FALSE /\ pend = {} /\ n = 0 /\ dis = {}

runs == proc = "runs"
\* one in the background that sets the terminal, or reads from it, is stopped
TtyStop == proc' = "stopped" /\ UNCHANGED <<main, tty>>
Main ==
  /\ runs /\ stack = <<>> /\ UNCHANGED <<stack, fg, pend, n, dis>>
  /\ CASE main = "start" -> main' = (IF Way \in {"plain", "late"} THEN "set" ELSE "arm") /\ UNCHANGED <<tty, proc, armed>>
       [] main = "arm" -> armed' = TRUE /\ main' = (IF Way = "late" THEN "on" ELSE "set") /\ UNCHANGED <<tty, proc>>
       [] main = "set" -> /\ IF fg THEN tty' = "raw" /\ main' = (IF Way = "late" THEN "arm" ELSE "on") /\ UNCHANGED proc ELSE TtyStop
                          /\ UNCHANGED armed
       [] main = "on" -> /\ IF fg THEN main' = "forget" /\ UNCHANGED <<tty, proc>> ELSE TtyStop      \* the key that ends it
                         /\ UNCHANGED armed
       [] main = "forget" -> main' = "reset" /\ UNCHANGED <<tty, proc, armed>>  \* from here on, handlers won't make it raw
       [] main = "reset" -> /\ IF fg THEN tty' = "own" /\ main' = "exit" /\ UNCHANGED proc ELSE TtyStop
                            /\ UNCHANGED armed
       [] main = "exit" -> proc' = "ended" /\ UNCHANGED <<main, tty, armed>>

Mine == fg \/ Way = "bold"
Take == IF ~Mine THEN tty ELSE IF main \in {"reset", "exit"} THEN "own" ELSE "raw"
Default(s) == CASE s = "TERM" -> proc' = "ended" /\ UNCHANGED fg
                [] s = "STOP" -> proc' = "stopped" /\ fg' = FALSE
                [] OTHER -> UNCHANGED <<proc, fg>>

\* a signal comes, now or later
Signal(s) == /\ proc # "ended" /\ s \notin pend /\ (s = "STOP" => n < Stops /\ runs)
             /\ pend' = pend \cup {s} /\ n' = (IF s = "STOP" THEN n + 1 ELSE n)
             /\ UNCHANGED <<main, stack, tty, fg, proc, armed, dis>>
Handled(s) == armed /\ s \notin dis /\ ~(s = "CONT" /\ Way = "nocont")
Deliver(s) ==
  /\ runs /\ s \in pend /\ (stack = <<>> \/ Way = "nested") /\ Len(stack) < 3
  /\ pend' = pend \ {s} /\ UNCHANGED <<main, tty, armed, n>>
  /\ IF Handled(s)
     THEN /\ stack' = <<<<s, IF s = "CONT" THEN "take" ELSE "give">>>> \o stack /\ UNCHANGED <<proc, fg>>
          /\ dis' = IF s # "CONT" /\ Way = "reset" THEN dis \cup {s} ELSE dis
     ELSE Default(s) /\ UNCHANGED <<stack, dis>>
Top == Head(stack)
\* another thread gets it meanwhile: it leaves it to this one, unless it has
\* no handler
Elsewhere(s) ==
  /\ runs /\ s \in pend /\ stack # <<>>
  /\ IF Handled(s) THEN s = "CONT" /\ Way = "threads" /\ pend' = pend \ {s} /\ tty' = Take /\ UNCHANGED <<proc, fg>>
     ELSE Default(s) /\ pend' = pend \ {s} /\ UNCHANGED tty
  /\ UNCHANGED <<main, stack, armed, n, dis>>
Handler ==
  /\ runs /\ stack # <<>> /\ UNCHANGED <<main, armed, pend, n>>
  /\ CASE Top[2] = "give" -> /\ tty' = (IF Mine THEN "own" ELSE tty) /\ dis' = dis \cup {Top[1]}
                             /\ stack' = <<<<Top[1], "raise">>>> \o Tail(stack) /\ UNCHANGED <<fg, proc>>
       [] Top[2] = "raise" -> Default(Top[1]) /\ stack' = <<<<Top[1], "arm">>>> \o Tail(stack) /\ UNCHANGED <<tty, dis>>
       [] Top[2] = "arm" -> stack' = <<<<Top[1], "take">>>> \o Tail(stack) /\ dis' = dis \ {Top[1]} /\ UNCHANGED <<fg, proc, tty>>
       [] Top[2] = "take" -> tty' = Take /\ stack' = Tail(stack) /\ UNCHANGED <<fg, proc, dis>>
\* the shell
Continue(f) ==
  /\ proc = "stopped" /\ proc' = "runs" /\ fg' = f
  /\ pend' = (pend \ {"STOP"}) \cup {"CONT"}
  /\ UNCHANGED <<main, stack, tty, armed, n, dis>>
Next == Main \/ Handler \/ (\E s \in {"TERM", "STOP", "CONT"} : Deliver(s) \/ Elsewhere(s)) \/ (\E s \in {"TERM", "STOP"} : Signal(s)) \/ \E f \in BOOLEAN : Continue(f)
Spec == Init /\ [][Next]_vars

\* as TermMode has it
Waits == main = "on" /\ stack = <<>> /\ pend = {}
Abs == <<IF ~runs THEN proc ELSE IF Waits /\ fg THEN "on" ELSE "starting", tty, fg>>
Back == Given(Abs)
\* ... and when it waits for keys, it has the terminal
HasIt == Usable(Abs)
=============================================================================
