------------------------------- MODULE MCHand -------------------------------
(***************************************************************************)
(* termplay's loader, player and keyboard, at the level of their locks.    *)
(* The loader appends frames and wakes the player if it is waiting; the    *)
(* player shows frames, and waits if there's none and more may come; the   *)
(* keyboard stops the player wherever it may be cancelled and starts       *)
(* another, up to MaxStops times.                                          *)
(* NoWake, NoRecheck, KeepLock leave out one thing each: without it TLC    *)
(* finds the hang (see MCHandNoWake.cfg and so on).                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Frames, MaxStops, NoWake, NoRecheck, KeepLock

VARIABLES
  added, loaded, waiting, lock,   \* shared
  lpc, ppc, mpc,                  \* where the threads are
  fr, nf,                         \* the player's: last shown, next seen (0: none)
  cancel,                         \* it has been asked to stop
  awake,                          \* it has been woken
  screen,                         \* frames in the order they were shown
  stops
vars == <<added, loaded, waiting, lock, lpc, ppc, mpc, fr, nf, cancel, awake, screen, stops>>

Init == /\ added = 0 /\ loaded = FALSE /\ waiting = FALSE /\ lock = "no"
        /\ lpc = "add" /\ ppc = "none" /\ mpc = "start"
        /\ fr = 0 /\ nf = 0 /\ cancel = FALSE /\ awake = FALSE /\ screen = <<>> /\ stops = 0

NextOf(f) == IF f < added THEN f + 1 ELSE 0

(* ---- the loader *)
LAdd == /\ lpc = "add"
        /\ IF added < Frames THEN added' = added + 1 /\ lpc' = "lock" ELSE lpc' = "lockend" /\ UNCHANGED added
        /\ UNCHANGED <<loaded, waiting, lock, ppc, mpc, fr, nf, cancel, awake, screen, stops>>
LLock == /\ lpc \in {"lock", "lockend"} /\ lock = "no"
         /\ lock' = "loader" /\ lpc' = IF lpc = "lock" THEN "wake" ELSE "wakeend"
         /\ UNCHANGED <<added, loaded, waiting, ppc, mpc, fr, nf, cancel, awake, screen, stops>>
LWake == /\ lpc \in {"wake", "wakeend"}
         /\ loaded' = (loaded \/ lpc = "wakeend")
         /\ IF waiting /\ ~(NoWake /\ lpc = "wakeend")
            THEN waiting' = FALSE /\ awake' = (awake \/ ppc = "wait") ELSE UNCHANGED <<waiting, awake>>
         /\ lock' = "no" /\ lpc' = IF lpc = "wake" THEN "add" ELSE "done"
         /\ UNCHANGED <<added, ppc, mpc, fr, nf, cancel, screen, stops>>

(* ---- the player *)
Shared == <<added, loaded, lpc, mpc, cancel, stops>>
PLook == /\ ppc = "look"
         /\ nf' = NextOf(fr) /\ ppc' = IF NextOf(fr) # 0 THEN "sleep" ELSE "plock"
         /\ UNCHANGED <<waiting, lock, fr, awake, screen, Shared>>
PShow == /\ ppc = "sleep"       \* ... and from here on can't be cancelled
         /\ ppc' = "show" /\ UNCHANGED <<waiting, lock, fr, nf, awake, screen, Shared>>
PShown == /\ ppc = "show"
          /\ fr' = nf /\ screen' = Append(screen, nf) /\ ppc' = "look"
          /\ UNCHANGED <<waiting, lock, nf, awake, Shared>>
PLock == /\ ppc = "plock" /\ lock = "no"
         /\ lock' = "player" /\ ppc' = "check" /\ UNCHANGED <<waiting, fr, nf, awake, screen, Shared>>
PCheck == /\ ppc = "check"
          /\ LET n == IF NoRecheck THEN nf ELSE NextOf(fr)
                 w == waiting \/ (n = 0 /\ ~loaded)
             IN /\ nf' = n /\ waiting' = w
                /\ IF w THEN ppc' = "wait" /\ lock' = "no" /\ awake' = FALSE
                   ELSE ppc' = "punlock" /\ UNCHANGED <<lock, awake>>
          /\ UNCHANGED <<fr, screen, Shared>>
PWoken == /\ ppc = "wait" /\ awake /\ lock = "no"
          /\ lock' = "player" /\ nf' = NextOf(fr) /\ awake' = FALSE /\ ppc' = "punlock"
          /\ UNCHANGED <<waiting, fr, screen, Shared>>
PSpurious == /\ ppc = "wait" /\ ~awake /\ awake' = TRUE
             /\ UNCHANGED <<waiting, lock, ppc, fr, nf, screen, Shared>>
PUnlock == /\ ppc = "punlock"
           /\ lock' = "no" /\ ppc' = IF nf # 0 \/ ~loaded THEN "look" ELSE "over"
           /\ UNCHANGED <<waiting, fr, nf, awake, screen, Shared>>
\* cancelled: asleep, or waiting (then it gets the lock first, and drops it)
PCancel == /\ cancel
           /\ \/ ppc \in {"sleep", "over"} /\ UNCHANGED lock
              \/ ppc = "wait" /\ lock = "no" /\ lock' = IF KeepLock THEN "dead" ELSE "no"
           /\ ppc' = "none" /\ UNCHANGED <<waiting, fr, nf, awake, screen, Shared>>

(* ---- the keyboard *)
Others == <<added, loaded, waiting, lock, lpc, fr, nf, awake, screen>>
MStart == /\ mpc = "start" /\ mpc' = "keys" /\ ppc' = "look" /\ cancel' = FALSE /\ UNCHANGED <<Others, stops>>
MStop == /\ mpc = "keys" /\ stops < MaxStops
         /\ mpc' = "join" /\ cancel' = TRUE /\ stops' = stops + 1 /\ UNCHANGED <<Others, ppc>>
MJoin == /\ mpc = "join" /\ ppc = "none"
         /\ mpc' = "start" /\ UNCHANGED <<Others, ppc, cancel, stops>>

Loader == LAdd \/ LLock \/ LWake
Player == PLook \/ PShow \/ PShown \/ PLock \/ PCheck \/ PWoken \/ PUnlock
Main == MStart \/ MJoin
Next == Loader \/ Player \/ Main \/ PSpurious \/ PCancel \/ MStop
Spec == Init /\ [][Next]_vars /\ WF_vars(Loader) /\ SF_vars(PLock \/ PWoken) /\ WF_vars(Player) /\ WF_vars(Main)
             /\ SF_vars(LLock) /\ SF_vars(PCancel)

(* ---- what it is for *)
InOrder == /\ \A i \in DOMAIN screen : screen[i] = i        \* each once, in order
           /\ Len(screen) <= added
           /\ fr = Len(screen)
\* the lock has a living owner
Owned == (lock = "player" => ppc \in {"check", "punlock"}) /\ (lock = "loader" => lpc \in {"wake", "wakeend"})
\* keys are always answered, and in the end everything is shown
Answered == (mpc = "join") ~> (mpc = "start")
Ends == <>(Len(screen) = Frames /\ ppc = "over")
=============================================================================
