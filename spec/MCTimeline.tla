----------------------------- MODULE MCTimeline -----------------------------
(***************************************************************************)
(* The timeline, for every short history: what Timeline says of seeking,   *)
(* walking and saving, told another way, holds in every state.             *)
(***************************************************************************)
EXTENDS Timeline, TLC
CONSTANT N

VARIABLE shown          \* the terminal, as the history of what it got
Delays == {Zero, <<0, 0, 1>>, <<0, 4, 999999>>, <<0, 5, 0>>, <<0, 7, 3>>, <<-1, 65535, 999999>>, <<-1, 65535, 0>>}
Init == /\ t0 \in {Zero, <<0, 65535, 999999>>} /\ pending = Zero /\ frames = <<>> /\ fp0 = <<>> /\ shown = <<>>
Next == \/ \E d \in Delays : pending = Zero /\ Wait(d) /\ UNCHANGED shown
        \/ \E x \in {1, 2} : /\ Len(frames) < N /\ shown' = Append(shown, x)
                             /\ Frame(1, x, shown')
Spec == Init /\ [][Next]_<<tlvars, shown>>

Targets == {t0} \cup {frames[i].t : i \in DOMAIN frames} \cup {Plus(frames[i].t, <<0, 0, 1>>) : i \in DOMAIN frames}
           \cup {Minus(frames[i].t, <<0, 0, 1>>) : i \in DOMAIN frames}
\* a seek finds the terminal that has got exactly the frames up to then
SeekIsReplay == \A t \in Targets : LET i == Found(t) IN
  /\ \A k \in DOMAIN frames : (k <= i) <=> Leq(frames[k].t, t)
  /\ PrintAt(i) = SubSeq(shown, 1, i)
\* a walk meets every later frame, once
WalkIsAll == \A t \in Targets : LET w == WalkFrom(Found(t)) IN
  \A k \in DOMAIN frames : (\E j \in DOMAIN w : w[j][1] = k) <=> k >= Found(t)
\* selections that meet do so without a gap, and overlap in one frame
SaveIsWhole == \A a \in Targets, b \in Targets : Leq(a, b) =>
  LET s == Selected(a, b) IN
  \A k \in DOMAIN frames : (k >= Found(a) /\ Leq(frames[k].t, b)) <=> \E j \in DOMAIN s : j = k - (IF Found(a) = 0 THEN 0 ELSE Found(a) - 1) /\ s[j] = <<frames[k].t, 1, frames[k].data>>
\* no delay is longer than the limit
Bounded == \A k \in 2..Len(frames) : Leq(Minus(frames[k].t, frames[k - 1].t), Limit)
=============================================================================
