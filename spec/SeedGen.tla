------------------------------ MODULE SeedGen -------------------------------
(* Programs for two worlds (QSeed): the behaviours of Gen with seedings at random points, and with a schedule: w tells  *)
(* whether the second world catches up with the first at this point.  The outcomes are the implementation's.            *)
EXTENDS Gen
SeedStep == \E s \in {RandomElement(1..50)} : \E r \in {RandomElement(LiveSlots)} :
              /\ hist' = Append(hist, [r |-> r, op |-> OpK("Seed", <<>>, <<s>>), w |-> RandomElement({TRUE, FALSE})])
              /\ UNCHANGED <<regs, circs, todo>> /\ depth' = depth + 1
DNext == IF depth > 0 /\ depth < DEPTH /\ todo.r < 0
         THEN \E m \in {RandomElement(0..9)} : IF m = 0 THEN SeedStep ELSE Step
         ELSE GNext
=============================================================================
