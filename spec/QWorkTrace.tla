----------------------------- MODULE QWorkTrace -----------------------------
(* Are the recorded executions in file TRACES (one JSON object a line, field *)
(* ev: events <<name, id, flag>>) behaviours of QWork?  Prints the rejected. *)
EXTENDS QWork, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES i, l, S
Init == i \in 1..Len(Traces) /\ l = 1 /\ S = {S0}
Next == /\ l <= Len(Traces[i].ev) /\ S # {}
        /\ LET e == Traces[i].ev[l] N == After(e[1], e[2], e[3], S)
           IN /\ S' = N
              /\ IF N = {} THEN PrintT(<<"REJECT", i, l>>) ELSE TRUE
        /\ l' = l + 1 /\ i' = i
Spec == Init /\ [][Next]_<<i, l, S>>
=============================================================================
