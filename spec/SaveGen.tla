------------------------------ MODULE SaveGen -------------------------------
\* Behaviours of two registers and two files.
EXTENDS Gen, QStore
Rec2(o, r, k, more) == [r |-> r, op |-> OpK(o, <<>>, k)] @@ more

\* medium: 0 amplitudes, 1 the type's own text format; place: 0 a new simulator, 1 the one in the slot, if there is one
SaveStep(R) ==
  LET f == R[2] % 2  live == {g \in {0, 1} : FLive(g)}  rs == SortedSeq(LiveSlots)  r == Pick(rs, R[3]) IN
  IF R[4] % 2 = 0 \/ live = {}
  THEN /\ Save(r, f)
       /\ hist' = Append(hist, Rec2("FSave", r, <<f, IF R[5] % 4 = 0 THEN 0 ELSE 1>>, <<>>))
  ELSE LET f2 == Pick(SortedSeq(live), R[5])  s == R[6] % 2 IN
       /\ Load(f2, s)
       /\ hist' = Append(hist, Rec2("FLoad", s, <<f2, R[7] % 2, R[8] % 8>>,
                                   [alts |-> <<Alt(-1, files[f2].n, files[f2].p)>>, j |-> 0, ph |-> FALSE]))

SInit == GInit /\ files = [f \in {0, 1} |-> NoFile]
SNext == IF depth > 0 /\ depth < DEPTH /\ todo.r < 0
         THEN \E m \in {RandomElement(0..5)} :
              IF m = 0 THEN \E R \in {TLCEval([j \in 1..12 |-> RandomElement(0..239)])} :
                            SaveStep(R) /\ depth' = depth + 1 /\ UNCHANGED <<todo, circs>>
              ELSE Step /\ UNCHANGED files
         ELSE GNext /\ UNCHANGED files
STypeOK == FilesOK
=============================================================================
