-------------------------------- MODULE Gen --------------------------------
(***************************************************************************)
(* Behaviours of QRack as test programs.  Run with TLC -simulate: each     *)
(* behaviour picks random operations of the classes listed by PROFILE,     *)
(* follows QRack's actions, and prints the recorded history (operation,    *)
(* every admissible result and post-state, the one followed) as JSON for   *)
(* replay against the implementation.                                      *)
(***************************************************************************)
EXTENDS QCirc, Json, IOUtils

VARIABLES hist, depth, todo

Env(k, d) == IF k \in DOMAIN IOEnv THEN IOEnv[k] ELSE d
PROFILE == Env("PROFILE", "gates")
NMIN == atoi(Env("NMIN", "1"))
NMAX == atoi(Env("NMAX", "4"))
MOD2 == Env("MOD2", "0")        \* multiplication modulo powers of two only (see known_findings.txt)
DEPTH == atoi(Env("DEPTH", "20"))
CoefLim == 1500
QueryLim == 400

-----------------------------------------------------------------------------
(* random material: R is a tuple of numbers, qs a permutation of the qubits *)
Pick(s, r) == s[1 + (r % Len(s))]
RECURSIVE Lehmer(_, _)
Lehmer(avail, k) == IF k = 0 THEN <<>> ELSE LET x == avail[1 + RandomElement(0..(k-1))]
                                            IN <<x>> \o Lehmer(SelectSeq(avail, LAMBDA y : y # x), k - 1)
RandPerm(n) == TLCEval(Lehmer([j \in 1..n |-> j-1], n))

E8(j) == [e |-> RPow(j), s |-> ROne]
P5(a, b) == [e |-> <<a,0,b,0>>, s |-> RInt(5)]
P3(a, b) == [e |-> <<a,b,0,b>>, s |-> RInt(3)]         \* a + b*sqrt2*i
R3(a, b) == [e |-> <<0,b,a,-b>>, s |-> RInt(3)]        \* b*sqrt2 + a*i
Angles == << E8(0),E8(1),E8(2),E8(3),E8(4),E8(5),E8(6),E8(7), E8(1),E8(7),E8(2),E8(1),
             P5(3,4),P5(-3,4),P5(3,-4),P5(4,3),P5(-4,-3),P5(4,-3), P3(1,2),P3(-1,2),P3(1,-2),R3(1,2),R3(-1,2) >>
Angles8 == << E8(0),E8(1),E8(2),E8(3),E8(4),E8(5),E8(6),E8(7) >>
\* angles in (0, pi): half-angle parameters whose sign conventions are not at issue
Ang(r) == Pick(Angles, r)

N1 == << "X","Y","Z","H","S","IS","T","IT","SqrtX","ISqrtX","SqrtY","ISqrtY","SqrtW","ISqrtW","SH","HIS","SqrtH","H","T" >>
N1C == << "X","Y","Z","H","S","IS","SqrtX","ISqrtX","SqrtY","ISqrtY","SH","HIS","H","H","S" >>
NC1 == << "CNOT","AntiCNOT","CY","AntiCY","CZ","AntiCZ","CH","AntiCH","CS","AntiCS","CIS","AntiCIS","CT","CIT" >>
NC1C == << "CNOT","AntiCNOT","CY","AntiCY","CZ","AntiCZ" >>
NC2 == << "CCNOT","AntiCCNOT","CCY","AntiCCY","CCZ","AntiCCZ" >>
ROT1 == << "RX","RY","RZ","RT","U","U2","IU2","AI","IAI" >>
ROTC == << "CRY","CRZ","CU","AntiCU","CAI","AntiCAI","CIAI","AntiCIAI" >>
ROOT1 == << "PhaseRootN","IPhaseRootN" >>
ROOTC == << "CPhaseRootN","AntiCPhaseRootN","CIPhaseRootN","AntiCIPhaseRootN" >>
SW0 == << "Swap","ISwap","IISwap","SqrtSwap","ISqrtSwap","FSim","Swap","ISwap" >>
SW0C == << "Swap","ISwap","IISwap" >>
SWC == << "CSwap","CSqrtSwap","CISqrtSwap","AntiCSwap","AntiCSqrtSwap","AntiCISqrtSwap" >>

\* a 2x2 unitary; shape 0 general, 1 diagonal, 2 anti-diagonal
GenG(r1, r2, r3, sh) ==
  LET z == Ang(r1)  y == Ang(r2) IN
  CASE sh = 1 -> RedG(G(<<RMul(z.e, y.s), RZ, RZ, RMul(y.e, z.s)>>, RMul(z.s, y.s)))
    [] sh = 2 -> RedG(G(<<RZ, RMul(z.e, y.s), RMul(y.e, z.s), RZ>>, RMul(z.s, y.s)))
    [] OTHER -> CASE r3 % 4 = 0 -> Named1[Pick(N1, r1)]
                  [] r3 % 4 = 1 -> GMul(Named1[Pick(N1, r1)], Named1[Pick(N1, r2)])
                  [] r3 % 4 = 2 -> GMul(GRZ(z), Named1[Pick(N1, r2)])
                  [] OTHER -> GMul(GRY(z), GRZ(y))
GenGC(r1, r2) == GMul(Named1[Pick(N1C, r1)], Named1[Pick(N1C, r2)])   \* Clifford
Sub(qs, a, b) == SubSeq(qs, a, b)
MinI(a, b) == IF a < b THEN a ELSE b

\* two disjoint ranges of length len in n qubits: <<s1, s2>>
TwoRanges(n, len, r1, r2, r3) ==
  LET gap == n - 2*len   a == r1 % (gap + 1)   b == a + len + (r2 % (gap - a + 1))
  IN IF r3 % 2 = 0 THEN <<a, b>> ELSE <<b, a>>
FreeQ(n, ranges, qs) ==   \* qubits outside the ranges <<start,len>>, in the order of qs
  SelectSeq(qs, LAMBDA x : \A j \in DOMAIN ranges : x < ranges[j][1] \/ x >= ranges[j][1] + ranges[j][2])

Fallback(qs) == OpQ("X", <<qs[1]>>)

MakeGate(cls, n, R, qs) ==
  LET m == R[1] IN
  CASE cls = "n1" -> OpQ(Pick(N1, m), <<qs[1]>>)
    [] cls = "h" -> OpQ("H", <<qs[1]>>)
    [] cls = "n1c" -> OpQ(Pick(N1C, m), <<qs[1]>>)
    [] cls = "nc" -> IF n < 2 THEN Fallback(qs)
                     ELSE IF n > 2 /\ R[2] % 4 = 0 THEN OpCQ(Pick(NC2, m), Sub(qs,1,2), <<qs[3]>>)
                     ELSE OpCQ(Pick(NC1, m), <<qs[1]>>, <<qs[2]>>)
    [] cls = "ncc" -> IF n < 2 THEN Fallback(qs) ELSE OpCQ(Pick(NC1C, m), <<qs[1]>>, <<qs[2]>>)
    [] cls = "cz" -> IF n < 2 THEN Fallback(qs)
                     ELSE OpCQ(Pick(<<"CZ","CNOT","AntiCZ","CS","CT","AntiCNOT","CZ","CNOT">>, m), <<qs[1]>>, <<qs[2]>>)
    [] cls = "t" -> OpQ(Pick(<<"T","IT">>, m), <<qs[1]>>)
    [] cls = "mt" -> LET sh == R[2] % 3 IN
                     Op(Pick(<<"Mtrx","Phase","Invert">>, sh), <<qs[1]>>, <<>>, <<>>, <<GenG(R[3],R[4],R[5],sh)>>, <<>>)
    [] cls = "mtc" -> Op("Mtrx", <<qs[1]>>, <<>>, <<>>, <<GenGC(R[3],R[4])>>, <<>>)
    [] cls = "mc" -> LET sh == R[2] % 3  kind == R[6] % 3
                         nc == IF n = 1 THEN 0 ELSE 1 + (R[7] % MinI(n-1, 3))
                         nm == Pick(<<"Mtrx","Phase","Invert">>, sh)
                         c == Sub(qs, 2, nc+1)
                         g == <<GenG(R[3],R[4],R[5],sh)>>
                     IN CASE kind = 0 -> Op("MC" \o nm, <<qs[1]>>, c, <<>>, g, <<>>)
                          [] kind = 1 -> Op("MAC" \o nm, <<qs[1]>>, c, <<>>, g, <<>>)
                          [] OTHER -> Op("UC" \o nm, <<qs[1]>>, c, <<R[8] % 2^nc>>, g, <<>>)
    [] cls = "mcp" -> LET nc == IF n = 1 THEN 0 ELSE 1 + (R[7] % MinI(n-1, 2))
                      IN Op(Pick(<<"MCPhase","MACPhase","MCInvert","MCPhase","MACInvert">>, m), <<qs[1]>>, Sub(qs,2,nc+1), <<>>,
                            <<GenG(R[3],R[4],R[5], IF m % 5 \in {2,4} THEN 2 ELSE 1)>>, <<>>)
    [] cls = "ucs" -> LET nc == MinI(n-1, R[2] % 3)  c == Sub(qs, 2, nc+1) IN
                      CASE m % 6 = 3 -> \* a table with skipped index bits: k = <<value mask, skip bits ascending>>
                                        LET ns == R[11] % 3
                                            sk == CASE ns = 0 -> <<>> [] ns = 1 -> <<R[10] % (nc+1)>>
                                                    [] OTHER -> LET a == R[10] % (nc+1) IN <<a, a + 1 + (R[9] % (nc+1-a))>>
                                            vm == LET x == R[8] % (2^ns) IN Scatter(sk, x)
                                        IN Op("UCSBS", <<qs[1]>>, c, <<vm>> \o sk,
                                              [j \in 1..(2^(nc+ns)) |-> Named1[Pick(N1C, R[1+(j % 7)] + j)]], <<>>)
                        [] m % 3 = 0 -> Op("UCSB", <<qs[1]>>, c, <<>>,
                                           [j \in 1..(2^nc) |-> Named1[Pick(N1C, R[2+j])]], <<>>)
                        [] m % 3 = 1 -> Op("UCRY", <<qs[1]>>, c, <<>>, <<>>, [j \in 1..(2^nc) |-> Pick(Angles8, R[2+j])])
                        [] OTHER -> Op("UCRZ", <<qs[1]>>, c, <<>>, <<>>, [j \in 1..(2^nc) |-> Pick(Angles8, R[2+j])])
    [] cls = "rot" -> IF n > 1 /\ R[2] % 3 = 0
                      THEN LET o == Pick(ROTC, m)
                               nc == IF o \in {"CU","AntiCU"} THEN 1 + (R[6] % MinI(n-1, 2)) ELSE 1
                           IN Op(o, <<qs[1]>>, Sub(qs,2,nc+1), <<>>, <<>>, <<Ang(R[3]),Pick(Angles8,R[4]),Pick(Angles8,R[5])>>)
                      ELSE Op(Pick(ROT1, m), <<qs[1]>>, <<>>, <<>>, <<>>, <<Ang(R[3]),Pick(Angles8,R[4]),Pick(Angles8,R[5])>>)
    [] cls = "rt1" -> Op(Pick(<<"RZ","RX","RY","RT">>, m), <<qs[1]>>, <<>>, <<>>, <<>>, <<Ang(R[3])>>)
    [] cls = "root" -> IF n > 1 /\ R[2] % 2 = 0 THEN Op(Pick(ROOTC, m), <<qs[1]>>, <<qs[2]>>, <<R[3] % 4>>, <<>>, <<>>)
                       ELSE OpK(Pick(ROOT1, m), <<qs[1]>>, <<R[3] % 4>>)
    [] cls = "sw" -> IF n < 2 THEN Fallback(qs)
                     ELSE Op(Pick(SW0, m), Sub(qs,1,2), <<>>, <<>>, <<>>,
                             IF Pick(SW0, m) = "FSim" THEN <<Ang(R[3]), Pick(Angles8, R[4])>> ELSE <<>>)
    [] cls = "swc" -> IF n < 2 THEN Fallback(qs) ELSE OpQ(Pick(SW0C, m), Sub(qs,1,2))
    [] cls = "csw" -> IF n < 3 THEN Fallback(qs)
                      ELSE OpCQ(Pick(SWC, m), Sub(qs,3, 2 + 1 + (R[2] % MinI(n-2,2))), Sub(qs,1,2))
    [] cls = "par" -> LET mask == R[2] % 2^n IN
                      CASE m % 7 = 0 -> OpK("XMask", <<>>, <<mask>>)
                        [] m % 7 = 1 -> OpK("YMask", <<>>, <<mask>>)
                        [] m % 7 = 2 -> OpK("ZMask", <<>>, <<mask>>)
                        [] m % 7 = 3 -> OpK("PhaseRootNMask", <<>>, <<R[3] % 4, mask>>)
                        [] m % 7 = 4 -> Op("PhaseParity", <<>>, <<>>, <<mask>>, <<>>, <<Ang(R[3])>>)
                        [] m % 7 = 5 -> Op("UniformParityRZ", <<>>, <<>>, <<mask>>, <<>>, <<Ang(R[3])>>)
                        [] OTHER -> IF n < 2 THEN Fallback(qs) ELSE
                                    LET nc == 1 + (R[4] % MinI(n-1, 2))  c == Sub(qs, 1, nc)
                                        mk == mask - (mask & MaskOf(c))
                                    IN Op("CUniformParityRZ", <<>>, c, <<mk>>, <<>>, <<Ang(R[3])>>)
    [] cls = "parc" -> LET mask == R[2] % 2^n IN OpK(Pick(<<"XMask","YMask","ZMask">>, m), <<>>, <<mask>>)
    [] cls = "reg" -> LET len == 1 + (R[2] % n)  st == R[3] % (n - len + 1) IN
                      CASE m % 8 = 0 -> OpK("XReg", <<>>, <<st, len>>)
                        [] m % 8 = 1 -> OpK("HReg", <<>>, <<st, len>>)
                        [] m % 8 = 2 -> OpK("Reverse", <<>>, <<st, st + len>>)
                        [] m % 8 = 3 -> OpK("ROL", <<>>, <<R[4] % (len + 2), st, len>>)
                        [] m % 8 = 4 -> OpK("ROR", <<>>, <<R[4] % (len + 2), st, len>>)
                        [] m % 8 = 5 -> OpK("ZeroPhaseFlip", <<>>, <<st, len>>)
                        [] m % 8 = 6 -> OpK("XReg", <<>>, <<st, len>>)
                        [] OTHER -> Op0("PhaseFlip")
    [] cls = "regc" -> LET len == 1 + (R[2] % n)  st == R[3] % (n - len + 1) IN
                      CASE m % 4 = 0 -> OpK("XReg", <<>>, <<st, len>>)
                        [] m % 4 = 1 -> OpK("HReg", <<>>, <<st, len>>)
                        [] m % 4 = 2 -> OpK("Reverse", <<>>, <<st, st + len>>)
                        [] OTHER -> OpK(Pick(<<"ROL","ROR">>, R[5]), <<>>, <<R[4] % (len + 2), st, len>>)
    [] cls = "qft" -> LET len == 1 + (R[2] % MinI(n, 3))  st == R[3] % (n - len + 1) IN
                      CASE m % 4 = 0 -> OpK("QFT", <<>>, <<st, len>>)
                        [] m % 4 = 1 -> OpK("IQFT", <<>>, <<st, len>>)
                        [] m % 4 = 2 -> OpQ("QFTR", Sub(qs, 1, len))
                        [] OTHER -> OpQ("IQFTR", Sub(qs, 1, len))
    [] cls = "set" -> OpK("SetPermutation", <<>>, <<R[2] % 2^n>>)
    [] cls = "nop" -> IF n > 2 /\ m % 5 = 0 THEN OpQ("TrySepN", Sub(qs, 1, 1 + (R[2] % (n-1))))
                      ELSE IF n > 1 /\ m % 5 \in {1,2} THEN OpQ("TrySep2", Sub(qs,1,2))
                      ELSE IF m % 5 = 3 THEN Op0(Pick(<<"Finish","NormalizeState","UpdateRunningNorm","SelfClone","DumpNothing">>, R[2]))
                      ELSE OpQ("TrySep1", <<qs[1]>>)
    [] cls = "sep" -> IF n > 1 /\ m % 2 = 0 THEN OpQ("TrySep2", Sub(qs,1,2)) ELSE OpQ("TrySep1", <<qs[1]>>)
    [] cls = "noise" -> OpK("SetNoise", <<>>, <<Pick(<<1,1,1,0,2>>, m)>>)
    [] cls = "nz" -> \* operations the noise layer handles itself
       LET sh == R[2] % 3  nc == IF n = 1 THEN 0 ELSE 1 + (R[7] % MinI(n-1, 2))
           g1 == <<GenG(R[3],R[4],R[5],sh)>>  c == Sub(qs, 2, nc+1)  md == R[6] % 8
       IN CASE md = 0 -> Op(Pick(<<"Mtrx","Phase","Invert">>, sh), <<qs[1]>>, <<>>, <<>>, g1, <<>>)
            [] md = 1 -> Op(Pick(<<"MCMtrx","MCPhase","MCInvert">>, sh), <<qs[1]>>, c, <<>>, g1, <<>>)
            [] md = 2 -> Op("MACMtrx", <<qs[1]>>, c, <<>>, g1, <<>>)
            [] md = 3 -> IF n < 2 THEN Fallback(qs)
                         ELSE Op(Pick(SW0, m), Sub(qs,1,2), <<>>, <<>>, <<>>,
                                 IF Pick(SW0, m) = "FSim" THEN <<Ang(R[3]), Pick(Angles8, R[4])>> ELSE <<>>)
            [] md = 4 -> IF n < 3 THEN Fallback(qs) ELSE OpCQ(Pick(SWC, m), <<qs[3]>>, Sub(qs,1,2))
            [] md = 5 -> Op("UCSBS", <<qs[1]>>, c, <<0>>, [j \in 1..(2^nc) |-> Named1[Pick(N1C, R[7+j])]], <<>>)
            [] md = 6 -> OpK("XMask", <<>>, <<R[8] % 2^n>>)
            [] OTHER -> Op("PhaseParity", <<>>, <<>>, <<R[8] % 2^n>>, <<>>, <<Ang(R[3])>>)
    [] cls = "selfclone" -> Op0("SelfClone")

MakeMeas(cls, n, p, R, qs) ==
  LET m == R[1]
      len == 1 + (R[2] % n)  st == R[3] % (n - len + 1)
      \* a basis state in the support: the forced outcomes are always possible ones
      w == LET S == SortedSeq({k-1 : k \in {j \in DOMAIN p : p[j] # RZ}}) IN Pick(S, R[4])
      b == Sub(qs, 1, 1 + (R[5] % n))
  IN
  CASE cls = "m" -> OpQ("M", <<qs[1]>>)
    [] cls = "fm" -> OpK("ForceM", <<qs[1]>>, <<Bit(w, qs[1])>>)
    [] cls = "setbit" -> OpK("SetBit", <<qs[1]>>, <<R[2] % 2>>)
    [] cls = "meas" ->
       CASE m % 9 = 0 -> OpK("MReg", <<>>, <<st, len>>)
         [] m % 9 = 1 -> OpQ("MBits", b)
         [] m % 9 = 2 -> OpK("ForceMReg", <<>>, <<st, len, Bits(w, st, len)>>)
         [] m % 9 = 3 -> OpK("ForceMBits", b, <<Gather(b, w)>>)
         [] m % 9 = 4 -> OpK("SetReg", <<>>, <<st, len, R[5] % 2^len>>)
         [] m % 9 = 5 -> OpK("SetBit", <<qs[1]>>, <<R[2] % 2>>)
         [] m % 9 = 6 -> Op0("MAll")
         [] m % 9 = 7 -> OpQ("M", <<qs[1]>>)
         [] OTHER -> OpK("ForceM", <<qs[1]>>, <<Bit(w, qs[1])>>)
    [] cls = "mpar" -> LET mask == R[2] % 2^n IN
                       IF m % 2 = 0 THEN OpK("MParity", <<>>, <<mask>>)
                       ELSE OpK("ForceMParity", <<>>, <<mask, Parity(w & mask)>>)

MakeAlu(cls, n, R, qs, last) ==
  LET m == R[1]
      len == 1 + (R[2] % n)  st == R[3] % (n - len + 1)
      len1 == IF n = 1 THEN 1 ELSE 1 + (R[2] % (n-1))  st1 == R[3] % (n - len1 + 1)   \* leaves one free qubit
      a == R[4] % 2^len1
      aFull == R[4] % 2^len
      fr == FreeQ(n, <<<<st1, len1>>>>, qs)
      ctl(f) == Sub(f, 1, MinI(Len(f), R[5] % 4))
      lh == IF n < 2 THEN 1 ELSE 1 + (R[2] % (n \div 2))
      two == TwoRanges(n, lh, R[6], R[7], R[8])
      fr2 == FreeQ(n, <<<<two[1], lh>>, <<two[2], lh>>>>, qs)
      tab(L, l) == [j \in 1..(2^L) |-> (R[9] * (j*j+3) + R[10] * j + R[11]) % 2^l]
  IN
  CASE cls = "inc" ->
       CASE m % 8 = 0 -> OpK("INC", <<>>, <<aFull, st, len>>)
         [] m % 8 = 1 -> OpK("DEC", <<>>, <<aFull, st, len>>)
         [] m % 8 \in {2,3} -> Op(Pick(<<"CINC","CDEC">>, m), <<>>, ctl(fr), <<a, st1, len1>>, <<>>, <<>>)
         [] m % 8 = 4 -> IF n < 2 THEN Fallback(qs) ELSE OpK(Pick(<<"INCC","DECC">>, R[5]), <<fr[1]>>, <<a, st1, len1>>)
         [] m % 8 = 5 -> IF n < 2 THEN Fallback(qs) ELSE OpK(Pick(<<"INCS","DECS">>, R[5]), <<fr[1]>>, <<a, st1, len1>>)
         [] m % 8 = 6 -> IF n < 2 THEN Fallback(qs) ELSE OpK(Pick(<<"INCSC4","DECSC4">>, R[5]), <<fr[1]>>, <<a, st1, len1>>)
         [] OTHER -> IF Len(fr) < 2 THEN Fallback(qs)
                     ELSE OpK(Pick(<<"INCSC","DECSC">>, R[5]), <<fr[1], fr[2]>>, <<a, st1, len1>>)
    [] cls = "mul" -> IF n < 2 THEN Fallback(qs) ELSE
       LET mu == 1 + (R[4] % (2^lh - (IF lh = 1 THEN 0 ELSE 1)))
           mo == IF MOD2 = "1" /\ m % 4 = 1 THEN 2^(1 + (R[9] % lh)) ELSE 2 + (R[9] % (2^lh - 1))
           c == ctl(fr2)
           C(s) == IF c = <<>> THEN s ELSE "C" \o s
       IN CASE m % 4 = 0 -> Op(C("MUL"), <<>>, c, <<mu, two[1], two[2], lh>>, <<>>, <<>>)
            [] m % 4 = 1 -> Op(C("MULModNOut"), <<>>, c, <<R[4] % 2^(lh+1), mo, two[1], two[2], lh>>, <<>>, <<>>)
            [] m % 4 = 2 -> Op(C("POWModNOut"), <<>>, c, <<1 + (R[4] % 5), mo, two[1], two[2], lh>>, <<>>, <<>>)
            [] OTHER -> Op(C("DIV"), <<>>, c, <<mu, two[1], two[2], lh>>, <<>>, <<>>)
    [] cls = "idx" -> IF n < 2 THEN Fallback(qs) ELSE
       LET li == MinI(lh, 2) IN
       CASE m % 5 = 0 -> OpK("IndexedLDA", <<>>, <<two[1], li, two[2], lh>> \o tab(li, lh))
         [] m % 5 = 1 -> IF fr2 = <<>> THEN Fallback(qs)
                         ELSE OpK("IndexedADC", <<fr2[1]>>, <<two[1], li, two[2], lh>> \o tab(li, lh))
         [] m % 5 = 2 -> IF fr2 = <<>> THEN Fallback(qs)
                         ELSE OpK("IndexedSBC", <<fr2[1]>>, <<two[1], li, two[2], lh>> \o tab(li, lh))
         [] m % 5 = 3 -> LET l3 == MinI(len, 3)
                             h(j) == ((2*(R[9] % 8) + 1) * j + R[10]) % 2^l3     \* a permutation of 0..2^l3-1
                         IN OpK("Hash", <<>>, <<R[3] % (n - l3 + 1), l3>> \o [j \in 1..(2^l3) |-> h(j-1)])
         [] OTHER -> OpK("IndexedLDANoReset", <<>>, <<two[1], li, two[2], lh>> \o tab(li, lh))
    [] cls = "cmp" -> IF m % 2 = 0 \/ n < 2 THEN OpK("PhaseFlipIfLess", <<>>, <<R[4] % (2^len + 1), st, len>>)
                      ELSE OpK("CPhaseFlipIfLess", <<fr[1]>>, <<R[4] % (2^len1 + 1), st1, len1>>)
    [] cls = "logic" -> IF n < 2 THEN Fallback(qs)
         ELSE IF m % 2 = 0 THEN OpK(Pick(<<"CLAND","CLOR","CLXOR","CLNAND","CLNOR","CLXNOR">>, R[2]), Sub(qs,1,2), <<R[3] % 2>>)
         ELSE IF n < 3 THEN Fallback(qs)
         ELSE OpQ(Pick(<<"AND","OR","XOR","NAND","NOR","XNOR">>, R[2]), Sub(qs,1,3))
    [] cls = "fa" -> IF n < 4 THEN Fallback(qs) ELSE
         CASE m % 3 = 0 -> OpQ(Pick(<<"FullAdd","IFullAdd">>, R[2]), Sub(qs,1,4))
           [] m % 3 = 1 -> Op(Pick(<<"CFullAdd","CIFullAdd">>, R[2]), Sub(qs,1,4), Sub(qs,5,MinI(n, 4 + (R[3] % 2))), <<>>, <<>>, <<>>)
           [] OTHER -> \* three ranges of length l in blocks of l, rotated; carry and control outside
                LET l == IF n >= 7 THEN 1 + (R[2] % 2) ELSE 1
                    base == IF R[3] % 2 = 0 THEN 0 ELSE n - 3*l
                    sh == R[5] % 3
                    blk(j) == base + ((j + sh) % 3) * l
                    f3 == FreeQ(n, <<<<base, 3*l>>>>, qs)
                IN IF R[6] % 2 = 0 \/ Len(f3) < 2
                   THEN OpK("ADC", <<>>, <<blk(0), blk(1), blk(2), l, f3[1]>>)
                   ELSE Op("CADC", <<>>, <<f3[2]>>, <<blk(0), blk(1), blk(2), l, f3[1]>>, <<>>, <<>>)
    [] cls = "shift" -> LET l2 == IF n < 2 THEN 1 ELSE 2 + (R[2] % (n-1)) IN
                        IF n < 2 THEN Fallback(qs)
                        ELSE OpK(Pick(<<"ASL","ASR","LSL","LSR">>, m), <<>>, <<R[4] % (l2 + 2), R[3] % (n - l2 + 1), l2>>)
    [] cls = "inv" -> LET o == last.o IN
         CASE o \in {"INC","DEC","CINC","CDEC","MUL","CMUL","MULModNOut","CMULModNOut","POWModNOut","CPOWModNOut",
                     "FullAdd","IFullAdd","CFullAdd","CIFullAdd","ADC","CADC","INCS","DECS","QFT","IQFT","QFTR","IQFTR"} ->
              [last EXCEPT !.o = CASE o = "INC" -> "DEC" [] o = "DEC" -> "INC" [] o = "CINC" -> "CDEC" [] o = "CDEC" -> "CINC"
                 [] o = "MUL" -> "DIV" [] o = "CMUL" -> "CDIV" [] o = "MULModNOut" -> "IMULModNOut"
                 [] o = "CMULModNOut" -> "CIMULModNOut" [] o = "POWModNOut" -> "POWModNOut" [] o = "CPOWModNOut" -> "CPOWModNOut"
                 [] o = "FullAdd" -> "IFullAdd" [] o = "IFullAdd" -> "FullAdd" [] o = "CFullAdd" -> "CIFullAdd"
                 [] o = "CIFullAdd" -> "CFullAdd" [] o = "ADC" -> "IADC" [] o = "CADC" -> "CIADC"
                 [] o = "INCS" -> "DECS" [] o = "DECS" -> "INCS"
                 [] o = "QFT" -> "IQFT" [] o = "IQFT" -> "QFT" [] o = "QFTR" -> "IQFTR" [] o = "IQFTR" -> "QFTR"]
           [] OTHER -> Fallback(qs)

MakeAlloc(cls, n, p, R, qs) ==
  LET m == R[1]  len == 1 + (R[2] % 2)  st == R[3] % (n + 1)
      w == LET S == SortedSeq({k-1 : k \in {j \in DOMAIN p : p[j] # RZ}}) IN Pick(S, R[4])
      dl == IF n = 1 THEN 1 ELSE 1 + (R[2] % (n-1))  ds == R[3] % (n - dl + 1)
  IN
  CASE cls = "alloc" -> IF n + len > NMAX + 2 THEN Fallback(qs)
                       ELSE IF m % 3 = 0 THEN OpK("AllocateEnd", <<>>, <<n, len>>) ELSE OpK("Allocate", <<>>, <<st, len>>)
    [] cls = "disp" -> IF m % 3 = 0 THEN OpK("DisposePerm", <<>>, <<ds, dl, Bits(w, ds, dl)>>)
                       ELSE OpK("Dispose", <<>>, <<ds, dl>>)

-----------------------------------------------------------------------------
(* Queries: [o, q, c, k, g, z] plus the expected values *)
MakeQuery(n, p, R, qs) ==
  LET m == R[1] % 23
      len == 1 + (R[2] % n)  st == R[3] % (n - len + 1)
      mask == R[2] % 2^n
      b == Sub(qs, 1, 1 + (R[5] % n))
      fw == [j \in 1..(2*Len(b)) |-> (R[1 + (j % 11)] + j) % 6]
      Xf(i) == LET RECURSIVE S(_) S(j) == IF j = 0 THEN 0 ELSE fw[2*j-1 + Bit(i, b[j])] + S(j-1) IN S(Len(b))
      pl == [j \in DOMAIN b |-> R[1 + ((j+5) % 11)] % 4]
  IN
  CASE m = 0 -> LET P(i) == Bit(i, qs[1]) = 1 IN [op |-> OpQ("Prob", <<qs[1]>>), v |-> Chance(p, P)]
    [] m = 1 -> LET P(i) == i = mask IN [op |-> OpK("ProbAll", <<>>, <<mask>>), v |-> Chance(p, P)]
    [] m = 2 -> LET x == R[4] % 2^len  P(i) == Bits(i, st, len) = x
                IN [op |-> OpK("ProbReg", <<>>, <<st, len, x>>), v |-> Chance(p, P)]
    [] m = 3 -> LET x == (R[4] % (2^n)) & mask  P(i) == (i & mask) = x
                IN [op |-> OpK("ProbMask", <<>>, <<mask, x>>), v |-> Chance(p, P)]
    [] m = 4 -> LET P(i) == Parity(i & mask) = 1 IN [op |-> OpK("ProbParity", <<>>, <<mask>>), v |-> Chance(p, P)]
    [] m \in {5, 6} ->      \* conditional probabilities; weight of the condition first
                IF n < 2 THEN LET P(i) == Bit(i, qs[1]) = 1 IN [op |-> OpQ("Prob", <<qs[1]>>), v |-> Chance(p, P)]
                ELSE LET bb == IF m = 5 THEN 1 ELSE 0
                         P(i) == Bit(i, qs[1]) = bb
                         Q(i) == Bit(i, qs[1]) = bb /\ Bit(i, qs[2]) = 1
                     IN [op |-> OpCQ(IF m = 5 THEN "CProb" ELSE "ACProb", <<qs[1]>>, <<qs[2]>>), v |-> <<Weight(p, P), Weight(p, Q)>>]
    [] m = 7 -> LET f(i) == Bits(i, st, len) IN [op |-> OpK("ProbRegAll", <<>>, <<st, len>>), v |-> Dist(p, 2^len, f)]
    [] m = 8 -> LET f(i) == Gather(b, i) IN [op |-> OpQ("ProbBitsAll", b), v |-> Dist(p, 2^Len(b), f)]
    [] m = 9 -> LET mq == SelectSeq([j \in 1..n |-> j-1], LAMBDA t : Bit(mask, t) = 1)
                    f(i) == Gather(mq, i) IN [op |-> OpK("ProbMaskAll", <<>>, <<mask>>), v |-> Dist(p, 2^Len(mq), f)]
    [] m = 10 -> LET off == R[4] % 4  x(i) == Gather(b, i) + off
                 IN [op |-> OpK("ExpBits", b, <<off>>), v |-> Moments(p, x)]
    [] m = 11 -> LET off == R[4] % 4  x(i) == Gather(b, i) + off
                 IN [op |-> OpK("VarBits", b, <<off>>), v |-> Moments(p, x)]
    [] m = 12 -> [op |-> OpK("ExpFact", b, fw), v |-> Moments(p, Xf)]
    [] m = 13 -> [op |-> OpK("VarFact", b, fw), v |-> Moments(p, Xf)]
    [] m = 14 -> [op |-> OpK("ExpFloatFact", b, fw), v |-> Moments(p, Xf)]
    [] m = 15 -> [op |-> OpK("VarFloatFact", b, fw), v |-> Moments(p, Xf)]
    [] m = 16 -> [op |-> OpK("ExpPauli", b, pl), v |-> <<Norm2(p), PauliExp(p, b, pl)>>]
    [] m = 17 -> [op |-> OpK("VarPauli", b, pl), v |-> <<Norm2(p), PauliExp(p, b, pl)>>]
    [] m = 18 -> [op |-> OpK("GetAmp", <<>>, <<mask>>), v |-> <<>>]
    [] m = 19 -> [op |-> Op0("GetProbs"), v |-> LET f(i) == i IN Dist(p, 2^n, f)]
    [] m = 20 -> \* expectation of an observable diagonal in a rotated single-qubit basis, per qubit eigenvalues
                 LET g == Named1[Pick(N1C, R[4])]  q == qs[1]
                     pr == ApplyC(p, q, 0, 0, GDag(g))
                     x(i) == fw[1 + Bit(i, q)]
                 IN [op |-> Op(Pick(<<"ExpUnit","VarUnit">>, R[6]), <<q>>, <<>>, <<fw[1], fw[2]>>, <<g>>, <<>>), v |-> Moments(pr, x)]
    [] m = 21 -> \* the same with the basis given by three angles
                 LET z == <<Ang(R[4]), Pick(Angles8, R[5]), Pick(Angles8, R[6])>>
                     g == GU(z[1], z[2], z[3])  q == qs[1]
                     pr == ApplyC(p, q, 0, 0, GDag(g))
                     x(i) == fw[1 + Bit(i, q)]
                 IN [op |-> Op(Pick(<<"ExpU3","VarU3">>, R[7]), <<q>>, <<>>, <<fw[1], fw[2]>>, <<>>, z), v |-> Moments(pr, x)]
    [] OTHER -> LET f(i) == Gather(b, i)
                IN [op |-> OpK("MultiShot", b, <<1 + (R[4] % 12)>>), v |-> Dist(p, 2^Len(b), f)]

-----------------------------------------------------------------------------
(* Invalid calls: must be refused and change nothing.  k/q carry the bad argument. *)
BadQ(n, r) == n + (r % 3)
ExactBasis(n, p, last) == last.o \in {"New","SetPermutation"} /\ Cardinality({k \in DOMAIN p : p[k] # RZ}) = 1
MakeBad(n, p, R, qs, last) ==
  LET m0 == R[1] % 40  bq == BadQ(n, R[2])  ok == qs[1]
      w == (CHOOSE k \in DOMAIN p : p[k] # RZ) - 1
      m == IF ExactBasis(n, p, last) /\ R[11] % 3 > 0 THEN 100 + (m0 % 4) ELSE m0
      st == R[3] % n  len == 1 + (R[4] % (n - st))
      b == Sub(qs, 1, 1 + (R[5] % n))
      v == R[6] % 2^len
      big == n + 1 - st + (R[7] % 2)        \* one or two qubits too long from st
  IN
  CASE m = 100 -> OpK("ForceM", <<ok>>, <<1 - Bit(w, ok)>>)          \* impossible results of forced measurements
    [] m = 101 -> OpK("ForceMReg", <<>>, <<st, len, IF v = Bits(w, st, len) THEN (v + 1) % 2^len ELSE v>>)
    [] m = 102 -> LET x == R[6] % 2^Len(b) IN OpK("ForceMBits", b, <<IF x = Gather(b, w) THEN (x + 1) % 2^Len(b) ELSE x>>)
    [] m = 103 -> LET mk == 1 + (R[6] % (2^n - 1)) IN OpK("ForceMParity", <<>>, <<mk, 1 - Parity(w & mk)>>)
    [] m = 16 -> OpK("SetBit", <<bq>>, <<R[3] % 2>>)
    [] m = 17 -> OpK("SetReg", <<>>, <<st, big, 0>>)
    [] m = 18 -> OpK("ForceMReg", <<>>, <<st, big, 0>>)
    [] m = 19 -> OpQ("MBits", <<ok, bq>>)
    [] m = 20 -> OpK("MParity", <<>>, <<2^bq>>)
    [] m = 21 -> Op("UniformParityRZ", <<>>, <<>>, <<2^bq>>, <<>>, <<Ang(R[3])>>)
    [] m = 22 -> Op("UCSB", <<bq>>, <<ok>>, <<>>, <<GH, GX>>, <<>>)
    [] m = 23 -> Op("UCSB", <<ok>>, <<bq>>, <<>>, <<GH, GX>>, <<>>)
    [] m = 24 -> OpK(Pick(<<"ZMask","YMask">>, R[3]), <<>>, <<2^bq>>)
    [] m = 25 -> OpK("QProb", <<bq>>, <<>>)
    [] m = 26 -> OpK("QProbReg", <<>>, <<st, big, 0>>)
    [] m = 27 -> OpK("QProbMask", <<>>, <<2^bq, 0>>)
    [] m = 28 -> OpK("QGetAmp", <<>>, <<2^bq>>)
    [] m = 29 -> OpK("DEC", <<>>, <<1, st, big>>)
    [] m = 30 -> Op("CINC", <<>>, <<bq>>, <<1, st, 1>>, <<>>, <<>>)
    [] m = 31 -> OpK("Compose0", <<>>, <<n + 1 + (R[3] % 2)>>)
    [] m = 32 -> OpK("Decompose0", <<>>, <<st, big>>)
    [] m = 33 -> OpK("MUL", <<>>, <<3, st, st, big>>)
    [] m = 34 -> OpK("ForceMBitsLen", <<ok>>, <<>>)
    [] m = 35 -> OpK("PhaseFlipIfLess", <<>>, <<1, st, big>>)
    [] m = 36 -> OpQ("QProbBitsAll", <<ok, bq>>)
    [] m = 37 -> OpK("QExpBits", <<ok, bq>>, <<0>>)
    [] m = 38 -> OpK("INCC", <<bq>>, <<1, st, 1>>)
    [] m = 39 -> OpK("QMultiShot", <<bq>>, <<3>>)
    [] m = 0 -> OpQ(Pick(N1, R[3]), <<bq>>)
    [] m = 1 -> OpCQ(Pick(NC1, R[3]), <<bq>>, <<ok>>)
    [] m = 2 -> OpCQ(Pick(NC1, R[3]), <<ok>>, <<bq>>)
    [] m = 3 -> Op("MCMtrx", <<ok>>, <<bq>>, <<>>, <<GH>>, <<>>)
    [] m = 4 -> Op("UCMtrx", <<bq>>, <<ok>>, <<R[3] % 2>>, <<GH>>, <<>>)
    [] m = 5 -> Op("Mtrx", <<bq>>, <<>>, <<>>, <<GH>>, <<>>)
    [] m = 6 -> OpK("ForceM", <<bq>>, <<R[3] % 2>>)
    [] m = 7 -> OpQ("M", <<bq>>)
    [] m = 8 -> OpQ(Pick(<<"Swap","ISwap","SqrtSwap">>, R[3]), <<ok, bq>>)
    [] m = 9 -> OpQ(Pick(<<"Swap","ISwap","SqrtSwap">>, R[3]), <<bq, ok>>)
    [] m = 10 -> OpK("INC", <<>>, <<1 + (R[3] % 3), R[4] % n, n + 1>>)
    [] m = 11 -> OpK("MReg", <<>>, <<R[4] % n, n + 1>>)
    [] m = 12 -> OpK("Dispose", <<>>, <<R[4] % n, n + 1>>)
    [] m = 13 -> OpK("Allocate", <<>>, <<n + 1 + (R[3] % 2), 1>>)
    [] m = 14 /\ Len(qs) > 1 -> OpCQ(Pick(SWC, R[3]), <<bq>>, <<qs[1], qs[Len(qs)]>>)
    [] OTHER -> OpK("XMask", <<>>, <<2^bq>>)

-----------------------------------------------------------------------------
GateCls == {"n1","h","n1c","nc","ncc","cz","t","mt","mtc","mc","mcp","ucs","rot","rt1","root","sw","swc","csw","par","parc",
            "reg","regc","qft","set","nop","sep","selfclone","noise","nz"}
MeasCls == {"m","fm","setbit","meas","mpar"}
AluCls == {"inc","mul","idx","cmp","logic","fa","shift","inv"}
AllocCls == {"alloc","disp"}

RECURSIVE Rep(_, _)
Rep(x, k) == IF k = 0 THEN <<>> ELSE <<x>> \o Rep(x, k-1)
Profiles == [
  gates   |-> <<"n1","n1","h","nc","nc","mt","mc","mc","mcp","ucs","rot","rot","root","sw","csw","par","reg","nop">>,
  unitm   |-> <<"n1","h","h","cz","cz","nc","mcp","mc","sw","mt","m","m","fm","setbit","sep","set","rot","par","swc","root","selfclone">>,
  buffer  |-> <<"h","h","cz","cz","cz","ncc","mcp","n1","swc","m","t","sep","mcp","root">>,
  cliff   |-> <<"n1c","n1c","ncc","ncc","swc","mtc","parc","regc">>,
  cliffm  |-> <<"n1c","n1c","n1c","ncc","ncc","ncc","swc","mtc","m","fm","meas","setbit","parc","regc","sep","selfclone">>,
  nearc   |-> <<"n1c","n1c","ncc","ncc","ncc","t","rt1","swc","m","mtc","cz","setbit","sep">>,
  cliffs  |-> <<"n1c","n1c","ncc","ncc","swc","mtc","alloc","alloc","disp","disp","compose","decomp","decomp","m","clone","sep","new2","setbit">>,
  nearcs  |-> <<"n1c","n1c","ncc","ncc","swc","t","rt1","alloc","disp","disp","compose","decomp","decomp","m","clone","sep","new2","queryc">>,
  cliffq  |-> <<"n1c","n1c","n1c","ncc","ncc","swc","mtc","m","sep","clone","queryc","queryc","queryc","queryc","queryc","queryc">>,
  nearcq  |-> <<"n1c","n1c","n1c","ncc","ncc","swc","t","rt1","m","sep","clone","query","query","query","query","query","query">>,
  tgad    |-> <<"h","h","h","t","t","t","t","ncc","ncc","ncc","m","queryc","n1c">>,
  hybrid  |-> <<"n1c","n1c","ncc","ncc","swc","t","mt","mc","nc","m","meas","rot","sep","selfclone","par","root">>,
  meas    |-> <<"n1","h","nc","mt","m","m","fm","meas","meas","meas","mpar","setbit","query">>,
  alu     |-> <<"h","n1","inc","inc","inc","mul","mul","idx","idx","cmp","logic","logic","fa","fa","shift","inv","inv">>,
  inc     |-> <<"h","n1","inc","inc","inc","cmp","inv","logic","reg">>,
  mul     |-> <<"h","h","h","mul","mul","inv","inv","n1">>,
  adder   |-> <<"h","h","n1","fa","fa","fa","inv","logic","shift">>,
  idx     |-> <<"h","h","n1","idx","idx","setbit">>,
  idxm    |-> <<"h","h","n1","nc","nc","idx","idx","inc","query","m">>,
  struct  |-> <<"n1","h","nc","mc","swc","alloc","alloc","disp","disp","compose","decomp","decomp","m","clone","sep","new2","mt">>,
  clone   |-> <<"n1","h","nc","nc","mt","mc","swc","clone","clone","m","query","query","setbit","selfclone","sep">>,
  query   |-> <<"n1","h","h","nc","mt","rot","cz","m","query","query","query","query","query","query","query">>,
  querym  |-> <<"h","cz","nc","m","query","query","query","query","sep","swc">>,
  qft     |-> <<"n1","h","nc","qft","qft","inv","inv","rot","root","reg","set">>,
  layers  |-> <<"n1","h","h","nc","nc","mcp","mc","cz","m","m","fm","setbit","alloc","clone","query","meas","ncc","set","selfclone">>,
  circ    |-> <<"capp","capp","capp","capp","capp","capp","capp","capp","capp","crun","crun","crun","cinv","ccopy","ctext","ccomb","capd",
                "cplc","cplc","cnew","n1","h","nc","set">>,
  noise   |-> <<"n1","h","n1","nz","nz","nz","nz","nz","noise","qfid","qfid","clone","m","fm","selfclone">>,
  seeds   |-> <<"h","h","h","nc","nc","n1","mt","m","m","meas","shots","shots","query","clone","alloc","compose","new2","inc","idx","swc","rot",
                "setbit","t","mc">>,
  seedc   |-> <<"n1c","n1c","n1c","ncc","ncc","swc","m","m","meas","shots","shots","queryc","clone","alloc","compose","new2","setbit">>,
  seedt   |-> <<"n1","h","h","nc","nc","mcp","cz","m","m","setbit","alloc","clone","shots","meas","ncc">>,
  seedn   |-> <<"n1","h","nz","nz","nz","nz","noise","m","shots","clone">>,
  rot     |-> <<"n1","rot","rot","root","mt","rt1","h","nc">>,
  bad     |-> <<"n1","h","nc","mt","bad","bad","bad","m","set","meas">> ]
Cls == Profiles[PROFILE]

Rec(r, op, a, j, ph) == [r |-> r, op |-> op, alts |-> a, j |-> j - 1, ph |-> ph]
SmallOuts(a) == \A j \in DOMAIN a : MaxCoef(a[j].p) <= CoefLim
QBig(p) == MaxCoef(p) > QueryLim \/ LET w == Norm2(p) IN w[1] > 1000000
NoTodo == [r |-> -1, op |-> Op0("none")]

LiveSlots == {r \in Slots : Live(r)}

GInit == /\ regs = [s \in Slots |-> Dead]
         /\ hist = <<>> /\ depth = 0 /\ todo = NoTodo /\ circs = [s \in CSlots |-> NoCirc]

First == /\ depth = 0
         /\ \E n \in {RandomElement(NMIN..NMAX)} : \E pm \in {RandomElement(0..(2^n-1))} :
              /\ New(0, n, pm)
              /\ hist' = <<[r |-> 0, op |-> OpK("New", <<>>, <<n, pm>>), alts |-> <<Alt(-1, n, Basis(n, pm))>>, j |-> 0, ph |-> TRUE]>>
         /\ depth' = 1 /\ UNCHANGED <<todo, circs>>

LastOp(r) == LET S == {k \in DOMAIN hist : hist[k].r = r} IN
             IF S = {} THEN Op0("none") ELSE hist[CHOOSE k \in S : \A l \in S : l <= k].op

\* an operation which needs a cleared register: clear it first, and remember what was to be done
DoOp(r, op, J) ==
  LET g == regs[r]
      en == Enabled(op, g.n, g.p)
      clr == ~en /\ op.o \in ZeroOps
      z == ZeroReq(op)
      opc == OpK("SetReg", <<>>, <<z[1], z[2], 0>>)
      opx == IF clr THEN TLCEval(opc) ELSE op
      a == IF en \/ clr THEN TLCEval(OutsR(opx, g)) ELSE <<>>
      good == a # <<>> /\ SmallOuts(a)
      op2 == IF good THEN opx ELSE OpQ("X", <<0>>)
      a2 == IF good THEN a ELSE TLCEval(OutsR(op2, g))
      j == 1 + (J % Len(a2))
  IN /\ DoAlt(r, op2, a2, j)
     /\ hist' = Append(hist, Rec(r, op2, a2, j, regs'[r].ph))
     /\ todo' = IF good /\ clr /\ DEPTH > depth + 2 THEN [r |-> r, op |-> op] ELSE NoTodo

Skip == UNCHANGED <<regs, hist, todo>>

StepCls(cls, r, R, qs) ==
  LET g == regs[r]  n == g.n  p == g.p  s == 1 - r IN
  CASE cls \in GateCls -> DoOp(r, TLCEval(MakeGate(cls, n, R, qs)), R[12])
    [] cls \in MeasCls -> DoOp(r, TLCEval(MakeMeas(cls, n, p, R, qs)), R[12])
    [] cls \in AluCls -> DoOp(r, TLCEval(MakeAlu(cls, n, R, qs, LastOp(r))), R[12])
    [] cls \in AllocCls -> DoOp(r, TLCEval(MakeAlloc(cls, n, p, R, qs)), R[12])
    [] cls \in {"query","queryc","shots"} ->      \* queryc: Clifford measurement bases only
                        IF QBig(p) THEN Skip
                        ELSE /\ UNCHANGED <<regs, todo>>
                             /\ LET x == TLCEval(MakeQuery(n, p, IF cls = "shots" THEN [R EXCEPT ![1] = 22] ELSE IF cls = "queryc" /\ R[1] % 23 = 21 THEN [R EXCEPT ![1] = 20] ELSE R, qs)) IN
                                hist' = Append(hist, [r |-> r, op |-> [x.op EXCEPT !.o = "Q" \o @], vals |-> x.v])
    [] cls = "qfid" -> /\ UNCHANGED <<regs, todo>>   \* GetUnitaryFidelity = product of (1 - lambda) over the channels
                       /\ hist' = Append(hist, [r |-> r, op |-> Op0("QFidelity"), vals |-> <<<<g.nch, 0>>, <<g.nfull, 0>>>>])
    [] cls = "clone" -> IF Cardinality(Slots) < 2 THEN Skip
                        ELSE /\ Clone(r, s) /\ UNCHANGED todo
                             /\ hist' = Append(hist, [r |-> r, op |-> OpK("Clone", <<>>, <<s>>)])
    [] cls = "new2" -> IF Cardinality(Slots) < 2 THEN Skip
                       ELSE LET m == 1 + (R[2] % 2)  pm == R[3] % 2^m IN
                            /\ New(s, m, pm) /\ UNCHANGED todo
                            /\ hist' = Append(hist, [r |-> s, op |-> OpK("New", <<>>, <<m, pm>>), ph |-> TRUE,
                                                     alts |-> <<Alt(-1, m, Basis(m, pm))>>, j |-> 0])
    [] cls = "compose" -> IF s \in Slots /\ Live(s) /\ regs[s].n + n <= MinI(MaxN, NMAX + 2) /\ MaxCoef(p) * MaxCoef(regs[s].p) <= CoefLim
                          THEN LET at == R[2] % (n+1) IN
                               /\ Compose(r, s, at) /\ UNCHANGED todo
                               /\ hist' = Append(hist, [r |-> r, op |-> OpK("Compose", <<>>, <<s, at>>), ph |-> regs'[r].ph,
                                            alts |-> <<Alt(-1, regs'[r].n, regs'[r].p)>>, j |-> 0])
                          ELSE Skip
    [] cls = "decomp" -> LET len == IF n = 1 THEN 1 ELSE 1 + (R[2] % (n-1))
                             ok(st) == len < n /\ Separable(p, n, st, len)
                             cand == SortedSeq({st \in 0..(n-len) : ok(st)})
                         IN IF Cardinality(Slots) > 1 /\ cand # <<>>
                            THEN LET st == Pick(cand, R[3]) IN
                                 /\ Decompose(r, s, st, len) /\ UNCHANGED todo
                                 /\ hist' = Append(hist, [r |-> r, op |-> OpK("Decompose", <<>>, <<s, st, len>>), ph |-> FALSE,
                                       alts |-> <<Alt(-1, regs'[r].n, regs'[r].p)>>, alts2 |-> <<Alt(-1, len, regs'[s].p)>>, j |-> 0])
                            ELSE Skip
    [] cls = "bad" -> /\ Refuse(r) /\ UNCHANGED todo
                      /\ hist' = Append(hist, [r |-> r, op |-> MakeBad(n, p, R, qs, LastOp(r)), bad |-> TRUE])

\* circuit objects: gates over the first NMAX qubits, whatever the width of the registers
CircCls == {"cnew","capp","crun","cinv","ccopy","ctext","ccomb","capd","cplc"}
IsScalar(g) == g.m[2] = RZ /\ g.m[3] = RZ /\ g.m[1] = g.m[4]
IdLike(op) == op.g # <<>> /\ \A j \in DOMAIN op.g : IsScalar(op.g[j])
MakeCGate(R, qs) ==
  LET n == Len(qs)  m == R[1] % 10
      nc == IF n = 1 THEN 0 ELSE 1 + (R[2] % MinI(n-1, 2))
      c == SortedSeq({qs[1+j] : j \in 1..nc})
      sh == Pick(<<0,1,2,1,2>>, R[3])
      g(j) == IF R[4] % 5 = 0 THEN GenG(R[5]+j, R[6]+2*j, R[7]+j, sh)
              ELSE CASE sh = 0 -> Named1[Pick(N1C, R[5]+j)]
                     [] sh = 1 -> Named1[Pick(<<"Z","S","T","IS","IT","Z">>, R[5]+j)]
                     [] OTHER -> GMul(Named1[Pick(<<"Z","S","X","IS","Y","T">>, R[6]+j)], GX)
      x == OpQ("Mtrx", <<qs[1]>>)
      op == CASE m \in 0..2 \/ n = 1 -> [x EXCEPT !.g = <<g(0)>>]
              [] m \in 3..5 -> Op("UCMtrx", <<qs[1]>>, c, <<IF R[8] % 3 > 0 THEN 2^nc - 1 ELSE R[9] % 2^nc>>, <<g(0)>>, <<>>)
              [] m = 6 -> \* several payloads, absent ones are the identity; k: the keys present
                          LET ks == 1 + (R[8] % (2^(2^nc) - 1)) IN
                          Op("UCSB", <<qs[1]>>, c, SortedSeq({y \in 0..(2^nc - 1) : Bit(ks, y) = 1}),
                             [j \in 1..(2^nc) |-> IF Bit(ks, j-1) = 1 THEN g(j) ELSE GI], <<>>)
              [] m = 7 -> Op("UCMtrx", <<qs[1]>>, <<qs[2]>>, <<1>>, <<GX>>, <<>>)
              [] m = 8 -> OpK("Swap", Sub(qs, 1, 2), <<R[8] % 2>>)
              [] OTHER -> LET len == 1 + (R[2] % n)  st == R[3] % (n - len + 1)
                          IN OpK("INC", <<>>, <<1 + (R[4] % (2^len - 1)), st, len>>)
  IN IF IdLike(op) THEN [x EXCEPT !.g = <<GX>>] ELSE op
CRec(o, r, k, more) == [r |-> r, op |-> OpK(o, <<>>, k)] @@ more
CircStep(cls, r, R) ==
  LET c == R[10] % 2  d == 1 - c  g == circs[c].g  n == regs[r].n  p == regs[r].p
  IN /\ UNCHANGED todo
     /\ CASE cls = "cnew" \/ ~CLive(c) -> CNew(c) /\ hist' = Append(hist, CRec("CNew", r, <<c, R[2] % 3, R[3] % 2>>, <<>>))
          [] cls = "capp" /\ Len(g) < 20 ->
                \E qs \in {RandPerm(MinI(NMAX, 1 + (R[11] % 4)))} : \E op \in {TLCEval(MakeCGate(R, qs))} :
                CAppendGate(c, op) /\ hist' = Append(hist, [r |-> r, op |-> [op EXCEPT !.o = "C" \o @, !.z = <<>>], cs |-> c])
          [] cls = "ccopy" -> CCopy(c, d) /\ hist' = Append(hist, CRec("CClone", r, <<c, d>>, <<>>))
          [] cls = "ctext" -> CCopy(c, d) /\ hist' = Append(hist, CRec("CText", r, <<c, d>>, <<>>))
          [] cls = "cinv" -> LET e == IF R[2] % 3 = 0 THEN c ELSE d IN
                             CInvert(c, e) /\ hist' = Append(hist, CRec("CInv", r, <<c, e>>, <<>>))
          [] cls \in {"ccomb","capd"} /\ CLive(d) /\ Len(g) + Len(circs[d].g) <= 20 ->
                CJoin(c, d) /\ hist' = Append(hist, CRec(IF cls = "ccomb" THEN "CCombine" ELSE "CAppend", r, <<c, d>>, <<>>))
          [] cls = "crun" -> \E x \in {TLCEval(RunCirc(g, n, p))} :
                IF MaxCoef(x.p) > CoefLim THEN UNCHANGED <<regs, circs, hist>>
                ELSE /\ regs' = [regs EXCEPT ![r] = With(@, x.n, x.p, FALSE)] /\ UNCHANGED circs
                     /\ hist' = Append(hist, CRec("CRun", r, <<c>>, [alts |-> <<Alt(-1, x.n, x.p)>>, j |-> 0, ph |-> FALSE]))
          [] cls = "cplc" /\ Width(g) <= n ->    \* running only the past light cone leaves the reduced state of these qubits right
                \E x \in {TLCEval(RunCirc(g, n, p))} :
                /\ UNCHANGED <<regs, circs>>
                /\ hist' = IF MaxCoef(x.p) > CoefLim THEN hist ELSE Append(hist, CRec("CPlc", r, <<c, 1 + (R[2] % (2^n - 1))>>, [alts |-> <<Alt(-1, n, x.p)>>]))
          [] OTHER -> UNCHANGED <<regs, circs, hist>>

Step == /\ depth > 0 /\ depth < DEPTH
        /\ IF todo.r >= 0 THEN DoOp(todo.r, todo.op, depth) /\ UNCHANGED circs
           ELSE \E cls \in {RandomElement(0..239)} : \E r \in {RandomElement(LiveSlots)} :
                \E R \in {TLCEval([j \in 1..12 |-> RandomElement(0..239)])} :
                \E qs \in {RandPerm(regs[r].n)} :
                   IF Pick(Cls, cls) \in CircCls THEN CircStep(Pick(Cls, cls), r, R)
                   ELSE StepCls(Pick(Cls, cls), r, R, qs) /\ UNCHANGED circs
        /\ depth' = depth + 1

Emit == /\ depth = DEPTH
        /\ PrintT(ToJson([steps |-> hist]))
        /\ depth' = DEPTH + 1 /\ UNCHANGED <<regs, hist, todo, circs>>

GNext == First \/ Step \/ Emit
GSpec == GInit /\ [][GNext]_<<regs, circs, hist, depth, todo>>
=============================================================================
