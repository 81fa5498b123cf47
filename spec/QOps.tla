-------------------------------- MODULE QOps --------------------------------
(***************************************************************************)
(* The documented meaning of the gate-like public operations: Eff(op,n,p)  *)
(* is the state of an n-qubit register in state p after op.                *)
(*                                                                         *)
(* An operation is a record                                                *)
(*   [o |-> name, q |-> qubits, c |-> controls, k |-> classical integers,  *)
(*    g |-> 2x2 operators, z |-> angles]                                   *)
(* An operator is [m |-> <<m00,m01,m10,m11>>, s |-> positive real scale];  *)
(* an angle is a unit complex number [e |-> ring element, s |-> |e|].      *)
(***************************************************************************)
EXTENDS QState

Op(o, q, c, k, g, z) == [o |-> o, q |-> q, c |-> c, k |-> k, g |-> g, z |-> z]
Op0(o) == Op(o, <<>>, <<>>, <<>>, <<>>, <<>>)
OpQ(o, q) == Op(o, q, <<>>, <<>>, <<>>, <<>>)
OpK(o, q, k) == Op(o, q, <<>>, k, <<>>, <<>>)
OpCQ(o, c, q) == Op(o, q, c, <<>>, <<>>, <<>>)

G(m, s) == [m |-> m, s |-> s]
RedG(g) == LET r == Reduce(<<g.m[1], g.m[2], g.m[3], g.m[4], g.s>>) IN G(<<r[1],r[2],r[3],r[4]>>, r[5])
GMul(a, b) ==     \* a after b
  RedG(G(<< RAdd(RMul(a.m[1],b.m[1]), RMul(a.m[2],b.m[3])), RAdd(RMul(a.m[1],b.m[2]), RMul(a.m[2],b.m[4])),
            RAdd(RMul(a.m[3],b.m[1]), RMul(a.m[4],b.m[3])), RAdd(RMul(a.m[3],b.m[2]), RMul(a.m[4],b.m[4])) >>,
         RMul(a.s, b.s)))
GDag(a) == G(<<RConj(a.m[1]), RConj(a.m[3]), RConj(a.m[2]), RConj(a.m[4])>>, a.s)
GDiag(x, y) == G(<<x, RZ, RZ, y>>, ROne)
GAnti(x, y) == G(<<RZ, x, y, RZ>>, ROne)
IsDiagG(g) == g.m[2] = RZ /\ g.m[3] = RZ
IsAntiG(g) == g.m[1] = RZ /\ g.m[4] = RZ

RNegW == RPow(5)
GI == GDiag(ROne, ROne)
GX == GAnti(ROne, ROne)
GY == GAnti(RNegI, RI)
GZ == GDiag(ROne, RNeg1)
GS == GDiag(ROne, RI)
GIS == GDiag(ROne, RNegI)
GT == GDiag(ROne, RW)
GIT == GDiag(ROne, RPow(7))
GH == G(<<ROne, ROne, ROne, RNeg1>>, RS2)
R1pI == <<1,0,1,0>>
R1mI == <<1,0,-1,0>>
GSqrtX == G(<<R1pI, R1mI, R1mI, R1pI>>, RInt(2))
GSqrtY == G(<<R1pI, RNeg(R1pI), R1pI, R1pI>>, RInt(2))
GSqrtW == G(<<RS2, RNeg(R1pI), R1mI, RS2>>, RInt(2))
GSH == G(<<ROne, ROne, RI, RNegI>>, RS2)
GHIS == G(<<ROne, RNegI, ROne, RI>>, RS2)
\* ((1+sqrt2) + i(sqrt2-1)) / (2 sqrt2), (1-i)/(2 sqrt2), ...
SqrtHm00 == RAdd(RAdd(ROne, RS2), RMul(RI, RSub(RS2, ROne)))
SqrtHm11 == RAdd(RSub(RS2, ROne), RMul(RI, RAdd(ROne, RS2)))
GSqrtHx == G(<<SqrtHm00, R1mI, R1mI, SqrtHm11>>, RMul(RInt(2), RS2))

Named1 == [ X |-> GX, Y |-> GY, Z |-> GZ, H |-> GH, S |-> GS, IS |-> GIS, T |-> GT, IT |-> GIT,
            SqrtX |-> GSqrtX, ISqrtX |-> GDag(GSqrtX), SqrtY |-> GSqrtY, ISqrtY |-> GDag(GSqrtY),
            SqrtW |-> GSqrtW, ISqrtW |-> GDag(GSqrtW), SH |-> GSH, HIS |-> GHIS, SqrtH |-> GSqrtHx ]
Named1Names == DOMAIN Named1
Clifford1 == {"X","Y","Z","H","S","IS","SqrtX","ISqrtX","SqrtY","ISqrtY","SH","HIS"}

\* named controlled gates: base gate, TRUE = controlled on |0>
NamedC == [ CNOT |-> <<"X",FALSE>>, AntiCNOT |-> <<"X",TRUE>>, CY |-> <<"Y",FALSE>>, AntiCY |-> <<"Y",TRUE>>,
            CZ |-> <<"Z",FALSE>>, AntiCZ |-> <<"Z",TRUE>>, CCNOT |-> <<"X",FALSE>>, AntiCCNOT |-> <<"X",TRUE>>,
            CCY |-> <<"Y",FALSE>>, AntiCCY |-> <<"Y",TRUE>>, CCZ |-> <<"Z",FALSE>>, AntiCCZ |-> <<"Z",TRUE>>,
            CH |-> <<"H",FALSE>>, AntiCH |-> <<"H",TRUE>>, CS |-> <<"S",FALSE>>, AntiCS |-> <<"S",TRUE>>,
            CIS |-> <<"IS",FALSE>>, AntiCIS |-> <<"IS",TRUE>>, CT |-> <<"T",FALSE>>, CIT |-> <<"IT",FALSE>> ]
NamedC1 == {"CNOT","AntiCNOT","CY","AntiCY","CZ","AntiCZ","CH","AntiCH","CS","AntiCS","CIS","AntiCIS","CT","CIT"}
NamedC2 == {"CCNOT","AntiCCNOT","CCY","AntiCCY","CCZ","AntiCCZ"}
CliffordC == {"CNOT","AntiCNOT","CY","AntiCY","CZ","AntiCZ"}

\* rotations; the angle is given by its half-angle phase
Z2Cos(z) == RAdd(z.e, RConj(z.e))               \* 2 s cos
Z2Sin(z) == RImag2(z.e)                         \* 2 s sin
GRX(z) == RedG(G(<<Z2Cos(z), RSub(RConj(z.e), z.e), RSub(RConj(z.e), z.e), Z2Cos(z)>>, RMul(RInt(2), z.s)))
GRY(z) == RedG(G(<<Z2Cos(z), RNeg(Z2Sin(z)), Z2Sin(z), Z2Cos(z)>>, RMul(RInt(2), z.s)))
GRZ(z) == G(<<RConj(z.e), RZ, RZ, z.e>>, z.s)
GRT(z) == G(<<z.s, RZ, RZ, z.e>>, z.s)
GU(t, f, l) == RedG(G(<< RMul(Z2Cos(t), RMul(f.s, l.s)), RNeg(RMul(Z2Sin(t), RMul(l.e, f.s))),
                         RMul(Z2Sin(t), RMul(f.e, l.s)), RMul(Z2Cos(t), RMul(f.e, l.e)) >>,
                      RMul(RMul(RInt(2), t.s), RMul(f.s, l.s))))
GAI(a, i) == RedG(G(<<RMul(Z2Cos(i), a.s), RNeg(RMul(RConj(a.e), Z2Sin(i))), RMul(a.e, Z2Sin(i)), RMul(Z2Cos(i), a.s)>>,
                    RMul(RInt(2), RMul(a.s, i.s))))
ZQuarter == [e |-> RW, s |-> ROne]              \* pi/4 as half angle: theta = pi/2
ZNegC(z) == [e |-> RNeg(RConj(z.e)), s |-> z.s] \* angle pi - x   (= -x - pi = -x + pi)

\* documented: a phase of -2 pi / 2^n on |1>
RootN(n) == CASE n = 0 -> GI [] n = 1 -> GZ [] n = 2 -> GIS [] n = 3 -> GIT
IRootN(n) == GDag(RootN(n))

(* controls *)
PCtl(psi, t, c, perm, g) == ApplyC(psi, t, MaskOf(c), Scatter(c, perm), g)
Ones(c) == 2^Len(c) - 1

\* matrices with rows/columns in the order q1 + 2*q2
M4(a,b,c,d) == <<a,b,c,d>>
SwapM == <<<<ROne,RZ,RZ,RZ>>, <<RZ,RZ,ROne,RZ>>, <<RZ,ROne,RZ,RZ>>, <<RZ,RZ,RZ,ROne>>>>
BlockM(a, x, y, b, d00, d11) == << <<d00,RZ,RZ,RZ>>, <<RZ,a,x,RZ>>, <<RZ,y,b,RZ>>, <<RZ,RZ,RZ,d11>> >>
ISwapM == BlockM(RZ, RI, RI, RZ, ROne, ROne)
IISwapM == BlockM(RZ, RNegI, RNegI, RZ, ROne, ROne)
SqrtSwapM == BlockM(R1pI, R1mI, R1mI, R1pI, RInt(2), RInt(2))        \* scale 2
ISqrtSwapM == BlockM(R1mI, R1pI, R1pI, R1mI, RInt(2), RInt(2))       \* scale 2
FSimM(t, f) == LET c == RMul(Z2Cos(t), f.s)
                   x == RMul(RSub(RConj(t.e), t.e), f.s)             \* -i sin
                   s2 == RMul(RInt(2), RMul(t.s, f.s))
               IN BlockM(c, x, x, c, s2, RMul(RMul(RInt(2), t.s), RConj(f.e)))
FSimS(t, f) == RMul(RInt(2), RMul(t.s, f.s))
TwoQ(op) == CASE op.o \in {"Swap","CSwap","AntiCSwap"} -> [m |-> SwapM, s |-> ROne]
              [] op.o = "ISwap" -> [m |-> ISwapM, s |-> ROne]
              [] op.o = "IISwap" -> [m |-> IISwapM, s |-> ROne]
              [] op.o \in {"SqrtSwap","CSqrtSwap","AntiCSqrtSwap"} -> [m |-> SqrtSwapM, s |-> RInt(2)]
              [] op.o \in {"ISqrtSwap","CISqrtSwap","AntiCISqrtSwap"} -> [m |-> ISqrtSwapM, s |-> RInt(2)]
              [] op.o = "FSim" -> [m |-> FSimM(op.z[1], op.z[2]), s |-> FSimS(op.z[1], op.z[2])]
Swaps0 == {"Swap","ISwap","IISwap","SqrtSwap","ISqrtSwap"}
SwapsC == {"CSwap","CSqrtSwap","CISqrtSwap"}
SwapsA == {"AntiCSwap","AntiCSqrtSwap","AntiCISqrtSwap"}

SwapBits(i, a, b) == IF Bit(i,a) = Bit(i,b) THEN i
                     ELSE IF Bit(i,a) = 1 THEN i - 2^a + 2^b ELSE i - 2^b + 2^a
RECURSIVE RevBits(_,_,_)      \* reverse bits first..last-1
RevBits(i, first, last) == IF last - first < 2 THEN i ELSE RevBits(SwapBits(i, first, last-1), first+1, last-1)
RotL(v, sh, len) == LET s == sh % len IN ((v * 2^s) % 2^len) + (v \div 2^(len-s))

(* Quantum Fourier transform on the list qs (qs[1] the least significant qubit), as the   *)
(* circuit convention of the interface: output qubit order is bit-reversed, i.e. no final *)
(* swap.  |v> -> sum_w exp(-2 pi i v w / 2^L) |reverse(w)>; L <= 3 stays in the ring.      *)
RECURSIVE RevVal(_, _)
RevVal(v, L) == IF L = 0 THEN 0 ELSE (v % 2) * 2^(L-1) + RevVal(v \div 2, L-1)
QFTOn(p, qs, sgn) ==
  LET L == Len(qs)  D == 2^L  m == MaskOf(qs)
      RECURSIVE S(_, _, _)
      \* forward: amplitude of output v' = sum_v w^(-v * rev(v')) psi_v ; inverse: roles of rev exchanged
      ex(out, in) == IF sgn = 1 THEN -(in * RevVal(out, L)) ELSE RevVal(in, L) * out
      S(base, out, in) == IF in = D THEN RZ
                          ELSE RAdd(RMul(RPow((8 \div D) * (ex(out, in) % D)), p[base + Scatter(qs, in) + 1]), S(base, out, in+1))
  IN IF L = 0 THEN p
     ELSE Reduce([k \in DOMAIN p |-> LET i == k-1 IN S(i - (i & m), Gather(qs, i), 0)])
RECURSIVE SeqEff(_, _, _)

Eff(op, n, p) ==
  LET o == op.o  q == op.q  c == op.c  k == op.k IN
  CASE o \in Named1Names -> ApplyC(p, q[1], 0, 0, Named1[o])
    [] o \in NamedC1 \cup NamedC2 -> PCtl(p, q[1], c, IF NamedC[o][2] THEN 0 ELSE Ones(c), Named1[NamedC[o][1]])
    [] o = "Mtrx" -> ApplyC(p, q[1], 0, 0, op.g[1])
    [] o \in {"Phase","Invert"} -> ApplyC(p, q[1], 0, 0, op.g[1])
    [] o \in {"MCMtrx","MCPhase","MCInvert"} -> PCtl(p, q[1], c, Ones(c), op.g[1])
    [] o \in {"MACMtrx","MACPhase","MACInvert"} -> PCtl(p, q[1], c, 0, op.g[1])
    [] o \in {"UCMtrx","UCPhase","UCInvert"} -> PCtl(p, q[1], c, k[1], op.g[1])
    [] o = "UCSB" -> ApplyUC(p, q[1], c, op.g)
    \* k = <<value mask, skipped index bits>>; the table index is the control value pushed apart, or-ed with the mask
    [] o = "UCSBS" -> LET ix(v) == LET RECURSIVE Push(_, _)
                                       Push(x, sk) == IF sk = <<>> THEN x
                                                      ELSE Push((x % 2^Head(sk)) + (x \div 2^Head(sk)) * 2^(Head(sk)+1), Tail(sk))
                                   IN Push(v, Tail(k)) | k[1]
                      IN ApplyUC(p, q[1], c, [v \in 1..(2^Len(c)) |-> op.g[ix(v-1) + 1]])
    [] o = "UCRY" -> ApplyUC(p, q[1], c, [j \in DOMAIN op.z |-> GRY(op.z[j])])
    [] o = "UCRZ" -> ApplyUC(p, q[1], c, [j \in DOMAIN op.z |-> GRZ(op.z[j])])
    [] o = "RT" -> ApplyC(p, q[1], 0, 0, GRT(op.z[1]))
    [] o = "RX" -> ApplyC(p, q[1], 0, 0, GRX(op.z[1]))
    [] o = "RY" -> ApplyC(p, q[1], 0, 0, GRY(op.z[1]))
    [] o = "RZ" -> ApplyC(p, q[1], 0, 0, GRZ(op.z[1]))
    [] o = "CRY" -> PCtl(p, q[1], c, 1, GRY(op.z[1]))
    [] o = "CRZ" -> PCtl(p, q[1], c, 1, GRZ(op.z[1]))
    [] o = "U" -> ApplyC(p, q[1], 0, 0, GU(op.z[1], op.z[2], op.z[3]))
    [] o = "U2" -> ApplyC(p, q[1], 0, 0, GU(ZQuarter, op.z[1], op.z[2]))
    [] o = "IU2" -> ApplyC(p, q[1], 0, 0, GU(ZQuarter, ZNegC(op.z[2]), ZNegC(op.z[1])))
    [] o = "CU" -> PCtl(p, q[1], c, Ones(c), GU(op.z[1], op.z[2], op.z[3]))
    [] o = "AntiCU" -> PCtl(p, q[1], c, 0, GU(op.z[1], op.z[2], op.z[3]))
    [] o = "AI" -> ApplyC(p, q[1], 0, 0, GAI(op.z[1], op.z[2]))
    [] o = "IAI" -> ApplyC(p, q[1], 0, 0, GDag(GAI(op.z[1], op.z[2])))
    [] o = "CAI" -> PCtl(p, q[1], c, 1, GAI(op.z[1], op.z[2]))
    [] o = "AntiCAI" -> PCtl(p, q[1], c, 0, GAI(op.z[1], op.z[2]))
    [] o = "CIAI" -> PCtl(p, q[1], c, 1, GDag(GAI(op.z[1], op.z[2])))
    [] o = "AntiCIAI" -> PCtl(p, q[1], c, 0, GDag(GAI(op.z[1], op.z[2])))
    [] o = "PhaseRootN" -> ApplyC(p, q[1], 0, 0, RootN(k[1]))
    [] o = "IPhaseRootN" -> ApplyC(p, q[1], 0, 0, IRootN(k[1]))
    [] o = "CPhaseRootN" -> PCtl(p, q[1], c, 1, RootN(k[1]))
    [] o = "AntiCPhaseRootN" -> PCtl(p, q[1], c, 0, RootN(k[1]))
    [] o = "CIPhaseRootN" -> PCtl(p, q[1], c, 1, IRootN(k[1]))
    [] o = "AntiCIPhaseRootN" -> PCtl(p, q[1], c, 0, IRootN(k[1]))
    [] o \in Swaps0 \cup {"FSim"} -> Apply2(p, q[1], q[2], 0, 0, TwoQ(op).m, TwoQ(op).s)
    [] o \in SwapsC -> Apply2(p, q[1], q[2], MaskOf(c), MaskOf(c), TwoQ(op).m, TwoQ(op).s)
    [] o \in SwapsA -> Apply2(p, q[1], q[2], MaskOf(c), 0, TwoQ(op).m, TwoQ(op).s)
    [] o = "XMask" -> LET f(i) == i ^^ k[1] IN Perm(p, f)
    [] o = "ZMask" -> LET f(i) == IF Parity(i & k[1]) = 1 THEN RNeg1 ELSE ROne IN Diag(p, f)
    [] o = "YMask" -> LET f(i) == i ^^ k[1]      \* Y|0> = i|1>, Y|1> = -i|0>
                          h(i) == RPow(2 * (PopCount(k[1]) - 2 * PopCount(i & k[1])))
                      IN PermPh(p, f, h)
    [] o = "XReg" -> LET m == (2^k[2] - 1) * 2^k[1]  f(i) == i ^^ m IN Perm(p, f)
    [] o = "HReg" -> SeqEff([j \in 1..k[2] |-> OpQ("H", <<k[1] + j - 1>>)], n, p)
    [] o = "PhaseRootNMask" -> LET h(i) == RPow(-(PopCount(i & k[2]) * (CASE k[1]=0 -> 0 [] k[1]=1 -> 4 [] k[1]=2 -> 2 [] k[1]=3 -> 1)))
                               IN Diag(p, h)
    [] o = "PhaseParity" -> LET z == op.z[1]    \* half angle: even parity e^-, odd e^+
                                h(i) == IF Parity(i & k[1]) = 1 THEN z.e ELSE RConj(z.e)
                            IN IF k[1] = 0 THEN p ELSE DiagS(p, h)
    [] o = "UniformParityRZ" -> LET z == op.z[1]    \* angle itself
                                    h(i) == IF Parity(i & k[1]) = 1 THEN z.e ELSE RConj(z.e)
                            IN DiagS(p, h)
    [] o = "CUniformParityRZ" -> LET z == op.z[1]
                                     h(i) == IF (i & MaskOf(c)) # MaskOf(c) THEN z.s
                                             ELSE IF Parity(i & k[1]) = 1 THEN z.e ELSE RConj(z.e)
                            IN DiagS(p, h)
    [] o = "ZeroPhaseFlip" -> LET h(i) == IF Bits(i, k[1], k[2]) = 0 THEN RNeg1 ELSE ROne
                              IN IF k[2] = 0 THEN p ELSE Diag(p, h)
    [] o = "PhaseFlip" -> LET h(i) == RNeg1 IN Diag(p, h)
    [] o = "Reverse" -> LET f(i) == RevBits(i, k[1], k[2]) IN Perm(p, f)
    [] o = "ROL" -> LET f(i) == SetBits(i, k[2], k[3], RotL(Bits(i, k[2], k[3]), k[1], k[3])) IN Perm(p, f)
    [] o = "ROR" -> LET f(i) == SetBits(i, k[2], k[3], RotL(Bits(i, k[2], k[3]), (k[3] - (k[1] % k[3])), k[3])) IN Perm(p, f)
    [] o = "QFT" -> QFTOn(p, [j \in 1..k[2] |-> k[1] + j - 1], 1)
    [] o = "IQFT" -> QFTOn(p, [j \in 1..k[2] |-> k[1] + j - 1], -1)
    [] o = "QFTR" -> QFTOn(p, q, 1)
    [] o = "IQFTR" -> QFTOn(p, q, -1)
    [] o = "SetPermutation" -> Basis(n, k[1])
SeqEff(ops, n, p) == IF ops = <<>> THEN p ELSE SeqEff(Tail(ops), n, Eff(Head(ops), n, p))
=============================================================================
