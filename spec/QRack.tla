------------------------------- MODULE QRack -------------------------------
(***************************************************************************)
(* The simulator interface as a state machine.                             *)
(*                                                                         *)
(* State: a finite family of registers (simulator objects).  A register is *)
(* [n |-> qubits, p |-> exact state vector, ph |-> is its global phase     *)
(* determined?], or Dead.                                                  *)
(*                                                                         *)
(* Every public operation is a function from the register state to a       *)
(* sequence of alternatives [v |-> reported value (-1: nothing reported),  *)
(* n, p]: one for deterministic operations, one per possible outcome for   *)
(* operations that measure.  Operations on several registers (Clone,       *)
(* Compose, Decompose) are separate actions.                               *)
(***************************************************************************)
EXTENDS QAlu

CONSTANTS Slots,        \* identities of simulator objects
          MaxN          \* bound on qubits per register

VARIABLE regs           \* slot -> register

\* lam: strength code of the noise layer (0 off, 1: lambda = 1/4, 2: lambda = 1); nch: channels applied at 1/4,
\* nfull: channels applied at 1
Reg(n, p, ph) == [n |-> n, p |-> p, ph |-> ph, lam |-> 0, nch |-> 0, nfull |-> 0]
Dead == Reg(0, <<>>, TRUE)
With(g, n, p, ph) == [g EXCEPT !.n = n, !.p = p, !.ph = ph]
Live(r) == regs[r].p # <<>>
IsState(n, p) == Len(p) = 2^n /\ ~IsNull(p)

Alt(v, n, p) == [v |-> v, n |-> n, p |-> p]

\* one alternative per value of f that has support; the post state is the projection
RECURSIVE SortedSeq(_)
SortedSeq(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y
                                         IN <<m>> \o SortedSeq(S \ {m})
Support(p, f(_)) == SortedSeq({f(k-1) : k \in {j \in DOMAIN p : p[j] # RZ}})
Branches(n, p, f(_)) ==
  LET vs == Support(p, f) IN
  [j \in DOMAIN vs |-> Alt(vs[j], n, LET P(i) == f(i) = vs[j] IN Project(p, P))]
\* measure f, then apply the basis map h (told the outcome); nothing is reported
Hidden(n, p, f(_), h(_,_)) ==
  LET b == Branches(n, p, f) IN
  [j \in DOMAIN b |-> Alt(-1, n, LET hh(i) == h(b[j].v, i) IN Perm(b[j].p, hh))]

MeasOps == {"M","MAll","MReg","MBits","MParity","ForceM","ForceMReg","ForceMBits","ForceMParity",
            "SetBit","SetReg"}
AllocOps == {"Allocate","AllocateEnd","Dispose","DisposePerm"}
NopOps == {"TrySep1","TrySep2","TrySepN","Finish","UpdateRunningNorm","NormalizeState","DumpNothing","SelfClone","SetNoise"}

\* can a register in state p accept op?
Enabled(op, n, p) ==
  CASE op.o = "ForceM" -> LET P(i) == Bit(i, op.q[1]) = op.k[1] IN Possible(p, P)
    [] op.o = "ForceMReg" -> LET P(i) == Bits(i, op.k[1], op.k[2]) = op.k[3] IN Possible(p, P)
    [] op.o = "ForceMBits" -> LET P(i) == Gather(op.q, i) = op.k[1] IN Possible(p, P)
    [] op.o = "ForceMParity" -> LET P(i) == Parity(i & op.k[1]) = op.k[2] IN Possible(p, P)
    [] op.o = "Dispose" -> op.k[2] < n /\ Separable(p, n, op.k[1], op.k[2])
    [] op.o = "DisposePerm" -> /\ op.k[2] < n
                               /\ LET P(i) == Bits(i, op.k[1], op.k[2]) # op.k[3] IN ~Possible(p, P)
    [] op.o \in {"Allocate","AllocateEnd"} -> n + op.k[2] <= MaxN
    [] op.o \in AluOps -> AluEnabled(op, n, p)
    [] OTHER -> TRUE

MaskVal(q, i) == i & MaskOf(q)

Outs(op, n, p) ==
  LET o == op.o  q == op.q  k == op.k IN
  CASE o = "M" -> LET f(i) == Bit(i, q[1]) IN Branches(n, p, f)
    [] o = "MAll" -> LET f(i) == i IN Branches(n, p, f)
    [] o = "MReg" -> LET f(i) == Bits(i, k[1], k[2]) IN Branches(n, p, f)
    [] o = "MBits" -> LET f(i) == MaskVal(q, i) IN Branches(n, p, f)
    [] o = "MParity" -> LET f(i) == Parity(i & k[1]) IN Branches(n, p, f)
    [] o = "ForceM" -> LET P(i) == Bit(i, q[1]) = k[1] IN <<Alt(k[1], n, Project(p, P))>>
    [] o = "ForceMReg" -> LET P(i) == Bits(i, k[1], k[2]) = k[3] IN <<Alt(k[3], n, Project(p, P))>>
    [] o = "ForceMBits" -> LET P(i) == Gather(q, i) = k[1] IN <<Alt(Scatter(q, k[1]), n, Project(p, P))>>
    [] o = "ForceMParity" -> LET P(i) == Parity(i & k[1]) = k[2] IN <<Alt(k[2], n, Project(p, P))>>
    [] o = "SetBit" -> LET f(i) == Bit(i, q[1])
                           h(v, i) == IF v = k[1] THEN i ELSE i ^^ (2^q[1])
                       IN Hidden(n, p, f, h)
    [] o = "SetReg" -> LET f(i) == Bits(i, k[1], k[2])  h(v, i) == SetBits(i, k[1], k[2], k[3])
                       IN Hidden(n, p, f, h)
    [] o \in NopOps -> <<Alt(-1, n, p)>>
    [] o = "Allocate" -> <<Alt(-1, n + k[2], Tensor(p, n, Basis(k[2], 0), k[2], k[1]))>>
    [] o = "AllocateEnd" -> <<Alt(-1, n + k[2], Tensor(p, n, Basis(k[2], 0), k[2], n))>>
    [] o \in {"Dispose","DisposePerm"} -> <<Alt(-1, n - k[2], RestState(p, n, k[1], k[2]))>>
    [] o \in AluOps -> LET a == AluOuts(op, n, p) IN [j \in DOMAIN a |-> Alt(-1, n, a[j])]
    [] OTHER -> <<Alt(-1, n, Eff(op, n, p))>>

\* operations after which the absolute phase is a matter of convention
LosesPhase(op) == op.o \in MeasOps \cup {"Dispose","DisposePerm","SetPermutation"} \cup AluMeasOps

-----------------------------------------------------------------------------
(* The noise layer (QInterfaceNoisy): a gate acts, then every qubit it touches passes the weak depolarizing channel,
   that is an X-basis partial measurement with Kraus operators K0 = |+><+| + sqrt(1-x^2)|-><-|, K1 = x|-><-|,
   x^2 = sqrt(lambda).  The touched qubits are the targets; for (controlled) swaps and multiplexers also the controls;
   for the mask operations every qubit of the mask. *)
MaskQ(n, m) == SelectSeq([j \in 1..n |-> j-1], LAMBDA t : Bit(m, t) = 1)
Touched(op, n) ==
  CASE op.o \in {"UCSBS","CSwap","AntiCSwap","CSqrtSwap","AntiCSqrtSwap","CISqrtSwap","AntiCISqrtSwap"} -> op.q \o op.c
    [] op.o \in {"XMask","PhaseParity"} -> MaskQ(n, op.k[1])
    [] op.o \in {"SetNoise","SetPermutation"} \cup MeasOps \cup NopOps -> <<>>
    [] OTHER -> op.q
Kraus(lam, b) == LET d == IF b = 1 THEN <<RZ,RZ,RZ,ROne>>
                          ELSE IF lam = 1 THEN <<RS2,RZ,RZ,ROne>> ELSE <<ROne,RZ,RZ,RZ>>
                 IN GMul(GH, GMul(G(d, ROne), GH))
RECURSIVE Channels(_, _, _)
Channels(alts, qs, lam) ==
  IF qs = <<>> THEN alts
  ELSE LET one(a, b) == LET p2 == ApplyC(a.p, qs[1], 0, 0, Kraus(lam, b)) IN
                        IF IsNull(p2) THEN <<>> ELSE <<Alt(a.v, a.n, p2)>>
           RECURSIVE Cat(_)
           Cat(j) == IF j > Len(alts) THEN <<>> ELSE one(alts[j], 0) \o one(alts[j], 1) \o Cat(j+1)
       IN Channels(TLCEval(Cat(1)), Tail(qs), lam)
\* outcomes of op on register g, noise included
OutsR(op, g) ==
  LET a == Outs(op, g.n, g.p) IN
  IF g.lam = 0 \/ a = <<>> THEN a ELSE Channels(a, Touched(op, g.n), g.lam)

-----------------------------------------------------------------------------
Init == regs \in [Slots -> {Dead}]

New(r, n, perm) == regs' = [regs EXCEPT ![r] = Reg(n, Basis(n, perm), TRUE)]

\* operation on one register; the j-th alternative happens (a: the alternatives)
DoAlt(r, op, a, j) ==
  /\ Live(r) /\ j \in DOMAIN a
  /\ LET t == Len(Touched(op, regs[r].n)) IN
     regs' = [regs EXCEPT ![r] = [With(@, a[j].n, a[j].p, @.ph /\ ~LosesPhase(op) /\ (@.lam = 0 \/ t = 0)) EXCEPT
                                     !.lam = IF op.o = "SetNoise" THEN op.k[1] ELSE @,
                                     !.nch = IF regs[r].lam = 1 THEN @ + t ELSE @,
                                     !.nfull = IF regs[r].lam = 2 THEN @ + t ELSE @]]
Do(r, op, j) == LET R == regs[r] IN Enabled(op, R.n, R.p) /\ DoAlt(r, op, OutsR(op, R), j)

\* an operation with invalid arguments is refused and changes nothing
Refuse(r) == Live(r) /\ UNCHANGED regs

Clone(r, s) == Live(r) /\ r # s /\ regs' = [regs EXCEPT ![s] = regs[r]]

\* s is inserted into r at index at; s itself is unchanged
Compose(r, s, at) ==
  /\ Live(r) /\ Live(s) /\ r # s /\ regs[r].n + regs[s].n <= MaxN /\ at \in 0..regs[r].n
  /\ regs' = [regs EXCEPT ![r] = With(@, @.n + regs[s].n, Tensor(@.p, @.n, regs[s].p, regs[s].n, at),
                                      @.ph /\ regs[s].ph)]

\* qubits start..start+len-1 of r move to s
Decompose(r, s, start, len) ==
  /\ Live(r) /\ r # s /\ len < regs[r].n /\ start + len <= regs[r].n
  /\ Separable(regs[r].p, regs[r].n, start, len)
  /\ regs' = [regs EXCEPT ![s] = Reg(len, SubState(regs[r].p, regs[r].n, start, len), FALSE),
                          ![r] = With(@, @.n - len, RestState(@.p, @.n, start, len), FALSE)]

-----------------------------------------------------------------------------
(* Observation: the value every read-only query must return *)
\* moments of a basis-state valued quantity x: <<sum w, sum w x, sum w x^2>> in Z[sqrt 2]
RECURSIVE Mom(_, _, _, _)
Mom(p, x(_), e, k) == IF k = 0 THEN SZ
                      ELSE IF p[k] = RZ THEN Mom(p, x, e, k-1)
                      ELSE SAdd(SScale(x(k-1)^e, RN2(p[k])), Mom(p, x, e, k-1))
Moments(p, x(_)) == <<Norm2(p), Mom(p, x, 1, Len(p)), Mom(p, x, 2, Len(p))>>
Chance(p, P(_)) == <<Norm2(p), Weight(p, P)>>
\* probability list over the values 0..m-1 of f
Dist(p, m, f(_)) == <<Norm2(p)>> \o [v \in 1..m |-> LET P(i) == f(i) = v-1 IN Weight(p, P)]
\* <p| P |p> for a Pauli string (0 I, 1 X, 3 Y, 2 Z as in the interface enum)
PauliExp(p, q, b) ==
  LET xm == MaskOf(SelectSeq([j \in DOMAIN q |-> IF b[j] \in {1,3} THEN q[j] ELSE 99], LAMBDA t : t # 99))
      zm == MaskOf(SelectSeq([j \in DOMAIN q |-> IF b[j] = 2 THEN q[j] ELSE 99], LAMBDA t : t # 99))
      ys == SelectSeq([j \in DOMAIN q |-> IF b[j] = 3 THEN q[j] ELSE 99], LAMBDA t : t # 99)
      \* P|i> = ph(i) |i ^ xm>
      ph(i) == RPow(4*PopCount(i & zm) + 2*Len(ys) - 4*PopCount(i & MaskOf(ys)))
      RECURSIVE S(_)
      S(k) == IF k = 0 THEN RZ
              ELSE RAdd(RMul(RConj(p[((k-1) ^^ xm) + 1]), RMul(ph(k-1), p[k])), S(k-1))
  IN RToS(S(Len(p)))
=============================================================================
