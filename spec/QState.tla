------------------------------- MODULE QState -------------------------------
(***************************************************************************)
(* Exact semantics of pure quantum states.                                 *)
(*                                                                         *)
(* A state of n qubits is a tuple psi of 2^n ring elements; psi[k+1] is    *)
(* the amplitude of computational basis state k, in which qubit q is bit q *)
(* (weight 2^q) of k.  A state stands for psi / ||psi||: every operator    *)
(* below is right up to a common POSITIVE REAL factor, so global phase is  *)
(* exact and normalisation is implicit.                                    *)
(***************************************************************************)
EXTENDS Ring, Bitwise, FiniteSets, TLC

Dim(n) == 2^n
Idx(n) == 1..(2^n)
Basis(n, p) == [k \in Idx(n) |-> IF k = p + 1 THEN ROne ELSE RZ]
NQ(psi) == CHOOSE n \in 0..20 : 2^n = Len(psi)
Bit(i, q) == (i \div 2^q) % 2
Bits(i, start, len) == (i \div 2^start) % 2^len
SetBits(i, start, len, v) == i - Bits(i, start, len) * 2^start + v * 2^start

RECURSIVE MaskOf(_)
MaskOf(qs) == IF qs = <<>> THEN 0 ELSE (2^Head(qs)) | MaskOf(Tail(qs))
\* scatter the bits of perm over the qubits qs (bit j of perm goes to qubit qs[j+1])
RECURSIVE Scatter(_, _)
Scatter(qs, perm) == IF qs = <<>> THEN 0
                     ELSE (perm % 2) * 2^Head(qs) + Scatter(Tail(qs), perm \div 2)
RECURSIVE Gather(_, _)
Gather(qs, i) == IF qs = <<>> THEN 0 ELSE Bit(i, Head(qs)) + 2 * Gather(Tail(qs), i)
RECURSIVE PopCount(_)
PopCount(i) == IF i = 0 THEN 0 ELSE (i % 2) + PopCount(i \div 2)
Parity(i) == PopCount(i) % 2

-----------------------------------------------------------------------------
(* canonical scale: strip common factors sqrt(2), 3 and 5 so integers stay small *)
DivS2able(p) == \A j \in DOMAIN p : p[j] = RZ \/ ((p[j][1] - p[j][3]) % 2 = 0 /\ (p[j][2] - p[j][4]) % 2 = 0)
DivS2(p) == [j \in DOMAIN p |-> << (p[j][2]-p[j][4]) \div 2, (p[j][1]+p[j][3]) \div 2,
                                   (p[j][2]+p[j][4]) \div 2, (p[j][3]-p[j][1]) \div 2>>]
DivKable(p, k) == \A j \in DOMAIN p : p[j][1] % k = 0 /\ p[j][2] % k = 0 /\ p[j][3] % k = 0 /\ p[j][4] % k = 0
DivK(p, k) == [j \in DOMAIN p |-> [c \in 1..4 |-> p[j][c] \div k]]
RECURSIVE RedS2(_)
RedS2(p) == IF DivS2able(p) THEN RedS2(TLCEval(DivS2(p))) ELSE p
RECURSIVE RedK(_, _)
RedK(p, k) == IF DivKable(p, k) THEN RedK(TLCEval(DivK(p, k)), k) ELSE p
IsNull(p) == \A j \in DOMAIN p : p[j] = RZ
Reduce(p) == LET q == TLCEval(p) IN
             IF IsNull(q) THEN q ELSE RedK(RedK(RedS2(q), 5), 3)
MaxCoef(p) == LET S == {RAbsMax(p[j]) : j \in DOMAIN p} IN CHOOSE m \in S : \A x \in S : x <= m

-----------------------------------------------------------------------------
(* Gates.  A single-qubit operator is [m |-> <<m00,m01,m10,m11>>, s |-> r]: *)
(* the matrix m divided by the positive real ring element s.                *)
ApplyC(psi, t, cm, cv, g) ==
  LET T == 2^t IN
  Reduce([k \in DOMAIN psi |-> LET i == k-1 IN
     IF (i & cm) # cv THEN RMul(g.s, psi[k])
     ELSE IF (i & T) = 0 THEN RAdd(RMul(g.m[1],psi[k]), RMul(g.m[2],psi[k+T]))
     ELSE RAdd(RMul(g.m[3],psi[k-T]), RMul(g.m[4],psi[k]))])

\* uniformly controlled: gs[p+1] is applied where the controls (little-endian in
\* the order given) read p
ApplyUC(psi, t, ctrls, gs0) ==
  LET T == 2^t
      RECURSIVE Oth(_, _)     \* product of the other blocks' scales: common scale for all
      Oth(j, k) == IF k = 0 THEN ROne ELSE RMul(IF k = j THEN ROne ELSE gs0[k].s, Oth(j, k-1))
      gs == TLCEval([j \in DOMAIN gs0 |-> LET o == Oth(j, Len(gs0)) IN
                        [m |-> [x \in 1..4 |-> RMul(o, gs0[j].m[x])]]])
  IN
  Reduce([k \in DOMAIN psi |-> LET i == k-1
                                   g == gs[Gather(ctrls, i) + 1] IN
     IF (i & T) = 0 THEN RAdd(RMul(g.m[1],psi[k]), RMul(g.m[2],psi[k+T]))
     ELSE RAdd(RMul(g.m[3],psi[k-T]), RMul(g.m[4],psi[k]))])

\* two-qubit operator on (q1 = low bit, q2 = high bit), 4x4 matrix by rows, scale s
Apply2(psi, q1, q2, cm, cv, M, s) ==
  LET A == 2^q1  B == 2^q2 IN
  Reduce([k \in DOMAIN psi |-> LET i == k-1 IN
     IF (i & cm) # cv THEN RMul(s, psi[k])
     ELSE LET base == i - Bit(i,q1)*A - Bit(i,q2)*B
              r == Bit(i,q1) + 2*Bit(i,q2) + 1
              e(c) == RMul(M[r][c], psi[base + ((c-1)%2)*A + ((c-1)\div 2)*B + 1])
          IN RAdd(RAdd(e(1),e(2)), RAdd(e(3),e(4)))])

\* diagonal operator: amplitude i multiplied by the unit ring element f(i)
Diag(psi, f(_)) == [k \in DOMAIN psi |-> RMul(f(k-1), psi[k])]
DiagS(psi, f(_)) == Reduce([k \in DOMAIN psi |-> RMul(f(k-1), psi[k])])

\* basis-state map |i> -> ph(i) |f(i)>, f injective on the support of psi
PermPh(psi, f(_), ph(_)) ==
  LET Supp == {k \in DOMAIN psi : psi[k] # RZ}
      img == TLCEval([k \in Supp |-> f(k-1)+1])
      inv == TLCEval([j \in DOMAIN psi |-> {k \in Supp : img[k] = j}])
  IN [j \in DOMAIN psi |-> IF inv[j] = {} THEN RZ
                           ELSE LET k == CHOOSE x \in inv[j] : TRUE IN RMul(ph(k-1), psi[k])]
One(i) == ROne
Perm(psi, f(_)) == PermPh(psi, f, One)
InjOnSupp(psi, f(_)) ==
  LET Supp == {k \in DOMAIN psi : psi[k] # RZ} IN Cardinality({f(k-1) : k \in Supp}) = Cardinality(Supp)

-----------------------------------------------------------------------------
(* Probabilities: unnormalised weights in Z[sqrt 2] *)
RECURSIVE SumN2(_, _, _)
SumN2(psi, P(_), k) == IF k = 0 THEN SZ
                       ELSE IF P(k-1) THEN SAdd(RN2(psi[k]), SumN2(psi, P, k-1)) ELSE SumN2(psi, P, k-1)
Weight(psi, P(_)) == SumN2(psi, P, Len(psi))
Norm2(psi) == LET T(i) == TRUE IN Weight(psi, T)
Project(psi, P(_)) == Reduce([k \in DOMAIN psi |-> IF P(k-1) THEN psi[k] ELSE RZ])
Possible(psi, P(_)) == \E k \in DOMAIN psi : P(k-1) /\ psi[k] # RZ

-----------------------------------------------------------------------------
(* Structure *)
\* insert the qubits of b at index start of a
Tensor(a, na, b, nb, start) ==
  [k \in 1..(2^(na+nb)) |-> LET i == k-1
      lo == i % 2^start   mid == (i \div 2^start) % 2^nb   hi == i \div 2^(start+nb)
      IN RMul(a[lo + hi*2^start + 1], b[mid + 1])]
Row(psi, start, len, i, j) ==    \* rest index i, sub-register index j
  psi[ (i % 2^start) + j*2^start + (i \div 2^start)*2^(start+len) + 1 ]
Separable(psi, n, start, len) ==
  LET R == 0..(2^(n-len)-1)  S == 0..(2^len-1)
      k0 == CHOOSE k \in DOMAIN psi : psi[k] # RZ
      j0 == Bits(k0-1, start, len)
      i0 == ((k0-1) % 2^start) + ((k0-1) \div 2^(start+len)) * 2^start
  IN \A i \in R : \A j \in S :
        RMul(Row(psi,start,len,i,j), Row(psi,start,len,i0,j0))
          = RMul(Row(psi,start,len,i,j0), Row(psi,start,len,i0,j))
SubState(psi, n, start, len) ==
  LET k0 == CHOOSE k \in DOMAIN psi : psi[k] # RZ
      i0 == ((k0-1) % 2^start) + ((k0-1) \div 2^(start+len)) * 2^start
  IN Reduce([j \in 1..(2^len) |-> Row(psi,start,len,i0,j-1)])
RestState(psi, n, start, len) ==
  LET k0 == CHOOSE k \in DOMAIN psi : psi[k] # RZ
      j0 == Bits(k0-1, start, len)
  IN Reduce([i \in 1..(2^(n-len)) |-> Row(psi,start,len,i-1,j0)])

\* equality of physical states up to a complex factor
RECURSIVE SameRay(_, _)
SameRay(a, b) == /\ Len(a) = Len(b)
                 /\ LET k0 == CHOOSE k \in DOMAIN a : a[k] # RZ IN
                    b[k0] # RZ /\ \A k \in DOMAIN a : RMul(a[k], b[k0]) = RMul(b[k], a[k0])
=============================================================================
