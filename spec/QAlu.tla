------------------------------- MODULE QAlu -------------------------------
(***************************************************************************)
(* Arithmetic, logic, look-up and shift operations as maps on the values   *)
(* of registers (contiguous qubit ranges, little-endian).                  *)
(* Op.k holds the classical arguments in the order of the C++ signature;   *)
(* op.q the single qubits, op.c the controls.                              *)
(***************************************************************************)
EXTENDS QOps

\* operations without internal measurement
AluPureOps == {"INC","DEC","CINC","CDEC","INCS","DECS","DIV","CDIV","IMULModNOut","CIMULModNOut",
            "POWModNOut","CPOWModNOut","PhaseFlipIfLess","CPhaseFlipIfLess","IndexedLDANoReset","Hash",
            "AND","OR","XOR","NAND","NOR","XNOR","CLAND","CLOR","CLXOR","CLNAND","CLNOR","CLXNOR",
            "FullAdd","IFullAdd","CFullAdd","CIFullAdd","ADC","IADC","CADC","CIADC"}
\* operations that measure (and reset) a carry, an output register or shifted-out bits first
AluMeasOps == {"INCC","DECC","INCSC","DECSC","INCSC4","DECSC4","MUL","CMUL","MULModNOut","CMULModNOut",
               "IndexedLDA","IndexedADC","IndexedSBC","ASL","ASR","LSL","LSR"}
AluOps == AluPureOps \cup AluMeasOps

CtlOn(c, i) == (i & MaskOf(c)) = MaskOf(c)
Add(v, a, len) == (v + a) % 2^len
\* signed overflow of v + a on len bits
Ovf(v, a, len) == LET s(x) == IF x >= 2^(len-1) THEN x - 2^len ELSE x
                      t == s(v % 2^len) + s(a % 2^len)
                  IN t >= 2^(len-1) \/ t < -(2^(len-1))
PowMod(b, e, m) == LET RECURSIVE P(_)  P(j) == IF j = 0 THEN 1 % m ELSE (P(j-1) * b) % m IN P(e)
IsPow2(x) == \E j \in 0..30 : x = 2^j

\* --- one-bit adder on (a, b, ci, co): reversible, see the class documentation:
\* ci becomes the sum a+b+ci, co is toggled by the carry
FAf(i, a, b, s, co) ==
   LET t == Bit(i,a) + Bit(i,b) + Bit(i,s)
       j == SetBits(i, s, 1, t % 2)
   IN SetBits(j, co, 1, (Bit(i,co) + (t \div 2)) % 2)
\* ripple-carry addition of registers A, B into O (initially 0) with carry bit
ADCf(i, a, b, out, len, carry) ==
   LET t == Bits(i,a,len) + Bits(i,b,len) + Bit(i,carry)
   IN SetBits(SetBits(i, out, len, t % 2^len), carry, 1, t \div 2^len)

\* operations specified only for a target register initially |0...0>, and that register
ZeroOps == {"POWModNOut","CPOWModNOut","MULModNOut","CMULModNOut","CMUL","IndexedLDANoReset","ADC","CADC"}
ZeroReq(op) == LET k == op.k  o == op.o IN
  CASE o \in {"POWModNOut","CPOWModNOut","MULModNOut","CMULModNOut"} -> <<k[4], k[5]>>
    [] o = "CMUL" -> <<k[3], k[4]>>
    [] o = "IndexedLDANoReset" -> <<k[3], k[4]>>
    [] OTHER -> <<k[3], k[4]>>

AluEnabled(op, n, p) ==
  LET k == op.k  q == op.q  c == op.c  o == op.o
      Zero(s, l) == LET P(i) == Bits(i,s,l) # 0 IN ~Possible(p, P)
      ImgOf(f(_)) == \A x \in DOMAIN p : p[x] # RZ => f(x-1)
  IN
  CASE o \in {"DIV","CDIV"} ->
         \* defined on the image of MUL: register + carry hold a multiple
         LET len == k[4]
             full(i) == Bits(i,k[2],len) + 2^len * Bits(i,k[3],len)
             ok(i) == (o = "CDIV" /\ ~CtlOn(c,i) /\ Bits(i,k[3],len) = 0) \/
                      ((o = "DIV" \/ CtlOn(c,i)) /\ full(i) % k[1] = 0 /\ full(i) \div k[1] < 2^len)
         IN ImgOf(ok)
    [] o \in {"IMULModNOut","CIMULModNOut"} ->
         LET len == k[5]
             ok(i) == IF o = "CIMULModNOut" /\ ~CtlOn(c,i) THEN Bits(i,k[4],len) = 0
                      ELSE Bits(i,k[4],len) = (Bits(i,k[3],len) * k[1]) % k[2]
         IN ImgOf(ok)
    [] o \in ZeroOps -> LET z == ZeroReq(op) IN Zero(z[1], z[2])
    [] o \in {"IADC","CIADC"} ->
         LET len == k[4]
             \* image of ADC: the out register and carry hold a sum of A, B and a carry-in bit
             ok(i) == IF o = "CIADC" /\ ~CtlOn(c,i) THEN Bits(i,k[3],len) = 0
                      ELSE LET d == Bits(i,k[3],len) + 2^len * Bit(i,k[5]) - Bits(i,k[1],len) - Bits(i,k[2],len)
                           IN d \in {0,1}
         IN ImgOf(ok)
    [] OTHER -> TRUE

\* two branches for a measured, then cleared, carry bit: seq of <<carry-in, state with carry 0>>
CarryIn(p, cb) ==
  LET br(b) == LET P(i) == Bit(i,cb) = b  f(i) == SetBits(i, cb, 1, 0)
               IN IF Possible(p, P) THEN << <<b, Perm(Project(p, P), f)>> >> ELSE <<>>
  IN br(0) \o br(1)
\* a register measured and set to zero
ZeroReg(p, s, l) ==
  LET f(i) == SetBits(i, s, l, 0)
      vals == {Bits(x-1, s, l) : x \in {y \in DOMAIN p : p[y] # RZ}}
      RECURSIVE Sq(_)
      Sq(S) == IF S = {} THEN <<>> ELSE LET v == CHOOSE x \in S : TRUE
                                            P(i) == Bits(i,s,l) = v
                                        IN <<Perm(Project(p, P), f)>> \o Sq(S \ {v})
  IN Sq(vals)

AluPure(op, n, p) ==
  LET k == op.k  q == op.q  c == op.c  o == op.o IN
  CASE o = "INC" -> LET f(i) == SetBits(i,k[2],k[3], Add(Bits(i,k[2],k[3]), k[1], k[3])) IN Perm(p, f)
    [] o = "DEC" -> LET f(i) == SetBits(i,k[2],k[3], Add(Bits(i,k[2],k[3]), 2^k[3] - (k[1] % 2^k[3]), k[3])) IN Perm(p, f)
    [] o = "CINC" -> LET f(i) == IF CtlOn(c,i) THEN SetBits(i,k[2],k[3], Add(Bits(i,k[2],k[3]), k[1], k[3])) ELSE i IN Perm(p, f)
    [] o = "CDEC" -> LET f(i) == IF CtlOn(c,i) THEN SetBits(i,k[2],k[3], Add(Bits(i,k[2],k[3]), 2^k[3] - (k[1] % 2^k[3]), k[3])) ELSE i IN Perm(p, f)
    [] o \in {"INCS","DECS"} ->
         LET a == IF o = "INCS" THEN k[1] % 2^k[3] ELSE (2^k[3] - (k[1] % 2^k[3])) % 2^k[3]
             f(i) == SetBits(i,k[2],k[3], Add(Bits(i,k[2],k[3]), a, k[3]))
             h(i) == IF Ovf(Bits(i,k[2],k[3]), a, k[3]) /\ Bit(i, q[1]) = 1 THEN RNeg1 ELSE ROne
         IN PermPh(p, f, h)
    [] o \in {"DIV","CDIV"} ->
         LET len == k[4]
             f(i) == IF o = "CDIV" /\ ~CtlOn(c,i) THEN i
                     ELSE LET v == (Bits(i,k[2],len) + 2^len * Bits(i,k[3],len)) \div k[1]
                          IN SetBits(SetBits(i,k[2],len,v), k[3], len, 0)
         IN Perm(p, f)
    [] o \in {"IMULModNOut","CIMULModNOut"} ->
         LET f(i) == IF o = "CIMULModNOut" /\ ~CtlOn(c,i) THEN i ELSE SetBits(i,k[4],k[5],0) IN Perm(p, f)
    [] o \in {"POWModNOut","CPOWModNOut"} ->
         LET f(i) == IF o = "CPOWModNOut" /\ ~CtlOn(c,i) THEN i
                     ELSE SetBits(i,k[4],k[5], PowMod(k[1], Bits(i,k[3],k[5]), k[2])) IN Perm(p, f)
    [] o = "PhaseFlipIfLess" -> LET h(i) == IF Bits(i,k[2],k[3]) < k[1] THEN RNeg1 ELSE ROne IN Diag(p, h)
    [] o = "CPhaseFlipIfLess" -> LET h(i) == IF Bits(i,k[2],k[3]) < k[1] /\ Bit(i,q[1]) = 1 THEN RNeg1 ELSE ROne IN Diag(p, h)
    \* k = <<indexStart, indexLen, valueStart, valueLen, v0, v1, ...>>
    [] o = "IndexedLDANoReset" -> LET f(i) == SetBits(i,k[3],k[4], k[5 + Bits(i,k[1],k[2])]) IN Perm(p, f)
    \* k = <<start, len, v0, v1, ...>>, a permutation table
    [] o = "Hash" -> LET f(i) == SetBits(i,k[1],k[2], k[3 + Bits(i,k[1],k[2])]) IN Perm(p, f)
    \* q = <<in1, in2, out>>
    [] o \in {"AND","NAND","OR","NOR","XOR","XNOR"} ->
         LET b(i) == LET x == Bit(i,q[1])  y == Bit(i,q[2]) IN
                 CASE o = "AND" -> x*y [] o = "NAND" -> 1-x*y [] o = "OR" -> x+y-x*y [] o = "NOR" -> 1-(x+y-x*y)
                   [] o = "XOR" -> (x+y)%2 [] o = "XNOR" -> 1-((x+y)%2)
             f(i) == IF b(i) = 1 THEN i ^^ (2^q[3]) ELSE i
         IN Perm(p, f)
    \* q = <<in, out>>, k = <<classical bit>>
    [] o \in {"CLAND","CLNAND","CLOR","CLNOR","CLXOR","CLXNOR"} ->
         LET b(i) == LET x == Bit(i,q[1])  y == k[1] IN
                 CASE o = "CLAND" -> x*y [] o = "CLNAND" -> 1-x*y [] o = "CLOR" -> x+y-x*y [] o = "CLNOR" -> 1-(x+y-x*y)
                   [] o = "CLXOR" -> (x+y)%2 [] o = "CLXNOR" -> 1-((x+y)%2)
             f(i) == IF b(i) = 1 THEN i ^^ (2^q[2]) ELSE i
         IN Perm(p, f)
    [] o \in {"FullAdd","CFullAdd"} ->
         LET f(i) == IF CtlOn(c,i) THEN FAf(i,q[1],q[2],q[3],q[4]) ELSE i IN Perm(p, f)
    [] o \in {"IFullAdd","CIFullAdd"} ->
         LET f(i) == IF CtlOn(c,i) THEN FAf(i,q[1],q[2],q[3],q[4]) ELSE i
             inv(j) == CHOOSE i \in 0..(2^n-1) : f(i) = j
         IN Perm(p, inv)
    \* k = <<in1, in2, out, len, carry>>
    [] o \in {"ADC","CADC"} ->
         LET f(i) == IF CtlOn(c,i) THEN ADCf(i,k[1],k[2],k[3],k[4],k[5]) ELSE i IN Perm(p, f)
    [] o \in {"IADC","CIADC"} ->
         LET f(j) == IF CtlOn(c,j)
                     THEN SetBits(SetBits(j,k[3],k[4],0), k[5], 1,
                            Bits(j,k[3],k[4]) + 2^k[4]*Bit(j,k[5]) - Bits(j,k[1],k[4]) - Bits(j,k[2],k[4]))
                     ELSE j
         IN Perm(p, f)

Overwrite(s, op) == \* operations that first measure-and-clear a target register
  LET k == op.k  c == op.c  o == op.o IN
  CASE o \in {"MUL","CMUL"} ->
         LET f(i) == IF CtlOn(c,i) THEN LET v == Bits(i,k[2],k[4]) * k[1]
                                        IN SetBits(SetBits(i,k[2],k[4], v % 2^k[4]), k[3], k[4], (v \div 2^k[4]) % 2^k[4])
                     ELSE i IN Perm(s, f)
    [] o \in {"MULModNOut","CMULModNOut"} ->
         LET f(i) == IF CtlOn(c,i) THEN SetBits(i,k[4],k[5], (Bits(i,k[3],k[5]) * k[1]) % k[2]) ELSE i IN Perm(s, f)
    [] o = "IndexedLDA" -> LET f(i) == SetBits(i,k[3],k[4], k[5 + Bits(i,k[1],k[2])]) IN Perm(s, f)

SwapTop(op, p) == LET e == op.k[2] + op.k[3]  f(i) == SwapBits(i, e-1, e-2) IN Perm(p, f)
MapSeq(s, F(_)) == [j \in DOMAIN s |-> F(s[j])]

AluOuts(op, n, p) ==
  LET k == op.k  q == op.q  c == op.c  o == op.o IN
  CASE o \in AluPureOps -> <<AluPure(op, n, p)>>
    \* q = <<carry>>; register k = <<a, start, len>>
    [] o \in {"INCC","DECC","INCSC","DECSC","INCSC4","DECSC4"} ->
         LET len == k[3]
             cb == q[Len(q)]                      \* carry is the last qubit argument
             sub == o \in {"DECC","DECSC","DECSC4"}
             amt(b) == IF sub THEN 2^len - (k[1] % 2^len) - (1 - b) ELSE (k[1] % 2^len) + b
             F(x) == LET a == amt(x[1])
                         f(i) == LET t == Bits(i,k[2],len) + a
                                 IN SetBits(SetBits(i,k[2],len, t % 2^len), cb, 1, t \div 2^len)
                         \* the phase convention: sign flipped on signed overflow
                         ov(i) == Ovf(Bits(i,k[2],len), a % 2^len, len)
                         h(i) == CASE o \in {"INCC","DECC"} -> ROne
                                   [] o \in {"INCSC4","DECSC4"} -> IF ov(i) THEN RNeg1 ELSE ROne
                                   [] o \in {"INCSC","DECSC"} -> IF ov(i) /\ Bit(i,q[1]) = 1 THEN RNeg1 ELSE ROne
                     IN PermPh(x[2], f, h)
         IN MapSeq(CarryIn(p, cb), F)
    [] o \in {"MUL","CMUL"} -> LET F(s) == Overwrite(s, op) IN MapSeq(ZeroReg(p, k[3], k[4]), F)
    [] o \in {"MULModNOut","CMULModNOut"} -> LET F(s) == Overwrite(s, op) IN MapSeq(ZeroReg(p, k[4], k[5]), F)
    [] o = "IndexedLDA" -> LET F(s) == Overwrite(s, op) IN MapSeq(ZeroReg(p, k[3], k[4]), F)
    \* q = <<carry>>, k = <<indexStart, indexLen, valueStart, valueLen, v0, ...>>
    [] o \in {"IndexedADC","IndexedSBC"} ->
         LET len == k[4]
             F(x) == LET f(i) == LET v == k[5 + Bits(i,k[1],k[2])]
                                     t == Bits(i,k[3],len) + (IF o = "IndexedADC" THEN v + x[1] ELSE 2^len - (v + 1 - x[1]))
                                 IN SetBits(SetBits(i,k[3],len, t % 2^len), q[1], 1, t \div 2^len)
                     IN Perm(x[2], f)
         IN MapSeq(CarryIn(p, q[1]), F)
    \* k = <<shift, start, len>>
    [] o \in {"LSL","LSR"} ->
         LET sh == k[1]  len == k[3]
             f(i) == SetBits(i,k[2],len, IF o = "LSL" THEN (Bits(i,k[2],len) * 2^sh) % 2^len ELSE Bits(i,k[2],len) \div 2^sh)
             F(s) == Perm(s, f)
             \* measured bits: those shifted out
         IN IF sh = 0 \/ len = 0 THEN <<p>>
            ELSE IF sh >= len THEN ZeroReg(p, k[2], len)
            ELSE MapSeq(ZeroReg(p, IF o = "LSL" THEN k[2] + len - sh ELSE k[2], sh), F)
    \* arithmetic shifts: the top bit (sign) keeps its place, the other len-1 bits shift
    [] o \in {"ASL","ASR"} ->
         LET sh == k[1]  len == k[3] IN
            IF sh = 0 \/ len = 0 THEN <<p>>
            ELSE IF sh >= len THEN ZeroReg(p, k[2], len)
            ELSE LET p1 == SwapTop(op, p)
                     rot(i) == SetBits(i, k[2], len, RotL(Bits(i,k[2],len), IF o = "ASL" THEN sh ELSE len - sh, len))
                     p2 == Perm(p1, rot)
                     zs == ZeroReg(p2, IF o = "ASL" THEN k[2] ELSE k[2] + len - sh - 1, sh)
                     F(s) == SwapTop(op, s)
                 IN MapSeq(zs, F)
=============================================================================
