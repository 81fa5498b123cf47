------------------------------ MODULE PinvGen ------------------------------
(***************************************************************************)
(* The C interface (pinvoke_api) as a state machine over the registers of  *)
(* QRack: simulator ids, user-chosen qubit labels in place of positions,   *)
(* simulators that hold no qubit, errors that are reported and leave every *)
(* simulator alone.  A register's state vector is kept in some order of    *)
(* its qubits, labs[r] names them in this order; ord[r]: is this also the  *)
(* order of the simulator's own whole-register outputs?  (Operations on    *)
(* label lists may rearrange a simulator's qubits, so afterwards only      *)
(* outputs by label are specified.)                                        *)
(***************************************************************************)
EXTENDS Gen

VARIABLES labs, ord
pvars == <<regs, circs, hist, depth, todo, labs, ord>>

Empty == Reg(0, <<ROne>>, TRUE)
PLive == {r \in Slots : Live(r)}
NonE == {r \in Slots : Live(r) /\ regs[r].n > 0}
Iota(n) == [j \in 1..n |-> j - 1]
LabSet(r) == {labs[r][j] : j \in DOMAIN labs[r]}
\* labels a user might choose: small numbers, and numbers that agree with others modulo 256 or 2^32
FreshLab(S, R1, R2) ==
  LET cand == << R1 % 8, 256 + (R1 % 8), 1000 + R1, 4096 + (R1 % 4), 65536 + (R1 % 4), 512 + (R1 % 8), R1 % 6 >>
      x == Pick(cand, R2)
  IN IF x \in S THEN CHOOSE y \in (2000 + R1)..(2000 + R1 + 20) : y \notin S ELSE x
FreshSeq(S, m, R) == LET step(acc, j) == Append(acc, FreshLab(S \cup {acc[i] : i \in DOMAIN acc}, R[1 + (j % 9)], R[2 + (j % 9)]))
                     IN FoldLeft(step, <<>>, [j \in 1..m |-> j])

\* the same physical state with the qubits listed in the order ps (a permutation of positions): new position j-1 holds old ps[j]
Reorder(p, n, ps) == [k \in 1..(2^n) |-> p[1 + Scatter(ps, k-1)]]

OpKCQ(o, q, c, k) == Op(o, q, c, k, <<>>, <<>>)

-----------------------------------------------------------------------------
(* Pauli strings *)
XM(q, b) == MaskOf(SelectSeq([j \in DOMAIN q |-> IF b[j] \in {1,3} THEN q[j] ELSE 99], LAMBDA t : t # 99))
ZM(q, b) == MaskOf(SelectSeq([j \in DOMAIN q |-> IF b[j] = 2 THEN q[j] ELSE 99], LAMBDA t : t # 99))
YM(q, b) == MaskOf(SelectSeq([j \in DOMAIN q |-> IF b[j] = 3 THEN q[j] ELSE 99], LAMBDA t : t # 99))
PauliApply(p, q, b) ==
  LET xm == XM(q, b)  zm == ZM(q, b)  ym == YM(q, b)
      ph(i) == RPow(4*PopCount(i & zm) + 2*PopCount(ym) - 4*PopCount(i & ym))
  IN [k \in DOMAIN p |-> LET i == (k-1) ^^ xm IN RMul(ph(i), p[i+1])]
Trivial(b) == \A j \in DOMAIN b : b[j] = 0
\* measurement of a Pauli string: 0 for eigenvalue +1, 1 for -1
PauliMeas(p, n, q, b) ==
  IF Trivial(b) THEN <<Alt(0, n, p)>>
  ELSE LET pp == TLCEval(PauliApply(p, q, b))
           plus == Reduce([k \in DOMAIN p |-> RAdd(p[k], pp[k])])
           minus == Reduce([k \in DOMAIN p |-> RSub(p[k], pp[k])])
       IN (IF IsNull(plus) THEN <<>> ELSE <<Alt(0, n, plus)>>) \o (IF IsNull(minus) THEN <<>> ELSE <<Alt(1, n, minus)>>)
\* exp(i phi P) on the states in which every control is set; z: the angle phi
PauliExpOp(p, q, b, c, z) ==
  LET pp == TLCEval(PauliApply(p, q, b))  co == RAdd(z.e, RConj(z.e))  si == RSub(z.e, RConj(z.e))  s2 == RAdd(z.s, z.s)  cm == MaskOf(c)
  IN Reduce([k \in DOMAIN p |-> IF ((k-1) & cm) # cm THEN RMul(s2, p[k]) ELSE RAdd(RMul(co, p[k]), RMul(si, pp[k]))])

-----------------------------------------------------------------------------
PSup == {"X","Y","Z","H","S","IS","T","IT","SqrtX","ISqrtX","SqrtY","ISqrtY",
  "CNOT","AntiCNOT","CY","AntiCY","CZ","AntiCZ","CH","AntiCH","CS","AntiCS","CIS","AntiCIS","CT","CIT","AntiCT","AntiCIT",
  "CCNOT","AntiCCNOT","CCY","AntiCCY","CCZ","AntiCCZ","Mtrx","MCMtrx","MACMtrx","UCMtrx","MCPhase","MACPhase","UCPhase","MCInvert","MACInvert","UCInvert",
  "Phase","Invert","UCSB","RX","RY","RZ","CRY","CRZ","U","CU","AntiCU","Swap","ISwap","IISwap","FSim","CSwap","AntiCSwap",
  "XMask","YMask","ZMask","PhaseRootNMask","PhaseParity","UniformParityRZ","CUniformParityRZ","QFTR","IQFTR",
  "M","MAll","ForceM","SetBit","SetReg","TrySep1","TrySep2","TrySepN","NormalizeState",
  "INC","DEC","CINC","CDEC","INCS","DECS","MUL","CMUL","DIV","CDIV","MULModNOut","CMULModNOut","IMULModNOut","CIMULModNOut",
  "POWModNOut","CPOWModNOut","IndexedLDA","IndexedADC","IndexedSBC","Hash",
  "AND","OR","XOR","NAND","NOR","XNOR","CLAND","CLOR","CLXOR","CLNAND","CLNOR","CLXNOR"}
\* operations on label lists that may rearrange the simulator's qubits
RegOps == {"INC","DEC","CINC","CDEC","INCS","DECS","MUL","CMUL","DIV","CDIV","MULModNOut","CMULModNOut","IMULModNOut","CIMULModNOut",
  "POWModNOut","CPOWModNOut","IndexedLDA","IndexedADC","IndexedSBC","Hash"}
QSup == {"Prob","ProbAll","ProbReg","ProbMask","ProbParity","ProbRegAll","ProbBitsAll","ProbMaskAll","ExpBits","VarBits","ExpFact","VarFact",
  "ExpFloatFact","VarFloatFact","ExpPauli","VarPauli","GetProbs","ExpUnit","VarUnit","ExpU3","VarU3","MultiShot"}

PProfiles == [
  pinv    |-> <<"n1","h","h","nc","mc","ucs","rot","sw","csw","par","mt","qft","logic","pexp","pmeas","m","fm","setbit","alloc","alloc",
                "release","compose","decomp","dispose","separate","clone","new","query","pjoint","bad","bad","sep","destroy","reset"
              >>,
  pinvs   |-> <<"h","h","nc","n1","mt","alloc","alloc","release","compose","decomp","dispose","separate","clone","new","query","inc","swc",
                "bad","destroy","inket","m">>,
  pinva   |-> <<"h","h","n1","inc","inc","inc","mul","mul","idx","idx","logic","query","m","dispose","alloc","nc","bad">>,
  pinvq   |-> <<"h","h","nc","mt","rot","nc","query","query","query","query","pjoint","pmeas","swc","inc","alloc","dispose","pexp">>,
  pinvg   |-> <<"n1","h","h","nc","mc","ucs","rot","sw","csw","par","mt","pexp","pexp","logic","qft","m","swc","query">>,
  pinvtn  |-> <<"n1","h","h","nc","mc","rot","sw","mt","m","fm","clone","query","logic","new","bad","qft","ucs","reset">>,
  pinvc   |-> <<"capp","capp","capp","capp","capp","capp","crun","crun","crun","cinv","ccopy","ctext","cplc2","cnew","cdel","n1","h","nc","new","swc">>,
  pinvbad |-> <<"h","nc","bad","bad","bad","bad","alloc","new","destroy","m","clone","mt">> ]
PCls == PProfiles[PROFILE]

Upd(step) == hist' = Append(hist, step)
\* every step carries the labels before (l) and what changed: u = <<slot, labels after, order known>> ...
U1(r, l, o) == <<<<r, l, o>>>>

\* one operation of Gen on register r, after listing its qubits in another order if it is one on label lists
PDo(r, op0, J, qs) ==
  LET g0 == regs[r]  n == g0.n
      shuffle == op0.o \in RegOps /\ J % 3 > 0 /\ todo.r < 0
      l2 == IF shuffle THEN [j \in 1..n |-> labs[r][qs[j] + 1]] ELSE labs[r]
      p2 == IF shuffle THEN TLCEval(Reorder(g0.p, n, qs)) ELSE g0.p
      g == [g0 EXCEPT !.p = p2]
      op == IF op0.o \in PSup /\ ~(op0.o \in {"UniformParityRZ","CUniformParityRZ"} /\ op0.k[1] = 0) THEN op0 ELSE OpQ("X", <<qs[1]>>)
      en == Enabled(op, n, p2)
      clr == ~en /\ op.o \in ZeroOps
      z == ZeroReq(op)
      opx == IF clr THEN OpK("SetReg", <<>>, <<z[1], z[2], 0>>) ELSE op
      a == IF en \/ clr THEN TLCEval(Outs(opx, n, p2)) ELSE <<>>
      good == a # <<>> /\ SmallOuts(a) /\ (opx.o # "MAll" \/ ord[r])
      op3 == IF good THEN opx ELSE OpQ("X", <<qs[1]>>)
      a3 == IF good THEN a ELSE TLCEval(Outs(op3, n, p2))
      j == 1 + (J % Len(a3))
      o2 == ord[r] /\ ~shuffle /\ (op3.o \notin RegOps \/ todo.r < 0 \/ ord[r])
  IN /\ regs' = [regs EXCEPT ![r] = With(@, a3[j].n, a3[j].p, FALSE)]
     /\ labs' = [labs EXCEPT ![r] = l2]
     /\ ord' = [ord EXCEPT ![r] = o2]
     /\ todo' = IF good /\ clr /\ DEPTH > depth + 2 THEN [r |-> r, op |-> op] ELSE NoTodo
     /\ Upd([r |-> r, op |-> op3, l |-> l2, alts |-> a3, j |-> j - 1, u |-> U1(r, l2, o2)])
     /\ UNCHANGED circs

PNew(r, n, R) ==      \* init_count_type; n = 0: no qubit yet
  /\ regs' = [regs EXCEPT ![r] = IF n = 0 THEN Empty ELSE Reg(n, Basis(n, 0), FALSE)]
  /\ labs' = [labs EXCEPT ![r] = Iota(n)] /\ ord' = [ord EXCEPT ![r] = TRUE]
  /\ Upd([r |-> r, op |-> OpK("PNew", <<>>, <<n>>), l |-> <<>>, alts |-> <<Alt(-1, n, regs'[r].p)>>, j |-> 0, u |-> U1(r, Iota(n), TRUE)])
PDestroy(r) ==
  /\ regs' = [regs EXCEPT ![r] = Dead] /\ labs' = [labs EXCEPT ![r] = <<>>] /\ UNCHANGED ord
  /\ Upd([r |-> r, op |-> Op0("PDestroy"), l |-> labs[r], u |-> <<>>])
PClone(r, s) ==
  /\ regs' = [regs EXCEPT ![s] = regs[r]] /\ labs' = [labs EXCEPT ![s] = labs[r]] /\ ord' = [ord EXCEPT ![s] = ord[r]]
  /\ Upd([r |-> r, op |-> OpK("PClone", <<>>, <<s>>), l |-> labs[r], alts2 |-> <<Alt(-1, regs[r].n, regs[r].p)>>, u |-> U1(s, labs[r], ord[r])])
PAlloc(r, lab) ==
  LET n == regs[r].n  l2 == Append(labs[r], lab) IN
  /\ regs' = [regs EXCEPT ![r] = With(@, n+1, Tensor(@.p, n, Basis(1, 0), 1, n), FALSE)]
  /\ labs' = [labs EXCEPT ![r] = l2] /\ ord' = [ord EXCEPT ![r] = @ \/ n = 0]
  /\ Upd([r |-> r, op |-> OpK("PAlloc", <<>>, <<lab>>), l |-> labs[r], alts |-> <<Alt(-1, n+1, regs'[r].p)>>, j |-> 0,
          u |-> U1(r, l2, ord'[r])])
Without(s, j) == SubSeq(s, 1, j-1) \o SubSeq(s, j+1, Len(s))
PRelease(r, x) ==     \* position x is not entangled with the others; reports whether it was in |0>
  LET n == regs[r].n  p == regs[r].p  P(i) == Bit(i, x) = 1  l2 == Without(labs[r], x+1) IN
  /\ regs' = [regs EXCEPT ![r] = IF n = 1 THEN Empty ELSE With(@, n-1, RestState(p, n, x, 1), FALSE)]
  /\ labs' = [labs EXCEPT ![r] = l2] /\ UNCHANGED ord
  /\ Upd([r |-> r, op |-> OpQ("PRelease", <<x>>), l |-> labs[r], vals |-> Chance(p, P), alts |-> <<Alt(-1, n-1, regs'[r].p)>>, j |-> 0,
          u |-> U1(r, l2, ord[r])])
PCompose(r, s, nl) == \* s is appended to r, its qubits named nl (in s's own order); s stays
  LET n == regs[r].n + regs[s].n  l2 == labs[r] \o nl IN
  /\ regs' = [regs EXCEPT ![r] = With(@, n, Tensor(@.p, @.n, regs[s].p, regs[s].n, @.n), FALSE)]
  /\ labs' = [labs EXCEPT ![r] = l2] /\ UNCHANGED ord
  /\ Upd([r |-> r, op |-> OpK("PCompose", <<>>, <<s>> \o nl), l |-> labs[r], alts |-> <<Alt(-1, n, regs'[r].p)>>, j |-> 0,
          u |-> U1(r, l2, ord[r])])
\* the qubits at positions qs[1..m] leave r (in this order); rest: what stays, in spec order
PartPerm(n, qs, m) == LET out == SubSeq(qs, 1, m)
                          keep == SelectSeq(Iota(n), LAMBDA t : \A j \in 1..m : out[j] # t)
                      IN keep \o out
InOrder(n, out) == \A j \in DOMAIN out : out[j] = n - Len(out) + j - 1
PPart(kind, r, s, qs, m) ==
  LET n == regs[r].n  ps == PartPerm(n, qs, m)  p2 == TLCEval(Reorder(regs[r].p, n, ps))
      l2 == [j \in 1..(n-m) |-> labs[r][ps[j] + 1]]
      o2 == (ord[r] /\ InOrder(n, SubSeq(qs, 1, m))) \/ n - m = 1
      rest == RestState(p2, n, n-m, m)  sub == SubState(p2, n, n-m, m)
      whole == Tensor(rest, n-m, sub, m, n-m)
      lw == l2 \o [j \in 1..m |-> labs[r][qs[j] + 1]]
      st == [r |-> r, op |-> OpKCQ("P" \o kind, SubSeq(qs, 1, m), <<>>, <<s>>), l |-> labs[r], j |-> 0]
  IN CASE kind = "Decompose" ->
            /\ regs' = [regs EXCEPT ![r] = With(@, n-m, rest, FALSE), ![s] = Reg(m, sub, FALSE)]
            /\ labs' = [labs EXCEPT ![r] = l2, ![s] = Iota(m)] /\ ord' = [ord EXCEPT ![r] = o2, ![s] = TRUE]
            /\ Upd([alts |-> <<Alt(-1, n-m, rest)>>, alts2 |-> <<Alt(-1, m, sub)>>, u |-> <<<<r, l2, o2>>, <<s, Iota(m), TRUE>>>>] @@ st)
       [] kind = "Dispose" ->
            /\ regs' = [regs EXCEPT ![r] = With(@, n-m, rest, FALSE)]
            /\ labs' = [labs EXCEPT ![r] = l2] /\ ord' = [ord EXCEPT ![r] = o2]
            /\ Upd([alts |-> <<Alt(-1, n-m, rest)>>, u |-> U1(r, l2, o2)] @@ st)
       [] OTHER ->     \* Separate: nothing changes but perhaps the order
            /\ regs' = [regs EXCEPT ![r] = With(@, n, whole, FALSE)]
            /\ labs' = [labs EXCEPT ![r] = lw] /\ ord' = [ord EXCEPT ![r] = @ /\ InOrder(n, SubSeq(qs, 1, m))]
            /\ Upd([alts |-> <<Alt(-1, n, whole)>>, u |-> U1(r, lw, ord'[r])] @@ st)
CanPart(r, qs, m) == LET n == regs[r].n IN m < n /\ Separable(Reorder(regs[r].p, n, PartPerm(n, qs, m)), n, n-m, m)

PSkip == UNCHANGED <<regs, circs, hist, labs, ord, todo>>
Quiet == UNCHANGED <<circs, todo>>
QuerySt(r, op, v) == UNCHANGED <<regs, circs, labs, ord, todo>> /\ Upd([r |-> r, op |-> op, l |-> labs[r], vals |-> v, u |-> <<>>])
AltsStep(r, op, a, j) ==
  /\ regs' = [regs EXCEPT ![r] = With(@, a[j].n, a[j].p, FALSE)] /\ UNCHANGED <<labs, ord>>
  /\ Upd([r |-> r, op |-> op, l |-> labs[r], alts |-> a, j |-> j - 1, u |-> U1(r, labs[r], ord[r])])

\* calls that must be refused: k = <<kind, which identifier is bad, the bad identifier>>
PBad(r, R, qs) == UNCHANGED <<regs, circs, labs, ord, todo>>
  /\ Upd([r |-> r, op |-> OpKCQ("PBad", qs, <<>>, <<R[2], R[3] % 5, FreshLab(LabSet(r), R[4], R[5])>>), l |-> labs[r], bad |-> TRUE, u |-> <<>>])

PStep(cls, r, R, qs) ==
  LET g == regs[r]  n == g.n  p == g.p
      others == SelectSeq(<<0,1,2>>, LAMBDA t : t \in Slots /\ t # r)
      s == Pick(others, R[9])
      m == IF n < 2 THEN 1 ELSE 1 + (R[2] % (n-1))
  IN
  CASE cls = "new" -> Quiet /\ PNew(s, R[2] % 4, R)
    [] cls = "destroy" -> IF Cardinality(PLive) < 2 THEN PSkip ELSE Quiet /\ PDestroy(r)
    [] cls = "clone" -> Quiet /\ PClone(r, s)
    [] cls = "alloc" \/ n = 0 -> IF n >= NMAX + 1 THEN PSkip ELSE Quiet /\ PAlloc(r, FreshLab(LabSet(r), R[2], R[3]))
    [] cls = "release" ->
         LET ok == SelectSeq(Iota(n), LAMBDA t : n = 1 \/ Separable(p, n, t, 1)) IN
         IF ok = <<>> THEN PSkip ELSE Quiet /\ PRelease(r, Pick(ok, R[3]))
    [] cls = "compose" ->
         LET t == IF R[10] % 4 = 0 THEN r ELSE s IN
         IF Live(t) /\ ord[t] /\ regs[t].n > 0 /\ n + regs[t].n <= NMAX + 1 /\ MaxCoef(p) * MaxCoef(regs[t].p) <= CoefLim
         THEN \E nl \in {TLCEval(FreshSeq(LabSet(r), regs[t].n, R))} : Quiet /\ PCompose(r, t, nl)
         ELSE PSkip
    [] cls \in {"decomp","dispose","separate"} ->
         LET k == CASE cls = "decomp" -> "Decompose" [] cls = "dispose" -> "Dispose" [] OTHER -> "Separate"
             ms == SelectSeq([j \in 1..(n-1) |-> j], LAMBDA t : CanPart(r, qs, t))
         IN IF ms = <<>> THEN PSkip ELSE Quiet /\ PPart(k, r, s, qs, Pick(ms, R[3]))
    [] cls = "inket" -> IF Live(s) /\ regs[s].n = n /\ ord[r]
                        THEN Quiet /\ AltsStep(r, OpK("PInKet", <<>>, <<>>), <<Alt(-1, n, regs[s].p)>>, 1) ELSE PSkip
    [] cls = "reset" -> Quiet /\ AltsStep(r, Op0("PReset"), <<Alt(-1, n, Basis(n, 0))>>, 1)
    [] cls \in {"pexp","pmeas","pjoint"} ->
         LET len == 1 + (R[2] % n)  q == SubSeq(qs, 1, len)  b == [j \in 1..len |-> R[2+j] % 4] IN
         CASE cls = "pexp" ->
                LET cc == IF R[8] % 2 = 0 /\ len < n /\ ~Trivial(b) THEN SubSeq(qs, len+1, len + 1 + (R[9] % (n - len))) ELSE <<>>
                    z == Ang(R[10])  x == TLCEval(PauliExpOp(p, q, b, cc, z)) IN
                IF MaxCoef(x) > CoefLim THEN PSkip
                ELSE Quiet /\ AltsStep(r, Op("PExp", q, cc, b, <<>>, <<z>>), <<Alt(-1, n, x)>>, 1)
           [] cls = "pmeas" ->
                LET a == TLCEval(PauliMeas(p, n, q, b)) IN
                IF \E j \in DOMAIN a : MaxCoef(a[j].p) > CoefLim THEN PSkip
                ELSE Quiet /\ AltsStep(r, OpK("PMeasure", q, b), a, 1 + (R[11] % Len(a)))
           [] OTHER -> IF QBig(p) THEN PSkip
                       ELSE QuerySt(r, OpK("QPJoint", q, b), <<Norm2(p), IF Trivial(b) THEN Norm2(p) ELSE PauliExp(p, q, b)>>)
    [] cls = "query" ->
         IF QBig(p) THEN PSkip
         ELSE \E x \in {TLCEval(MakeQuery(n, p, R, qs))} :
              IF x.op.o \in QSup /\ ~(PROFILE = "pinvtn" /\ x.op.o = "ProbParity") /\ (x.op.o # "GetProbs" \/ ord[r])
              THEN QuerySt(r, [x.op EXCEPT !.o = "Q" \o @], x.v) ELSE PSkip
    [] cls = "bad" -> PBad(r, R, qs)
    [] cls \in GateCls -> PDo(r, TLCEval(MakeGate(cls, n, R, qs)), R[12], qs)
    [] cls \in MeasCls -> PDo(r, TLCEval(MakeMeas(cls, n, p, R, qs)), R[12], qs)
    [] cls \in AluCls -> PDo(r, TLCEval(MakeAlu(cls, n, R, qs, Op0("none"))), R[12], RandPerm(n))
    [] OTHER -> PSkip

\* circuits
PCirc(cls, r, R) ==
  LET c == R[10] % 2  d == 1 - c  g == circs[c].g  n == regs[r].n  p == regs[r].p
      rec(o, k) == [r |-> r, op |-> OpK(o, <<>>, k), l |-> labs[r], u |-> <<>>]
      keep == UNCHANGED <<todo, labs, ord>>
  IN CASE cls = "cnew" \/ ~CLive(c) -> keep /\ CNew(c) /\ Upd(rec("CNew", <<c, R[2] % 2, R[3] % 2>>))
       [] cls = "cdel" /\ CLive(d) -> keep /\ UNCHANGED regs /\ circs' = [circs EXCEPT ![c] = NoCirc] /\ Upd(rec("CDel", <<c>>))
       [] cls = "capp" /\ Len(g) < 20 ->
             \E qs \in {RandPerm(MinI(NMAX, 1 + (R[11] % 4)))} : \E op \in {TLCEval(MakeCGate(R, qs))} :
             IF op.o = "INC" THEN PSkip
             ELSE keep /\ CAppendGate(c, op) /\ Upd([r |-> r, op |-> [op EXCEPT !.o = "C" \o @, !.z = <<>>], cs |-> c, l |-> labs[r], u |-> <<>>])
       [] cls = "ccopy" -> keep /\ CCopy(c, d) /\ Upd(rec("CClone", <<c, d>>))
       [] cls = "ctext" -> keep /\ CCopy(c, d) /\ Upd(rec("CText", <<c, d>>))
       [] cls = "cinv" -> keep /\ CInvert(c, d) /\ Upd(rec("CInv", <<c, d>>))
       [] cls = "crun" /\ Width(g) <= n /\ n > 0 /\ ord[r] ->
             \E x \in {TLCEval(RunCirc(g, n, p))} :
             IF MaxCoef(x.p) > CoefLim THEN PSkip
             ELSE UNCHANGED <<circs, todo>> /\ AltsStep(r, OpK("CRun", <<>>, <<c>>), <<Alt(-1, n, x.p)>>, 1)
       [] cls = "cplc2" /\ Width(g) <= n /\ n > 0 /\ ord[r] ->
             \E x \in {TLCEval(RunCirc(g, n, p))} :
             IF MaxCoef(x.p) > CoefLim THEN PSkip
             ELSE keep /\ UNCHANGED <<regs, circs>> /\
                  Upd([r |-> r, op |-> OpK("CPlc", <<>>, <<c, 1 + (R[2] % (2^n - 1))>>), l |-> labs[r], u |-> <<>>, alts2 |-> <<Alt(-1, n, x.p)>>])
       [] OTHER -> PSkip
PCircCls == {"cnew","cdel","capp","ccopy","ctext","cinv","crun","cplc2"}

PFirst == /\ depth = 0 /\ depth' = 1 /\ UNCHANGED <<todo, circs>>
          /\ \E n \in {RandomElement(NMIN..NMAX)} : PNew(0, n, <<>>)
PNextStep ==
  /\ depth > 0 /\ depth < DEPTH /\ depth' = depth + 1
  /\ IF todo.r >= 0 THEN PDo(todo.r, todo.op, depth * 3, RandPerm(regs[todo.r].n))
     ELSE \E cls \in {Pick(PCls, RandomElement(0..239))} : \E r \in {RandomElement(PLive)} :
          \E R \in {TLCEval([j \in 1..12 |-> RandomElement(0..239)])} :
          \E qs \in {RandPerm(regs[r].n)} :
             IF cls \in PCircCls THEN PCirc(cls, r, R) ELSE PStep(cls, r, R, qs)
PEmit == /\ depth = DEPTH /\ PrintT(ToJson([steps |-> hist]))
         /\ depth' = DEPTH + 1 /\ UNCHANGED <<regs, hist, todo, circs, labs, ord>>

PInit == GInit /\ labs = [s \in Slots |-> <<>>] /\ ord = [s \in Slots |-> TRUE]
PNext == PFirst \/ PNextStep \/ PEmit

\* labels name the qubits of a register one to one
PTypeOK == \A s \in Slots : Live(s) => /\ Len(labs[s]) = regs[s].n /\ Cardinality(LabSet(s)) = regs[s].n
                                       /\ Len(regs[s].p) = 2^regs[s].n /\ ~IsNull(regs[s].p)
=============================================================================
