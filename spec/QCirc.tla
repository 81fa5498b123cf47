------------------------------- MODULE QCirc -------------------------------
(***************************************************************************)
(* Circuit objects (QCircuit): a circuit denotes the sequence of gates     *)
(* appended to it.  Optimisation on append, inversion, copying, combining, *)
(* text input and output must preserve the operator; circuits share        *)
(* nothing, and running one on a register applies the operator.            *)
(***************************************************************************)
EXTENDS QRack, SequencesExt

CSlots == {0, 1}
VARIABLE circs        \* circuit slot -> [live, g |-> sequence of gates]

NoCirc == [live |-> FALSE, g |-> <<>>]
Circ(g) == [live |-> TRUE, g |-> g]
CLive(c) == circs[c].live

QubitsOf(op) == IF op.o = "INC" THEN {op.k[2] + j : j \in 0..(op.k[3]-1)}
                ELSE {op.q[j] : j \in DOMAIN op.q} \cup {op.c[j] : j \in DOMAIN op.c}
Width(g) == FoldLeft(LAMBDA w, op : LET m == CHOOSE x \in QubitsOf(op) : \A y \in QubitsOf(op) : y <= x
                                    IN IF m + 1 > w THEN m + 1 ELSE w, 0, g)
\* running a circuit on too narrow a register first appends qubits in |0>
Widen(n, p, w) == IF w <= n THEN [n |-> n, p |-> p]
                  ELSE [n |-> w, p |-> Tensor(p, n, Basis(w - n, 0), w - n, n)]
GateEff(op, n, p) == IF op.o = "INC" THEN AluOuts(op, n, p)[1] ELSE Eff(op, n, p)
RunCirc(g, n, p) == LET x == Widen(n, p, Width(g))
                    IN [n |-> x.n, p |-> FoldLeft(LAMBDA acc, op : GateEff(op, x.n, acc), x.p, g)]

InvGate(op) == CASE op.o = "Swap" -> op
                 [] op.o = "INC" -> [op EXCEPT !.k = <<(2^op.k[3] - op.k[1]) % 2^op.k[3], op.k[2], op.k[3]>>]
                 [] OTHER -> [op EXCEPT !.g = [j \in DOMAIN op.g |-> GDag(op.g[j])]]
InvCirc(g) == [j \in DOMAIN g |-> InvGate(g[Len(g) + 1 - j])]

-----------------------------------------------------------------------------
CNew(c) == circs' = [circs EXCEPT ![c] = Circ(<<>>)] /\ UNCHANGED regs
CAppendGate(c, op) == CLive(c) /\ circs' = [circs EXCEPT ![c] = Circ(Append(@.g, op))] /\ UNCHANGED regs
CCopy(c, d) == CLive(c) /\ c # d /\ circs' = [circs EXCEPT ![d] = circs[c]] /\ UNCHANGED regs      \* Clone, or out and in as text
CInvert(c, d) == CLive(c) /\ circs' = [circs EXCEPT ![d] = Circ(InvCirc(circs[c].g))] /\ UNCHANGED regs
CJoin(c, d) == CLive(c) /\ CLive(d) /\ circs' = [circs EXCEPT ![c] = Circ(@.g \o circs[d].g)] /\ UNCHANGED regs
CRun(c, r) == CLive(c) /\ Live(r) /\ UNCHANGED circs
              /\ \E x \in {TLCEval(RunCirc(circs[c].g, regs[r].n, regs[r].p))} :
                 regs' = [regs EXCEPT ![r] = With(@, x.n, x.p, FALSE)]
=============================================================================
