"""Which behaviours decide which property: generator profiles x implementation stacks."""
import ctl


def J(ctx, prof, stacks, shq=1, num=150, nmin=1, nmax=4, depth=20, mode="mix", env=None, tf=6, mod="Gen"):
    """one replay job; the thorough tier uses tf times as many shards of twice the size"""
    if ctx.thorough():
        return (prof, stacks, mode, shq * tf, num * 2, nmin, nmax, depth, env, mod)
    return (prof, stacks, mode, shq, num, nmin, nmax, depth, env, mod)


def PI(ctx, prof, stacks, shq=1, num=150, **kw):
    """behaviours of the C interface specification"""
    return J(ctx, prof, stacks, shq, num, 1, 4, mod="PinvGen", **kw)


CPU = ["cpu"]

UNIT = ["unit+cpu"]
PAGER = ["pager+cpu:p1", "pager+cpu:p2", "unit+pager+cpu:p2"]
SH = ["sh+cpu"]
USH = ["unit+sh+cpu"]
STAB = ["stab", "uc"]
BDT = ["bdt", "bdth", "unit+bdt"]
NOISY = ["noisy+cpu", "noisy+unit+cpu"]
TN = ["tn+cpu", "tn+cpu:l1", "tn+sh+cpu:l1", "tn+unit+cpu"]
DEF = ["unit", "sh"]      # the layers with the engines they choose themselves
PINV = ["cpu", "sd", "sh", "sd+sh", "bdt"]     # simulator types of the C interface
M2 = {"MOD2": "1"}      # (I)MULModNOut with a modulus that is a power of two only (see known_findings.txt)

TABLE = {
    "C01": dict(jobs=lambda c: [J(c, "gates", CPU, 5, 250), J(c, "gates", ["cpu:s"], 2, 250), J(c, "rot", CPU, 1, 250),
                                J(c, "gates", CPU, 1, 120, 5, 6, 16)]),
    "C02": dict(jobs=lambda c: [J(c, "gates", UNIT, 2, 250, 1, 5), J(c, "buffer", UNIT, 3, 250, 2, 5), J(c, "unitm", UNIT, 2, 250, 1, 5),
                                J(c, "meas", UNIT, 1, 250, 1, 5), J(c, "inc", UNIT, 1, 250, 1, 5), J(c, "alu", UNIT, 1, 250, 2, 6, env=M2),
                                J(c, "mul", UNIT, 1, 250, 2, 6, env=M2), J(c, "clone", UNIT, 1, 250), J(c, "query", UNIT, 1, 250),
                                J(c, "idx", UNIT, 1, 250, 2, 6), J(c, "idxm", UNIT, 1, 250, 3, 6), J(c, "unitm", DEF, 1, 120), J(c, "struct", DEF, 1, 120)]),
    "C03": dict(jobs=lambda c: [J(c, p, STAB, 2, 250, 1, 5) for p in ("cliff", "cliffm", "cliffs", "cliffq")] +
                               [J(c, p, SH + USH, 1, 200, 1, 4, env=M2) for p in
                                ("cliffm", "nearc", "nearcs", "nearcq", "hybrid", "gates", "unitm", "struct", "meas", "clone", "buffer",
                                 "qft", "rot", "inc")] +
                               [J(c, "cliff", STAB + SH + USH, 1, 150, 5, 8, 40), J(c, "tgad", SH, 2, 200, 1, 4, 30),
                                J(c, "alu", SH + USH, 1, 100, 2, 6, env=M2), J(c, "mul", SH + USH, 1, 100, 2, 6, env=M2),
                                J(c, "idx", SH + USH, 1, 80, 2, 6), J(c, "adder", SH + USH, 1, 80, 4, 8)]),
    "C04": dict(jobs=lambda c: [J(c, p, BDT, 1, 150, 1, 4, env=M2) for p in
                                ("gates", "cliffm", "nearc", "unitm", "meas", "struct", "clone", "query", "querym", "rot", "qft", "inc", "alu",
                                 "mul", "buffer", "bad")] +
                               [J(c, "idx", BDT, 1, 80, 2, 6), J(c, "adder", BDT, 1, 80, 4, 8), J(c, "gates", BDT, 1, 60, 5, 6, 16)]),
    "C05": dict(jobs=lambda c: [J(c, p, PAGER, 1, 120, 1, 5, env=M2) for p in
                                ("gates", "unitm", "struct", "clone", "buffer", "rot", "qft", "meas", "query", "bad")] +
                               [J(c, "adder", PAGER, 1, 100, 4, 8), J(c, "idx", PAGER, 1, 100, 2, 6), J(c, "alu", PAGER, 1, 120, 2, 6, env=M2),
                                J(c, "mul", PAGER, 1, 120, 2, 6, env=M2), J(c, "inc", PAGER, 1, 120, 1, 5),
                                J(c, "gates", PAGER[:1], 1, 25, 10, 11, 12)]),
    "C06": dict(jobs=lambda c: [J(c, "meas", CPU, 3, 250), J(c, "unitm", CPU, 1, 250), J(c, "meas", UNIT, 3, 250), J(c, "unitm", UNIT, 1, 250),
                                J(c, "meas", SH + USH, 1, 200), J(c, "cliffm", STAB, 1, 250, 1, 5), J(c, "meas", PAGER[:1] + BDT + NOISY[:1], 1, 150)]),
    "C07": dict(jobs=lambda c: [J(c, "alu", CPU, 2, 250, 2, 6), J(c, "inc", CPU + UNIT, 1, 250, 1, 5), J(c, "mul", CPU, 2, 250, 2, 6),
                                J(c, "adder", CPU + UNIT, 1, 250, 4, 8), J(c, "idx", CPU + UNIT, 1, 250, 2, 6),
                                J(c, "alu", UNIT, 1, 250, 2, 5, env=M2), J(c, "mul", UNIT, 1, 250, 2, 6, env=M2)]),
    "C08": dict(jobs=lambda c: [J(c, "struct", CPU + UNIT, 6, 250), J(c, "struct", SH + USH + PAGER[:1] + BDT + NOISY, 1, 200), J(c, "cliffs", STAB, 1, 250)]),
    "C09": dict(jobs=lambda c: [J(c, "clone", CPU + UNIT, 6, 250), J(c, "clone", SH + USH + PAGER[:1] + BDT + NOISY, 1, 200)]),
    "C10": dict(jobs=lambda c: [J(c, "query", CPU + UNIT, 5, 250), J(c, "querym", CPU + UNIT, 2, 250),
                                J(c, "query", SH + USH + PAGER[:1] + BDT + NOISY, 1, 200), J(c, "nearcq", SH + USH, 1, 200), J(c, "cliffq", STAB, 1, 250, 1, 5)]),
    "C11": dict(jobs=lambda c: [J(c, "circ", CPU, 4, 250, 2, 4, 40), J(c, "circ", CPU + UNIT, 2, 250, 1, 3, 40),
                                J(c, "circ", SH + TN[:1] + BDT[:1], 1, 150, 2, 3, 40)]),
    "C12": dict(jobs=lambda c: [J(c, "layers", TN, 4, 250, 1, 2, 30)] +
                               [J(c, p, TN, 1, 200, 1, 4, env=M2) for p in
                                ("gates", "unitm", "meas", "cliffm", "clone", "query", "querym", "qft", "rot", "buffer", "bad")] +
                               [J(c, "unitm", ["tn"], 1, 120)]),
    "C13": dict(jobs=lambda c: [PI(c, p, PINV, 1, 150) for p in ("pinv", "pinvs", "pinvbad", "pinvq", "pinvg", "pinvc")] +
                               [PI(c, "pinva", PINV, 1, 150, env=M2), PI(c, "pinvtn", ["tn", "def", "defp"], 1, 150)]),
    "C14": dict(extra=[ctl.work_queue, ctl.work_engine],
                mc=lambda c: [("QWorkImpl", "QWorkImpl.cfg"), ("QWorkImpl", "QWorkLive.cfg")]),
    "C15": dict(extra=[ctl.par_loops, ctl.par_engine], mc=lambda c: [("QParImpl", "QParImpl.cfg")]),
    "C18": dict(jobs=lambda c: [J(c, "qft", CPU + UNIT, 4, 250), J(c, "rot", CPU + UNIT, 3, 250)]),
    "C19": dict(jobs=lambda c: [J(c, "bad", CPU + UNIT, 5, 250), J(c, "bad", SH + USH + PAGER[:1] + BDT + NOISY, 1, 250)]),
    "C16": dict(jobs=lambda c: [J(c, "seeds", CPU + UNIT + SH + USH + ["bdt", "bdth", "unit+bdt", "pager+cpu:p1"] + DEF, 3, 200, mod="SeedGen"),
                                J(c, "seedc", STAB + SH + USH, 2, 200, mod="SeedGen"), J(c, "seedn", NOISY + ["noisy+sh+cpu", "noisy"], 2, 200, mod="SeedGen"),
                                J(c, "seedt", TN + ["tn"], 2, 200, mod="SeedGen")],
                mc=lambda c: [("QSeed", "QSeed.cfg")]),
    "C17": dict(jobs=lambda c: [J(c, p, STAB, 1, 250, 1, 5, mod="SaveGen") for p in ("cliff", "cliffm", "cliffs")] +
                               [J(c, p, CPU + UNIT + SH + USH + BDT + PAGER + ["noisy+cpu"], 1, 150, mod="SaveGen") for p in
                                ("cliffs", "nearc", "nearcs", "struct", "unitm", "meas")] +
                               [J(c, p, SH + USH, 1, 150, 1, 4, 30, mod="SaveGen") for p in ("tgad", "nearcq")]),
    "C20": dict(jobs=lambda c: [J(c, "noise", NOISY + ["noisy+sh+cpu"], 4, 250, 1, 3)] +
                               [J(c, p, NOISY, 1, 150, 1, 4, env=M2) for p in
                                ("gates", "unitm", "meas", "struct", "clone", "query", "rot", "qft", "inc", "bad")] +
                               [J(c, p, ["noisy"], 1, 120) for p in ("gates", "unitm", "meas")]),
}

NOTES = {
    "C01": "random-walk model checking of the exact gate semantics (QOps.tla) with replay of every behaviour into QEngineCPU",
    "C02": "exact Schrodinger semantics of the whole public API replayed into the separating layer, with buffers flushed at random points",
    "C03": "exact semantics replayed into QStabilizer, QUnitClifford and QStabilizerHybrid, with near-Clifford and non-Clifford behaviours",
    "C04": "every generator profile replayed into QBdt and QBdtHybrid, alone and under QUnit",
    "C11": "circuit objects specified as gate sequences (QCirc.tla); behaviours over two circuits and a register replayed into QCircuit",
    "C12": "every generator profile plus an interleaving profile of gates, measurements, allocation and clones replayed into QTensorNetwork",
    "C13": "C interface specified as labelled qubits over the exact states (PinvGen.tla: simulators, labels, circuits, refused calls); behaviours "
           "replayed through the shared library",
    "C14": "queue specified as an abstract FIFO (QWork.tla); its algorithm checked exhaustively against it (QWorkImpl.tla); executions of the real "
           "queue under a controlled scheduler checked by TLC trace validation; simulators replayed under controlled schedules",
    "C15": "index sets of the loops specified (QPar.tla), chunk-claiming algorithm checked exhaustively (QParImpl.tla), real loops run under "
           "controlled schedules; simulators replayed with tiny chunks",
    "C20": "noise layer specified as X-basis partial measurements (Kraus alternatives) after every gate, with the channel count as state; strength 0 replayed over all profiles",
    "C05": "every generator profile replayed into QPager with 1- and 2-qubit pages, so that nearly every operation crosses pages",
    "C06": "every behaviour carries all admissible outcomes with their exact post-states; forced and random outcomes replayed",
    "C07": "exact permutation semantics of the arithmetic/logic API (QAlu.tla), replayed on superpositions",
    "C08": "exact tensor structure semantics (QRack.tla Compose/Decompose/Allocate/Dispose), replayed",
    "C09": "two-register behaviours with clones and queries; both registers compared after every action",
    "C10": "query values computed exactly by the specification and compared with the implementation's answers",
    "C16": "two worlds with one program (QSeed.tla, checked exhaustively; a shared generator violates it): behaviours with seedings at random points, "
           "the second world catching up at other points, run in both worlds and compared outcome by outcome",
    "C17": "files as state (QStore.tla): Save/Load actions at random points of behaviours, amplitudes and text streams, replayed through the real files",
    "C18": "QFT/rotation/time evolution semantics replayed",
    "C19": "Refuse action: invalid calls at random points of behaviours must throw and leave the state unchanged",
}
NA = {}
