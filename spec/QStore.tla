------------------------------- MODULE QStore -------------------------------
\* Saved states: writing a register out and reading it back, later and into any register.
\* A file keeps the state it was written from; what happens to that register afterwards does not matter.
EXTENDS QRack
VARIABLE files
NoFile == [n |-> 0, p |-> <<>>, live |-> FALSE]
FLive(f) == files[f].live

Save(r, f) == /\ Live(r)
              /\ files' = [files EXCEPT ![f] = [n |-> regs[r].n, p |-> regs[r].p, live |-> TRUE]]
              /\ UNCHANGED regs
Load(f, r) == /\ FLive(f)
              /\ regs' = [regs EXCEPT ![r] = Reg(files[f].n, files[f].p, FALSE)]
              /\ UNCHANGED files
FilesOK == \A f \in DOMAIN files : FLive(f) => Len(files[f].p) = 2^files[f].n
=============================================================================
