----------------------------- MODULE QWorkImpl -----------------------------
(***************************************************************************)
(* The algorithm of the work queue (one mutex, two condition variables,    *)
(* flags for finished, running, started and quitting), checked             *)
(* exhaustively against QWork: the ghost variable g follows the            *)
(* specification, and ok becomes false at the first visible event the      *)
(* specification does not allow.  Deadlock freedom and termination mean    *)
(* that waiting always returns.                                            *)
(***************************************************************************)
EXTENDS QWork
CONSTANTS Clients, MaxOps, Spurious, DumpAware
VARIABLES lock, q, quit, fin, started, running,   \* the object
          pc, left, arg, nt, nw,                  \* clients: control, operations left, current id; counters
          wpc, wtask, dpc, g, ok
obj == <<lock, q, quit, fin, started, running>>
vars == <<obj, pc, left, arg, nt, nw, wpc, wtask, dpc, g, ok>>
Free == 0

See(a, k, b) == /\ ok' = (ok /\ Can(a, k, b, g))
                /\ g' = IF Can(a, k, b, g) THEN Do(a, k, b, g) ELSE g
Hide(h) == g' = h /\ UNCHANGED ok
Quiet == UNCHANGED <<g, ok>>

Init == /\ lock = Free /\ q = <<>> /\ quit = FALSE /\ fin = TRUE /\ started = FALSE /\ running = FALSE
        /\ pc = [c \in Clients |-> "idle"] /\ left = [c \in Clients |-> MaxOps] /\ arg = [c \in Clients |-> 0]
        /\ nt = 0 /\ nw = 0 /\ wpc = "none" /\ wtask = None /\ dpc = "idle" /\ g = S0 /\ ok = TRUE

Go(c, p) == pc' = [pc EXCEPT ![c] = p]
\* wake one (here: the only) waiter on the queue's condition variable / all waiters for the end
WakeWorker == wpc' = IF wpc = "wait" THEN "lock" ELSE wpc
WakeAll == pc' = [c \in Clients |-> IF pc[c] = "fwait" THEN "flock" ELSE pc[c]]

Begin(c) == /\ pc[c] = "idle" /\ left[c] > 0 /\ left' = [left EXCEPT ![c] = @ - 1]
            /\ UNCHANGED <<obj, wpc, wtask, dpc>>
            /\ \/ Go(c, "dlock") /\ arg' = [arg EXCEPT ![c] = nt] /\ nt' = nt + 1 /\ UNCHANGED nw /\ See("dc", nt, 0)
               \/ Go(c, "flock") /\ arg' = [arg EXCEPT ![c] = nw] /\ nw' = nw + 1 /\ UNCHANGED nt /\ See("fc", nw, 0)
               \/ Go(c, "xlock") /\ arg' = [arg EXCEPT ![c] = nw] /\ nw' = nw + 1 /\ UNCHANGED nt /\ See("xc", nw, 0)
               \/ Go(c, "poll")  /\ arg' = [arg EXCEPT ![c] = nw] /\ nw' = nw + 1 /\ UNCHANGED nt /\ See("pc", nw, 0)
Same == UNCHANGED <<left, arg, nt, nw>>
DispatchL(c) == /\ pc[c] = "dlock" /\ lock = Free /\ Go(c, "dnote")
                /\ q' = Append(q, arg[c]) /\ fin' = FALSE /\ started' = TRUE
                /\ wpc' = IF started THEN wpc ELSE "lock"
                /\ Hide(Enq(arg[c], g)) /\ UNCHANGED <<lock, quit, running, wtask, dpc>> /\ Same
DispatchN(c) == pc[c] = "dnote" /\ Go(c, "dret") /\ WakeWorker /\ Quiet /\ UNCHANGED <<obj, wtask, dpc>> /\ Same
DispatchR(c) == pc[c] = "dret" /\ Go(c, "idle") /\ See("dr", arg[c], 0) /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
FinishL(c) == /\ pc[c] = "flock" /\ lock = Free
              /\ Go(c, IF ~started \/ fin \/ quit THEN "fret" ELSE "fwait")
              /\ Quiet /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
FinishR(c) == pc[c] = "fret" /\ Go(c, "idle") /\ See("fr", arg[c], 0) /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
DumpL(c) == /\ pc[c] = "xlock" /\ lock = Free
            /\ Hide(Dump(arg[c], g))
            /\ IF started THEN /\ q' = <<>> /\ fin' = IF DumpAware THEN ~running ELSE TRUE
                               /\ Go(c, "xnote")
                          ELSE Go(c, "xret") /\ UNCHANGED <<q, fin>>
            /\ UNCHANGED <<lock, quit, started, running, wpc, wtask, dpc>> /\ Same
DumpN(c) == /\ pc[c] = "xnote" /\ pc' = [d \in Clients |-> IF d = c THEN "xret" ELSE IF pc[d] = "fwait" THEN "flock" ELSE pc[d]]
            /\ Quiet /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
DumpR(c) == pc[c] = "xret" /\ Go(c, "idle") /\ See("xr", arg[c], 0) /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
Poll(c) == pc[c] = "poll" /\ Go(c, "idle") /\ See("pr", arg[c], IF fin THEN 1 ELSE 0) /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same
Spur(c) == Spurious /\ pc[c] = "fwait" /\ Go(c, "flock") /\ Quiet /\ UNCHANGED <<obj, wpc, wtask, dpc>> /\ Same

Cl == UNCHANGED <<pc, left, arg, nt, nw, dpc>>
WorkL == /\ wpc = "lock" /\ lock = Free
         /\ IF quit THEN wpc' = "end" /\ Quiet /\ UNCHANGED <<obj, wtask>>
            ELSE IF q = <<>> THEN wpc' = "wait" /\ Quiet /\ UNCHANGED <<obj, wtask>>
            ELSE /\ wpc' = "start" /\ wtask' = Head(q) /\ q' = Tail(q) /\ running' = TRUE
                 /\ Hide(Take(g)) /\ UNCHANGED <<lock, quit, fin, started>>
         /\ Cl
WorkS == wpc = "start" /\ wpc' = "run" /\ See("s", wtask, 0) /\ UNCHANGED <<obj, wtask>> /\ Cl
WorkE == wpc = "run" /\ wpc' = "relock" /\ See("e", wtask, 0) /\ UNCHANGED <<obj, wtask>> /\ Cl
WorkF == /\ wpc = "relock" /\ lock = Free /\ wpc' = IF quit THEN "end" ELSE "lock"
         /\ running' = FALSE /\ wtask' = None
         /\ IF q = <<>> THEN fin' = TRUE /\ WakeAll ELSE UNCHANGED <<fin, pc>>
         /\ Quiet /\ UNCHANGED <<lock, q, quit, started, left, arg, nt, nw, dpc>>
WSpur == Spurious /\ wpc = "wait" /\ wpc' = "lock" /\ Quiet /\ UNCHANGED <<obj, wtask>> /\ Cl

\* the destructor, when the clients are done with the object
ClientsDone == \A c \in Clients : pc[c] = "idle" /\ left[c] = 0
DtorC == dpc = "idle" /\ ClientsDone /\ dpc' = "zlock" /\ See("zc", 0, 0) /\ UNCHANGED <<obj, pc, left, arg, nt, nw, wpc, wtask>>
DtorL == /\ dpc = "zlock" /\ lock = Free
         /\ IF started THEN dpc' = "znote" /\ q' = <<>> /\ quit' = TRUE /\ Hide(Drop(g)) /\ UNCHANGED <<lock, fin, started, running>>
                       ELSE dpc' = "zret" /\ Quiet /\ UNCHANGED obj
         /\ UNCHANGED <<pc, left, arg, nt, nw, wpc, wtask>>
DtorN == dpc = "znote" /\ dpc' = "zjoin" /\ WakeWorker /\ Quiet /\ UNCHANGED <<obj, pc, left, arg, nt, nw, wtask>>
DtorJ == dpc = "zjoin" /\ wpc = "end" /\ dpc' = "zret" /\ Quiet /\ UNCHANGED <<obj, pc, left, arg, nt, nw, wpc, wtask>>
DtorR == dpc = "zret" /\ dpc' = "over" /\ See("zr", 0, 0) /\ UNCHANGED <<obj, pc, left, arg, nt, nw, wpc, wtask>>
Over == dpc = "over" /\ UNCHANGED vars

Client(c) == Begin(c) \/ DispatchL(c) \/ DispatchN(c) \/ DispatchR(c) \/ FinishL(c) \/ FinishR(c) \/ DumpL(c) \/ DumpN(c) \/ DumpR(c) \/ Poll(c)
Worker == WorkL \/ WorkS \/ WorkE \/ WorkF
Dtor == DtorC \/ DtorL \/ DtorN \/ DtorJ \/ DtorR
Next == (\E c \in Clients : Client(c) \/ Spur(c)) \/ Worker \/ WSpur \/ Dtor \/ Over
Spec == Init /\ [][Next]_vars /\ (\A c \in Clients : WF_vars(Client(c))) /\ WF_vars(Worker) /\ WF_vars(Dtor)

Conforms == ok
OneAtATime == running => (wpc \in {"start", "run", "relock"})
Terminates == <>(dpc = "over")
=============================================================================
