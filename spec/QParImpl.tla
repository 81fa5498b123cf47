------------------------------ MODULE QParImpl ------------------------------
(***************************************************************************)
(* The algorithm of a parallel loop: threads claim chunks from one shared  *)
(* counter until it passes the end, and the caller waits for all of them.  *)
(* Exhaustive over all interleavings and all small parameters: every index *)
(* once, no two calls with one thread number at a time, nothing after the  *)
(* return.                                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS MaxItems, MaxStride, MaxCores, Atomic
VARIABLES items, stride, cores, next, pc, at, upto, tmp, visits, ret
vars == <<items, stride, cores, next, pc, at, upto, tmp, visits, ret>>
Threads == IF items \div stride > cores THEN cores ELSE items \div stride
Min(a, b) == IF a < b THEN a ELSE b
Workers == 1..MaxCores
Used == IF Threads <= 1 THEN {1} ELSE 1..Threads
Init == /\ items \in 0..MaxItems /\ stride \in 1..MaxStride /\ cores \in 1..MaxCores
        /\ next = 0 /\ ret = FALSE /\ visits = [x \in 0..(MaxItems-1) |-> 0]
        /\ pc = [w \in Workers |-> "claim"] /\ at = [w \in Workers |-> 0] /\ upto = [w \in Workers |-> 0] /\ tmp = [w \in Workers |-> 0]
\* a single thread runs the whole range itself
Serial == /\ Threads <= 1 /\ pc[1] = "claim"
          /\ at' = [at EXCEPT ![1] = 0] /\ upto' = [upto EXCEPT ![1] = items] /\ pc' = [pc EXCEPT ![1] = "last"]
          /\ UNCHANGED <<items, stride, cores, next, tmp, visits, ret>>
Chunk(w, i) == /\ at' = [at EXCEPT ![w] = i * stride] /\ upto' = [upto EXCEPT ![w] = Min(items, (i + 1) * stride)]
               /\ pc' = [pc EXCEPT ![w] = IF i * stride >= items THEN "end" ELSE "go"]
Claim(w) == /\ Threads > 1 /\ w \in Used /\ pc[w] = "claim"
            /\ IF Atomic THEN Chunk(w, next) /\ next' = next + 1 /\ UNCHANGED tmp
               ELSE tmp' = [tmp EXCEPT ![w] = next] /\ pc' = [pc EXCEPT ![w] = "put"] /\ UNCHANGED <<at, upto, next>>
            /\ UNCHANGED <<items, stride, cores, visits, ret>>
Put(w) == pc[w] = "put" /\ next' = tmp[w] + 1 /\ Chunk(w, tmp[w]) /\ UNCHANGED <<items, stride, cores, tmp, visits, ret>>
Visit(w) == /\ pc[w] \in {"go", "last"}
            /\ IF at[w] < upto[w] THEN visits' = [visits EXCEPT ![at[w]] = @ + 1] /\ at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED pc
               ELSE pc' = [pc EXCEPT ![w] = IF @ = "go" THEN "claim" ELSE "end"] /\ UNCHANGED <<visits, at>>
            /\ UNCHANGED <<items, stride, cores, next, upto, tmp, ret>>
Return == ~ret /\ (\A w \in Used : pc[w] = "end") /\ ret' = TRUE /\ UNCHANGED <<items, stride, cores, next, pc, at, upto, tmp, visits>>
Next == Serial \/ Return \/ (ret /\ UNCHANGED vars) \/ \E w \in Workers : Claim(w) \/ Put(w) \/ Visit(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Once == ret => \A x \in 0..(MaxItems-1) : visits[x] = IF x < items THEN 1 ELSE 0
Twice == \A x \in 0..(MaxItems-1) : visits[x] <= 1
Ends == <>ret
=============================================================================
