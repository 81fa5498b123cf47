-------------------------------- MODULE QPar --------------------------------
(***************************************************************************)
(* Parallel loops: which indices each form of loop visits (each exactly    *)
(* once), and what the reductions return.  A mask is given by bit numbers. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

BitOf(x, b) == (x \div 2^b) % 2
Field(x, b, w) == (x \div 2^b) % 2^w
Range(b, e) == {x \in b..(e-1) : TRUE}
Skip(n, b, w) == {x \in 0..(2^n-1) : Field(x, b, w) = 0}            \* bits b..b+w-1 are not iterated over
Mask(n, bits) == {x \in 0..(2^n-1) : \A b \in bits : BitOf(x, b) = 0}
Compose(low, high, st) == {l + h * 2^st : l \in low, h \in high}

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RECURSIVE SumOver(_, _, _)
\* amps: sequence of <<re, im>>; the sum of squared norms at least th
SumOver(amps, th, k) == IF k = 0 THEN 0
                        ELSE LET v == amps[k][1] * amps[k][1] + amps[k][2] * amps[k][2]
                             IN SumOver(amps, th, k-1) + IF v >= th THEN v ELSE 0
=============================================================================
