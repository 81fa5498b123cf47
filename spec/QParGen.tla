------------------------------ MODULE QParGen ------------------------------
(* Cases for the parallel loops: parameters, configuration and the expected *)
(* visits, as JSON.                                                         *)
EXTENDS QPar, Json
VARIABLES done
R(n) == RandomElement(0..(n-1))
RandSet(n) == LET k == R(2^(IF n < 14 THEN n ELSE 14)) IN {x \in 0..(n-1) : IF x < 14 THEN BitOf(k, x) = 1 ELSE (x * 7 + k) % 3 = 0}
Case(f, k, lo, hi, vis, amps, sum) ==
  [f |-> f, k |-> k, lo |-> lo, hi |-> hi, vis |-> vis, amps |-> amps, sum |-> sum,
   sp |-> R(4), cores |-> 1 + R(5)]                      \* chunk size 2^sp, number of threads
Make(c) ==
  CASE c = 0 -> \E b \in {R(5)} : \E m \in {R(40)} : done' = Case("for", <<b, b + m>>, <<>>, <<>>, Sorted(Range(b, b + m)), <<>>, 0)
    [] c = 1 -> \E n \in {1 + R(6)} : \E b \in {R(n)} : \E w \in {1 + R(n - b)} :
                   done' = Case("skip", <<n, b, w>>, <<>>, <<>>, Sorted(Skip(n, b, w)), <<>>, 0)
    [] c = 2 -> \E n \in {1 + R(6)} : \E S \in {RandSet(n)} :
                   done' = Case("mask", <<n>>, Sorted(S), <<>>, Sorted(Mask(n, S)), <<>>, 0)
    [] c = 3 -> \E S \in {RandSet(24)} : done' = Case("set", <<>>, Sorted(S), <<>>, Sorted(S), <<>>, 0)
    [] c = 4 -> \E S \in {RandSet(24)} : done' = Case("vec", <<>>, Sorted(S), <<>>, Sorted(S), <<>>, 0)
    [] c = 5 -> \E st \in {1 + R(3)} : \E L \in {RandSet(2^st)} : \E H \in {RandSet(6)} :
                   done' = Case("compose", <<st>>, Sorted(L), Sorted(H), Sorted(Compose(L, H, st)), <<>>, 0)
    [] OTHER -> \E n \in {R(6)} : \E th \in {R(12)} : \E amps \in {TLCEval([j \in 1..(2^n) |-> <<R(5) - 2, R(5) - 2>>])} :
                   done' = Case(IF c = 6 THEN "norm" ELSE "exact", <<n, th>>, <<>>, <<>>, <<>>, amps,
                                SumOver(amps, IF c = 6 THEN th ELSE 0, 2^n))
Init == done = <<>>
Next == \/ done = <<>> /\ \E c \in {R(8)} : Make(c)
        \/ done # <<>> /\ PrintT(ToJson(done)) /\ done' = <<>>
Spec == Init /\ [][Next]_done
=============================================================================
