------------------------------- MODULE QSeed --------------------------------
(* Seeded randomness, as a self-composition: two worlds run one program, each at its own pace.  Every seed fixes a      *)
(* stream of numbers; a random step of a world takes the next number of its stream, and seeding a world again restarts  *)
(* the stream.  Then the outcomes are a function of the program: whatever one world has seen, the other sees too.       *)
EXTENDS Naturals, Sequences
CONSTANTS Worlds, Seeds, ProgLen, Private
VARIABLES draw, prog, pc, rng, log
vars == <<draw, prog, pc, rng, log>>
Cmds == {[c |-> "M", s |-> 0]} \cup {[c |-> "Seed", s |-> s] : s \in Seeds}
Init == /\ draw \in [Seeds -> [1..ProgLen -> {0, 1}]]
        /\ prog \in [1..ProgLen -> Cmds]
        /\ pc = [w \in Worlds |-> 1]
        /\ \E s \in Seeds : rng = [w \in Worlds |-> [s |-> s, k |-> 1]]
        /\ log = [w \in Worlds |-> <<>>]
\* Private = FALSE: a generator shared with something outside the world, which takes numbers of its own (must be found)
Run(w) == /\ pc[w] <= ProgLen
          /\ LET c == prog[pc[w]] IN
             IF c.c = "Seed"
             THEN /\ rng' = [rng EXCEPT ![w] = [s |-> c.s, k |-> 1]] /\ UNCHANGED log
             ELSE /\ log' = [log EXCEPT ![w] = Append(@, draw[rng[w].s][rng[w].k])]
                  /\ rng' = [rng EXCEPT ![w].k = @ + 1]
          /\ pc' = [pc EXCEPT ![w] = @ + 1]
          /\ UNCHANGED <<draw, prog>>
Leak(w) == /\ ~Private /\ rng[w].k <= ProgLen - 1 /\ rng' = [rng EXCEPT ![w].k = @ + 1] /\ UNCHANGED <<draw, prog, pc, log>>
Next == \E w \in Worlds : Run(w) \/ Leak(w)
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
SameOutcomes == \A v, w \in Worlds : Prefix(log[v], log[w]) \/ Prefix(log[w], log[v])
\* outcomes since the last seeding are the beginning of that seed's stream
Since(w) == LET S == {i \in 1..pc[w]-1 : prog[i].c = "Seed"} IN
            IF S = {} THEN Len(log[w])
            ELSE LET m == CHOOSE i \in S : \A j \in S : j <= i IN pc[w] - 1 - m
Restarts == Private => \A w \in Worlds : LET k == Since(w)  n == Len(log[w]) IN
              \A i \in 1..k : log[w][n - k + i] = draw[rng[w].s][i]
=============================================================================
