------------------------------- MODULE QWork -------------------------------
(***************************************************************************)
(* The asynchronous work queue of a simulator, as its users see it.        *)
(*                                                                         *)
(* Events (visible): dispatch called/returned (dc, dr), task start/end     *)
(* (s, e), finish called/returned (fc, fr), dump called/returned (xc, xr), *)
(* isFinished called/returned (pc, pr), destructor called/returned         *)
(* (zc, zr).  Hidden: a dispatched task enters the queue, the worker takes *)
(* the head of the queue, a dump discards what is queued, and a destructor *)
(* discards what is queued.                                                *)
(*                                                                         *)
(* Written as functions on a state record, so that the same definition     *)
(* judges recorded executions (QWorkTrace) and the algorithm (QWorkImpl).  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

None == 999
S0 == [pend |-> {},      \* dispatch called, task not yet queued
       queue |-> <<>>,   \* queued tasks
       cur |-> None,     \* task taken by the worker
       on |-> FALSE,     \* ... and started
       done |-> {}, gone |-> {},    \* finished; discarded
       given |-> {},     \* dispatch returned
       called |-> {},
       must |-> <<>>,    \* waiting call -> tasks it has to wait for
       at |-> <<>>,      \* waiting call -> number of tasks called when it began
       dp |-> {},        \* dump called, nothing discarded yet
       idle |-> FALSE,   \* known to be idle: a finish saw everything done, nothing was given since
       idp |-> {},       \* isFinished calls begun while idle
       quit |-> FALSE]

RangeOf(q) == {q[j] : j \in DOMAIN q}
Settled(s) == s.done \cup s.gone

Can(a, k, b, s) ==
  CASE a = "dc" -> k \notin s.called
    [] a = "dr" -> k \in s.called /\ k \notin s.pend /\ k \notin s.given
    [] a = "s"  -> s.cur = k /\ ~s.on /\ k \notin Settled(s)
    [] a = "e"  -> s.cur = k /\ s.on
    [] a = "fc" -> k \notin DOMAIN s.must
    [] a = "fr" -> k \in DOMAIN s.must /\ s.must[k] \subseteq Settled(s)
    [] a = "xc" -> k \notin s.dp
    [] a = "xr" -> k \notin s.dp
    [] a = "pc" -> k \notin DOMAIN s.must
    [] a = "pr" -> /\ k \in DOMAIN s.must
                   /\ b = 1 => s.must[k] \subseteq Settled(s)
                   /\ b = 0 => k \notin s.idp
    [] a = "zc" -> ~s.quit
    [] a = "zr" -> s.quit /\ s.cur = None /\ s.queue = <<>> /\ s.pend = {}
    [] OTHER -> FALSE          \* "stuck", "crash": no specified behaviour

Do(a, k, b, s) ==
  CASE a = "dc" -> [s EXCEPT !.pend = @ \cup {k}, !.called = @ \cup {k}, !.idle = FALSE, !.idp = {}]
    [] a = "dr" -> [s EXCEPT !.given = @ \cup {k}]
    [] a = "s"  -> [s EXCEPT !.on = TRUE]
    [] a = "e"  -> [s EXCEPT !.on = FALSE, !.cur = None, !.done = @ \cup {k}]
    [] a = "fc" -> [s EXCEPT !.must = (k :> s.given) @@ @, !.at = (k :> Cardinality(s.called)) @@ @]
    [] a = "fr" -> [s EXCEPT !.idle = @ \/ (s.called = s.must[k] /\ s.queue = <<>> /\ s.cur = None)]
    [] a = "xc" -> [s EXCEPT !.dp = @ \cup {k}]
    [] a = "xr" -> s
    [] a = "pc" -> [s EXCEPT !.must = (k :> s.given) @@ @, !.idp = IF s.idle THEN @ \cup {k} ELSE @]
    [] a = "pr" -> s
    [] a = "zc" -> [s EXCEPT !.quit = TRUE]
    [] a = "zr" -> s

\* hidden steps
Enq(k, s)  == [s EXCEPT !.pend = @ \ {k}, !.queue = Append(@, k)]
Lose(k, s) == [s EXCEPT !.pend = @ \ {k}, !.gone = @ \cup {k}]       \* given to a queue that is being destroyed
Take(s)    == [s EXCEPT !.cur = Head(s.queue), !.on = FALSE, !.queue = Tail(@)]
Drop(s)    == [s EXCEPT !.gone = @ \cup RangeOf(s.queue), !.queue = <<>>]
Dump(k, s) == [Drop(s) EXCEPT !.dp = @ \ {k}]

Hidden(s) == {Enq(k, s) : k \in s.pend}
             \cup (IF s.quit THEN {Lose(k, s) : k \in s.pend} \cup {Drop(s)} ELSE {})
             \cup (IF s.cur = None /\ s.queue # <<>> THEN {Take(s)} ELSE {})
             \cup {Dump(k, s) : k \in s.dp}
RECURSIVE Close(_)
Close(S) == LET N == S \cup UNION {Hidden(s) : s \in S} IN IF N = S THEN S ELSE Close(N)
\* all states after a visible event, from any of the states S (closed under hidden steps)
After(a, k, b, S) == {Do(a, k, b, s) : s \in {x \in Close(S) : Can(a, k, b, x)}}
=============================================================================
