----------------------------- MODULE QueueSteps -----------------------------
(* The queue of asynchronous events as an atomic object (property P20): a     *)
(* bounded FIFO that has to be prepared once before it accepts anything.      *)
(* An arrival that interrupts a thread is an operation of a thread of its own *)
(* that lies completely inside what it interrupted.                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* a start is a number: rotation, capacity and filling in decimal digits      *)
(* (rot*10000 + cap*100 + fill, fill = 99: not prepared yet); a million more   *)
(* means that the last thread interrupts the first one                        *)
Fill(n) == n % 100
Start(n) == LET f == Fill(n) IN
    [cap |-> ((n % 10000) \div 100), on |-> f # 99, q |-> IF f = 99 THEN <<>> ELSE [i \in 1..f |-> 90 + i]]
Step(s, op, a) ==
    CASE op = "init" -> {[s |-> [s EXCEPT !.on = TRUE], r |-> TRUE]}
      [] op = "ready" -> {[s |-> s, r |-> s.on]}
      [] op = "push" -> {IF s.on /\ Len(s.q) < s.cap THEN [s |-> [s EXCEPT !.q = Append(@, a[1])], r |-> TRUE]
                                                     ELSE [s |-> s, r |-> FALSE]}
      [] op = "pop" -> {IF s.q = <<>> THEN [s |-> s, r |-> 0] ELSE [s |-> [s EXCEPT !.q = Tail(@)], r |-> Head(s.q)]}
=============================================================================
