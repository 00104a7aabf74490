---------------------------- MODULE CounterSteps ----------------------------
(* Counters shared by threads (property P34), as atomic steps.  A counter may *)
(* count in bytes (kinds 1 and 4), which wrap.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Start(kind) == [kind |-> kind, n |-> <<0, 0>>]
Wrap(s, x) == IF s.kind \in {1, 4} THEN x % 256 ELSE x
Add(s, c, d) == [s EXCEPT !.n[c] = Wrap(s, @ + d)]
Step(s, op, a) ==
    LET c == a[1]
    IN CASE op = "inc" -> {[s |-> Add(s, c, 1), r |-> 0]}
         [] op = "dec" -> {[s |-> Add(s, c, 0 - 1), r |-> 0]}
         (* ++ ++c and -- ++c: others may come between *)
         [] op = "twice" -> {[s |-> Add(s, c, 1), op |-> "inc"]}
         [] op = "back" -> {[s |-> Add(s, c, 1), op |-> "dec"]}
         [] op = "current" -> {[s |-> s, r |-> s.n[c]]}
         (* made again from itself; given to the other one and started afresh *)
         [] op = "take" -> {[s |-> s, r |-> 0]}
         [] op = "give" -> {[s |-> [s EXCEPT !.n = [k \in 1..2 |-> IF k = c THEN 0 ELSE s.n[c]]], r |-> 0]}
=============================================================================
