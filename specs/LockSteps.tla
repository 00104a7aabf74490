----------------------------- MODULE LockSteps -----------------------------
(* Mutexes, spin locks and semaphores as atomic objects (property P16).       *)
(* Every lockable is a number of free units.  Step gives what an operation    *)
(* may do in one indivisible moment between its call and its return; an empty *)
(* set means that it has to wait.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

(* lockables: 1 mutex, 2 spin lock, 3 semaphore; the semaphore starts with n *)
Start(n) == <<1, 1, n>>
Took(s, l) == [s EXCEPT ![l] = @ - 1]
Gave(s, l) == [s EXCEPT ![l] = @ + 1]
Step(s, op, a) ==
    LET l == a[1] IN
    CASE op \in {"lock", "wait"} -> IF s[l] > 0 THEN {[s |-> Took(s, l), r |-> 0]} ELSE {}
      [] op = "try" -> {IF s[l] > 0 THEN [s |-> Took(s, l), r |-> TRUE] ELSE [s |-> s, r |-> FALSE]}
      [] op \in {"unlock", "post"} -> {[s |-> Gave(s, l), r |-> 0]}
      [] op = "value" -> {[s |-> s, r |-> s[l]]}
=============================================================================
