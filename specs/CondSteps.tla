------------------------------ MODULE CondSteps ------------------------------
(* The condition variable (property P18).  Threads wait in front of a gate    *)
(* that is open only during a notification.                                   *)
(*   n      how many threads wait (and were not let through)                  *)
(*   open   a notification is in progress                                     *)
(*   passed it has let somebody through                                       *)
(*   value  the condition some threads wait for                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Start(lockable) == [n |-> 0, open |-> FALSE, passed |-> FALSE, value |-> FALSE]
Ends(s, r) == [s |-> s, r |-> r]
Goes(s, op) == [s |-> s, op |-> op]
Through(s) == [s EXCEPT !.n = @ - 1, !.passed = TRUE]
Step(s, op, a) ==
    CASE op = "wait" -> {Goes([s EXCEPT !.n = @ + 1], "waiting")}
      [] op = "waiting" -> IF s.open THEN {Ends(Through(s), 0)} ELSE {}
      (* waiting for the condition: look at it, wait while it does not hold *)
      [] op = "waitIf" -> {Goes([s EXCEPT !.n = @ + 1], "looking")}
      [] op = "looking" -> IF s.value THEN {Ends([s EXCEPT !.n = @ - 1], 0)} ELSE {Goes(s, "waitingIf")}
      [] op = "waitingIf" -> IF s.open THEN {Goes(Through(s), "waitIf")} ELSE {}
      (* a notification lets at least one waiting thread through *)
      [] op = "notify" -> IF s.open THEN {}
                          ELSE IF s.n = 0 THEN {Ends(s, 0)}
                          ELSE {Goes([s EXCEPT !.open = TRUE, !.passed = FALSE], "closing")}
      [] op = "closing" -> IF s.passed \/ s.n = 0 THEN {Ends([s EXCEPT !.open = FALSE], 0)} ELSE {}
      [] op = "tryWait" -> {Ends(s, FALSE)} \cup (IF s.open THEN {Ends(s, TRUE)} ELSE {})
      [] op = "isWait" -> {Ends(s, s.n > 0)}
      [] op = "set" -> {Ends([s EXCEPT !.value = TRUE], 0)}
=============================================================================
