------------------------------ MODULE RegQueues -----------------------------
(* The five event queues behind the registrar (property P21): bounded, first  *)
(* in first out, independent of each other.  Cap[q] is how many events queue  *)
(* q can hold, n[q] how many it holds; the driver numbers the events of each  *)
(* queue as it puts them in, a taken event is reported relative to the one    *)
(* that has to come next.                                                     *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Caps, Steps
VARIABLES n, last
vars == <<n, last>>
Q == DOMAIN Caps
Min(a, b) == IF a < b THEN a ELSE b
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
(* k events pushed one after another: how many were accepted *)
Push(q, k) == LET m == Min(k, Caps[q] - n[q]) IN n' = [n EXCEPT ![q] = @ + m] /\ Did("push", <<q, k>>, m)
(* k attempts to take one: how many came, each the oldest at the time *)
Pop(q, k) == LET m == Min(k, n[q]) IN n' = [n EXCEPT ![q] = @ - m] /\ Did("pop", <<q, k>>, m)
Clear == n' = [q \in Q |-> 0] /\ Did("clear", <<>>, 0)
Next == Clear \/ \E q \in Q, k \in Steps : Push(q, k) \/ Pop(q, k)
LongNext == \/ \E q \in Q, k \in Steps : Push(q, k) \/ Pop(q, k)
            \/ (\E q \in Q : n[q] > Caps[q] \div 2) /\ Clear
Init == n = [q \in Q |-> 0] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == \A q \in Q : n[q] \in 0..Caps[q]
Independent == [][last'.op # "clear" => \A q \in Q : q # last'.a[1] => n'[q] = n[q]]_vars
Obs == 0
Live == 0
View == n
=============================================================================
