------------------------------ MODULE QueueRuns -----------------------------
(* Event queues of different capacities used by one thread (property P20):    *)
(* bounded, first in first out, of no use before they are prepared.           *)
(* Caps[q] is how many events queue q can hold, n[q] how many it holds.  The   *)
(* driver numbers the events of each queue as it puts them in; a taken event  *)
(* counts only if it is the one that has to come next.                        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Caps, Steps
VARIABLES n, ready, last
vars == <<n, ready, last>>
Q == DOMAIN Caps
Min(a, b) == IF a < b THEN a ELSE b
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Room(q) == IF ready[q] THEN Caps[q] - n[q] ELSE 0
(* also again: what is queued stays *)
Prepare(q) == ready' = [ready EXCEPT ![q] = TRUE] /\ Did("prepare", <<q>>, TRUE) /\ UNCHANGED n
(* k events pushed one after another: how many were accepted *)
Push(q, k) == LET m == Min(k, Room(q)) IN
              n' = [n EXCEPT ![q] = @ + m] /\ Did("push", <<q, k>>, m) /\ UNCHANGED ready
(* k attempts to take one: how many came, each the oldest at the time *)
Pop(q, k) == LET m == Min(k, n[q]) IN
             n' = [n EXCEPT ![q] = @ - m] /\ Did("pop", <<q, k>>, m) /\ UNCHANGED ready
Next == \E q \in Q : \/ Prepare(q)
                     \/ \E k \in Steps : Push(q, k) \/ Pop(q, k)
(* long histories: less preparing *)
LongNext == \E q \in Q : \/ (~ready[q] \/ n[q] > Caps[q] \div 2) /\ Prepare(q)
                         \/ \E k \in Steps : Push(q, k) \/ Pop(q, k)
Init == /\ n = [q \in Q |-> 0] /\ ready = [q \in Q |-> FALSE]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == \A q \in Q : n[q] \in 0..Caps[q] /\ (n[q] > 0 => ready[q])
(* what is accepted comes out: nothing is lost or invented *)
Conserved == [][\A q \in Q : n'[q] - n[q] = (IF last'.a[1] # q \/ last'.op = "prepare" THEN 0
                                             ELSE IF last'.op = "push" THEN last'.r ELSE -last'.r)]_vars
StaysReady == [][\A q \in Q : ready[q] => ready'[q]]_vars
Obs == ready
Live == 0
View == <<n, ready>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
