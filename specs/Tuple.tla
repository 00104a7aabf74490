-------------------------------- MODULE Tuple -------------------------------
(* Two tuples of three components (property P31).                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS NV,
          Both      \* both tuples are written to and made from values, or only the first
VARIABLES tup, last
vars == <<tup, last>>
I == {1, 2}
K == 1..3
Other(i) == 3 - i
(* values the other tuple does not hold *)
Free(i) == (1..NV) \ Elems(tup[Other(i)])
New3(i) == TakeMin(Free(i), 3)
Moved == 0 - 1
Zero == <<0, 0, 0>>

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Set(i, t) == tup' = [tup EXCEPT ![i] = t]

(* from constants, whose values stay, or from temporaries, which are taken *)
Make(i, op) == /\ Set(i, New3(i))
               /\ Did(op, <<i, New3(i)>>, IF op = "newMove" THEN <<Moved, Moved, Moved>> ELSE New3(i))
New(i) == Set(i, Zero) /\ Did("new", <<i>>, 0)
Copy(i, op) == Set(i, tup[Other(i)]) /\ Did(op, <<i>>, 0)
(* the driver replaces the source of a move by a new tuple; the answer is    *)
(* what was left in it                                                       *)
Move(i, op) == /\ tup' = [k \in I |-> IF k = i THEN tup[Other(i)] ELSE Zero]
               /\ Did(op, <<i>>, <<Moved, Moved, Moved>>)
Self(i) == Set(i, tup[i]) /\ Did("selfAssign", <<i>>, 0)
Write(i, k, op) == LET v == MinOf(Free(i) \ {tup[i][k]}) IN
                   Set(i, [tup[i] EXCEPT ![k] = v]) /\ Did(op, <<i, k, v>>, 0)

Next == \E i \in I :
    \/ (Both \/ i = 1) /\ \E op \in {"newCopy", "newMove"} : Make(i, op)
    \/ \E op \in {"copyCtor", "copyAssign"} : Copy(i, op)
    \/ \E op \in {"moveCtor", "moveAssign"} : Move(i, op)
    \/ New(i) \/ Self(i)
    \/ (Both \/ i = 1) /\ \E k \in K : Write(i, k, "write")
    \/ (Both \/ i = 1) /\ Write(i, 1, "writeHead")
Init == tup = [i \in I |-> Zero] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == tup \in [I -> [K -> 0..NV]]
(* one component changes in a write, and only of that tuple *)
WriteOne == [][(last'.op \in {"write", "writeHead"}) =>
    /\ tup'[Other(last'.a[1])] = tup[Other(last'.a[1])]
    /\ Cardinality({k \in K : tup'[last'.a[1]][k] # tup[last'.a[1]][k]}) = 1]_vars
Isolation == [][\A i \in I : (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => tup'[i] = tup[i]]_vars

Obs == tup
Live == 6
View == tup
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
