----------------------------- MODULE StaticArray -----------------------------
(* Two plain arrays of exactly N elements (P02, P06).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS N, NV
VARIABLES arr, last
vars == <<arr, last>>
I == {1, 2}
Other(i) == 3 - i
Zero == Fill(N, 0)
Ret(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Did(op, args) == Ret(op, args, 0)
Set(i, s) == arr' = [arr EXCEPT ![i] = s]

Write(i, p, v) == p < N /\ Set(i, [arr[i] EXCEPT ![p + 1] = v]) /\ Did("write", <<i, p, v>>)
Reset(i) == Set(i, Zero) /\ Did("reset", <<i>>)
New(i) == Set(i, Zero) /\ Did("new", <<i>>)
NewList(i, n) == /\ n <= N
                 /\ Set(i, [k \in 1..N |-> IF k <= n THEN k ELSE 0])
                 /\ Did("newList", <<i, [k \in 1..n |-> k]>>)
Copy(i, kind) == Set(i, arr[Other(i)]) /\ Did(kind, <<i>>)
(* the driver resets the source of a move before looking at it *)
Move(i, kind) == arr' = [k \in I |-> IF k = i THEN arr[Other(i)] ELSE Zero] /\ Did(kind, <<i>>)
Self(i, kind) == UNCHANGED arr /\ Did(kind, <<i>>)
(* from a shorter array: its elements replace the first ones *)
Small(i, kind) ==
    /\ Set(i, [k \in 1..N |-> IF k < N THEN k ELSE IF kind \in {"smallCtor", "smallMoveCtor"} THEN 0 ELSE arr[i][k]])
    /\ Did(kind, <<i>>)
(* a longer array does not fit: nothing is copied *)
Large(i, kind) ==
    /\ Set(i, IF kind = "largeCtor" THEN Zero ELSE arr[i])
    /\ Did(kind, <<i>>)
Eq(i) == UNCHANGED arr /\ Ret("eq", <<i>>, arr[1] = arr[2])
Ne(i) == UNCHANGED arr /\ Ret("ne", <<i>>, arr[1] # arr[2])
Next == \E i \in I :
    \/ \E p \in 0..(N - 1) : \E v \in 1..NV : Write(i, p, v)
    \/ Reset(i) \/ New(i) \/ Self(i, "selfAssign") \/ Self(i, "selfMove") \/ Eq(i) \/ Ne(i)
    \/ \E n \in 1..N : NewList(i, n)
    \/ \E k \in {"copyCtor", "copyAssign", "clone"} : Copy(i, k)
    \/ \E k \in {"moveCtor", "moveAssign"} : Move(i, k)
    \/ \E k \in {"smallCtor", "smallMoveCtor", "smallAssign", "smallMoveAssign"} : Small(i, k)
    \/ \E k \in {"largeCtor", "largeAssign", "largeMoveAssign"} : Large(i, k)
Init == /\ arr = [i \in I |-> Zero]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
AlwaysFull == \A i \in I : Len(arr[i]) = N
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => arr'[i] = arr[i]]_vars
Obs == arr
Live == 2 * N
View == arr
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
