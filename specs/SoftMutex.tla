------------------------------ MODULE SoftMutex ------------------------------
(* The software module's mutex objects over an application's callbacks        *)
(* (property P27).                                                            *)
(*                                                                            *)
(* obj[i] is what place i holds: "none" no object, "empty" an object without  *)
(* mutex (moved from, destroyed or never created), otherwise the mutex, which *)
(* is "free" or "locked".  A mutex stays with the callbacks it was made with: *)
(* cb[i] is their number, 0 for the stand-ins of a default object.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, C    \* places, sets of callbacks
VARIABLES obj, cb, last
vars == <<obj, cb, last>>
I == 1..N
OK == 0
ArgumentsBad == 7
Here(i) == obj[i] # "none"
Has(i) == obj[i] \in {"free", "locked"}
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Put(i, x, k) == obj' = [obj EXCEPT ![i] = x] /\ cb' = [cb EXCEPT ![i] = k]
New(i) == ~Here(i) /\ Put(i, "empty", 0) /\ Did("new", <<i>>, OK)
(* made with callbacks; creation fails with a code when asked to *)
Make(i, k, code) == /\ ~Here(i)
                    /\ Put(i, IF code = OK THEN "free" ELSE "empty", IF code = OK THEN k ELSE 0)
                    /\ Did("make", <<i, k, code>>, code)
(* without callback number `w` nothing is made *)
Incomplete(i, k, w) == ~Here(i) /\ Put(i, "empty", 0) /\ Did("incomplete", <<i, k, w>>, ArgumentsBad)
Lock(i, code) == /\ obj[i] = "free"
                 /\ Put(i, IF code = OK THEN "locked" ELSE "free", cb[i])
                 /\ Did("lock", <<i, code>>, code)
Unlock(i, code) == /\ obj[i] = "locked"
                   /\ Put(i, IF code = OK THEN "free" ELSE "locked", cb[i])
                   /\ Did("unlock", <<i, code>>, code)
(* never while it is locked *)
Destroy(i) == obj[i] = "free" /\ Put(i, "empty", 0) /\ Did("destroy", <<i>>, OK)
DestroyAgain(i) == obj[i] = "empty" /\ UNCHANGED <<obj, cb>> /\ Did("destroyAgain", <<i>>, OK)
Drop(i) == Here(i) /\ obj[i] # "locked" /\ Put(i, "none", 0) /\ Did("drop", <<i>>, OK)
Moved(i, j) == IF i = j THEN UNCHANGED <<obj, cb>>
               ELSE /\ obj' = [obj EXCEPT ![i] = obj[j], ![j] = "empty"]
                    /\ cb' = [cb EXCEPT ![i] = cb[j], ![j] = 0]
MoveNew(i, j) == ~Here(i) /\ Here(j) /\ Moved(i, j) /\ Did("moveNew", <<i, j>>, OK)
MoveTo(i, j) == /\ Here(i) /\ Here(j) /\ (i = j \/ obj[i] # "locked")
                /\ Moved(i, j) /\ Did("moveTo", <<i, j>>, OK)
Next == \E i \in I :
    \/ New(i) \/ Destroy(i) \/ DestroyAgain(i) \/ Drop(i)
    \/ \E k \in 1..C : (\E code \in {0, 2} : Make(i, k, code)) \/ (\E w \in 1..4 : Incomplete(i, k, w))
    \/ \E code \in {0, 5} : Lock(i, code) \/ Unlock(i, code)
    \/ \E j \in I : MoveNew(i, j) \/ MoveTo(i, j)
Init == /\ obj = [i \in I |-> "none"] /\ cb = [i \in I |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in I : (cb[i] # 0) <=> Has(i)
Mutexes(k) == Cardinality({i \in I : cb[i] = k})
Locked(k) == Cardinality({i \in I : cb[i] = k /\ obj[i] = "locked"})
(* moving neither makes nor ends mutexes, except the one that is replaced *)
Balanced == [][\A k \in 1..C : Mutexes(k)' # Mutexes(k) =>
                 (last'.op \in {"make", "destroy", "drop"} \/ last'.op = "moveTo")]_vars
Obs == [obj |-> obj, alive |-> [k \in 1..C |-> Mutexes(k)], locked |-> [k \in 1..C |-> Locked(k)], stray |-> 0]
Live == 0
View == <<obj, cb>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
