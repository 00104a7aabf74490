------------------------------ MODULE InitArgs ------------------------------
(* Initialisation arguments and their default mutex callbacks (property P26). *)
(*                                                                            *)
(* args[i] is what place i holds: <<>> no object, <<0>> an object that was    *)
(* moved from, otherwise its six fields create, destroy, lock, unlock, flags  *)
(* and reserved.  A callback is 0 (missing), 1 (the library's own) or another *)
(* number (an application's).  mutex[k] is a mutex made by the library's own  *)
(* callbacks: "none", "free" or "locked".                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,        \* places for arguments
          K,        \* mutexes
          Given     \* field values applications use
VARIABLES args, mutex, last
vars == <<args, mutex, last>>
I == 1..N
OK == 0
HostMemory == 2
ArgumentsBad == 7
Default == <<1, 1, 1, 1, 2, 0>>
Here(i) == args[i] # <<>>
Full(i) == Len(args[i]) = 6
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Put(i, x) == args' = [args EXCEPT ![i] = x] /\ UNCHANGED mutex
New(i) == ~Here(i) /\ Put(i, Default) /\ Did("new", <<i>>, 0)
(* from the standard structure or from a set of callbacks, flags and reserved data *)
From(i, g, op) == ~Here(i) /\ Put(i, g) /\ Did(op, <<i>> \o g, 0)
CopyNew(i, j) == ~Here(i) /\ Full(j) /\ Put(i, args[j]) /\ Did("copyNew", <<i, j>>, 0)
CopyTo(i, j) == Here(i) /\ Full(j) /\ Put(i, args[j]) /\ Did("copyTo", <<i, j>>, 0)
Moved(i, j) == /\ args' = [args EXCEPT ![i] = args[j], ![j] = IF i = j THEN @ ELSE <<0>>]
               /\ UNCHANGED mutex
MoveNew(i, j) == ~Here(i) /\ Full(j) /\ Moved(i, j) /\ Did("moveNew", <<i, j>>, 0)
MoveTo(i, j) == Here(i) /\ Full(j) /\ Moved(i, j) /\ Did("moveTo", <<i, j>>, 0)
SetAll(i, g) == /\ Full(i)
                /\ Put(i, SubSeq(g, 1, 4) \o SubSeq(args[i], 5, 6))
                /\ Did("setCallbacks", <<i>> \o SubSeq(g, 1, 4), 0)
SetOne(i, f, g) == Full(i) /\ Put(i, [args[i] EXCEPT ![f] = g[f]]) /\ Did("setField", <<i, f, g[f]>>, 0)
Drop(i) == Here(i) /\ Put(i, <<>>) /\ Did("drop", <<i>>, 0)

Mutex(k, s) == mutex' = [mutex EXCEPT ![k] = s] /\ UNCHANGED args
Create(k, memory) == /\ mutex[k] = "none"
                     /\ Mutex(k, IF memory THEN "free" ELSE "none")
                     /\ Did("create", <<k, memory>>, IF memory THEN OK ELSE HostMemory)
Destroy(k) == mutex[k] = "free" /\ Mutex(k, "none") /\ Did("destroy", <<k>>, OK)
Lock(k) == mutex[k] = "free" /\ Mutex(k, "locked") /\ Did("lock", <<k>>, OK)
Unlock(k) == mutex[k] = "locked" /\ Mutex(k, "free") /\ Did("unlock", <<k>>, OK)
Missing(op) == UNCHANGED <<args, mutex>> /\ Did("missing", <<op>>, ArgumentsBad)

Next == \/ \E i \in I : \/ New(i) \/ Drop(i)
                        \/ \E g \in Given : \/ From(i, g, "fromStruct") \/ From(i, g, "fromParts") \/ SetAll(i, g)
                                            \/ \E f \in 1..6 : SetOne(i, f, g)
                        \/ \E j \in I : CopyNew(i, j) \/ CopyTo(i, j) \/ MoveNew(i, j) \/ MoveTo(i, j)
        \/ \E k \in 1..K : \/ \E m \in BOOLEAN : Create(k, m)
                           \/ Destroy(k) \/ Lock(k) \/ Unlock(k)
        \/ \E op \in {"create", "destroy", "lock", "unlock"} : Missing(op)
Init == /\ args = [i \in I |-> <<>>] /\ mutex = [k \in 1..K |-> "none"]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == \A i \in I : Len(args[i]) \in {0, 1, 6}
(* fields travel together: only the operations on single fields mix objects *)
Exact == [][last'.op \in {"copyNew", "copyTo", "moveNew", "moveTo"} =>
              args'[last'.a[1]] = args[last'.a[2]]]_vars
(* an operation on one object leaves the others alone *)
Others == [][\A i \in I : args'[i] # args[i] => (\/ i = last'.a[1]
                                                 \/ last'.op \in {"moveNew", "moveTo"} /\ i = last'.a[2])]_vars
Obs == [args |-> args, mutex |-> mutex]
Live == Cardinality({k \in 1..K : mutex[k] # "none"})
View == <<args, mutex>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
