------------------------------- MODULE Owner --------------------------------
(* Owning pointers (property P11).                                           *)
(*                                                                           *)
(* own[i] is the object pointer i owns, 0 for none; val[o] is the value the  *)
(* object holds.  An object exists exactly as long as somebody owns it.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS N,        \* number of pointers
          NO,       \* number of objects that can exist at a time
          NV,       \* number of values
          Shared,   \* several pointers may own one object
          Crowds    \* numbers of further owners that come and go in one operation
VARIABLES own, val, last
vars == <<own, val, last>>
I == 1..N
Objects == 1..NO
Owned == {own[i] : i \in I} \ {0}
FreshV == MinOf((1..NV) \ {val[o] : o \in Owned})
NewObj == MinOf(Objects \ Owned)
Forget(f, w) == [o \in Objects |-> IF \E i \in I : w[i] = o THEN f[o] ELSE 0]

Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Own(w, v) == own' = w /\ val' = Forget(v, w)

(* a new object owned by pointer i only *)
Make(i, op) ==
    /\ Objects \ Owned # {}
    /\ Own([own EXCEPT ![i] = NewObj], [val EXCEPT ![NewObj] = FreshV])
    /\ Did(op, <<i, FreshV>>)
Copy(i, j, op) == /\ Shared /\ i # j
                  /\ Own([own EXCEPT ![i] = own[j]], val) /\ Did(op, <<i, j>>)
Move(i, j, op) == /\ i # j
                  /\ Own([own EXCEPT ![i] = own[j], ![j] = 0], val) /\ Did(op, <<i, j>>)
Self(i, op) == Own(own, val) /\ Did(op, <<i>>)
Drop(i, op) == Own([own EXCEPT ![i] = 0], val) /\ Did(op, <<i>>)
Write(i) == /\ own[i] # 0
            /\ Own(own, [val EXCEPT ![own[i]] = FreshV]) /\ Did("write", <<i, FreshV>>)
(* many further owners come and go; with "relay" the last of them is who keeps the object *)
Crowd(i, n, op) == Shared /\ Own(own, val) /\ Did(op, <<i, n>>)

Next == \E i \in I :
    \/ \E op \in {"newCopy", "newMove", "newLvalue", "newArgs"} : Make(i, op)
    \/ \E op \in {"clean", "new"} : Drop(i, op)
    \/ \E op \in {"selfMove"} \cup (IF Shared THEN {"selfAssign"} ELSE {}) : Self(i, op)
    \/ Write(i)
    \/ \E n \in Crowds, op \in {"crowd", "relay"} : Crowd(i, n, op)
    \/ \E j \in I : \/ \E op \in {"copyCtor", "copyLvalue", "copyAssign"} : Copy(i, j, op)
                    \/ \E op \in {"moveCtor", "moveAssign"} : Move(i, j, op)
Init == /\ own = [i \in I |-> 0]
        /\ val = [o \in Objects |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == own \in [I -> 0..NO]
(* exactly the owned objects exist *)
ExistsIffOwned == \A o \in Objects : (val[o] # 0) <=> (o \in Owned)
Exclusive == ~Shared => \A i, j \in I : (i # j /\ own[i] # 0) => own[i] # own[j]
(* an object changes only through a write and only while owned *)
Unchanged == [][\A o \in Objects :
    (val[o] # 0 /\ val'[o] # 0 /\ val'[o] # val[o]) => last'.op = "write"]_vars

Obs == [i \in I |-> IF own[i] = 0 THEN 0 ELSE val[own[i]]]
Live == Cardinality(Owned)
(* which pointers share is visible; names of objects are not *)
View == <<own, val>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
