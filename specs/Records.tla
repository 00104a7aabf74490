------------------------------ MODULE Records ------------------------------
(* Copies of plain records (property P28): every PKCS#11 structure of the     *)
(* library.  A value is all fields of the record at once; value v of a        *)
(* structure differs from value w in every byte of every field.               *)
(*                                                                            *)
(* rec[i] is what place i holds: -1 nothing, 0 a record without value yet,    *)
(* otherwise the value.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, V    \* places, values
VARIABLES rec, last
vars == <<rec, last>>
I == 1..N
Here(i) == rec[i] # -1
Full(i) == rec[i] > 0
Put(i, x) == rec' = [rec EXCEPT ![i] = x]
Did(op, a) == last' = [op |-> op, a |-> a, r |-> 0]
New(i) == ~Here(i) /\ Put(i, 0) /\ Did("new", <<i>>)
(* from the standard's structure, or from its fields one by one *)
From(i, v, op) == ~Here(i) /\ Put(i, v) /\ Did(op, <<i, v>>)
Take(i, v) == Here(i) /\ Put(i, v) /\ Did("take", <<i, v>>)
CopyNew(i, j) == ~Here(i) /\ Full(j) /\ Put(i, rec[j]) /\ Did("copyNew", <<i, j>>)
CopyTo(i, j) == Here(i) /\ Full(j) /\ Put(i, rec[j]) /\ Did("copyTo", <<i, j>>)
Drop(i) == Here(i) /\ Put(i, -1) /\ Did("drop", <<i>>)
Next == \E i \in I : \/ New(i) \/ Drop(i)
                     \/ \E v \in 1..V : From(i, v, "fromParent") \/ From(i, v, "fromFields") \/ Take(i, v)
                     \/ \E j \in I : CopyNew(i, j) \/ CopyTo(i, j)
Init == rec = [i \in I |-> -1] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == rec \in [I -> -1..V]
(* a copy equals its source, and nothing else changes *)
Copies == [][last'.op \in {"copyNew", "copyTo"} => rec'[last'.a[1]] = rec[last'.a[2]]]_vars
Others == [][\A i \in I : rec'[i] # rec[i] => i = last'.a[1]]_vars
Obs == rec
Live == 0
View == <<rec>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
