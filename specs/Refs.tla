-------------------------------- MODULE Refs --------------------------------
(* Reference wrappers and scope callers (property P31).                      *)
(*                                                                           *)
(* ref[i] is the cell wrapper i refers to, 0 for none; cell[c] its value.    *)
(* open is the stack of scopes; entering one calls its first function,      *)
(* leaving it its second, each exactly once.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS NC,       \* cells
          NV,       \* values
          Depth     \* nested scopes
VARIABLES ref, cell, open, last
vars == <<ref, cell, open, last>>
I == {1, 2}
C == 1..NC
Other(i) == 3 - i
Fresh == MinOf((1..NV) \ {cell[c] : c \in C})
Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Bind(i, c) == ref' = [ref EXCEPT ![i] = c] /\ UNCHANGED <<cell, open>>

ToCell(i, c, op) == Bind(i, c) /\ Did(op, <<i, c>>, 0)
ToNone(i, op) == Bind(i, 0) /\ Did(op, <<i>>, 0)
Copy(i, op) == Bind(i, ref[Other(i)]) /\ Did(op, <<i>>, 0)
Write(i, op) == /\ ref[i] # 0
                /\ cell' = [cell EXCEPT ![ref[i]] = Fresh]
                /\ UNCHANGED <<ref, open>> /\ Did(op, <<i, Fresh>>, 0)
(* a cell changed behind the wrapper's back is seen through it *)
Change(c) == cell' = [cell EXCEPT ![c] = Fresh] /\ UNCHANGED <<ref, open>> /\ Did("change", <<c, Fresh>>, 0)
(* a reference obtained for a cell is that cell *)
Same(c) == UNCHANGED <<ref, cell, open>> /\ Did("same", <<c>>, TRUE)

(* the answer is the list of functions called *)
Enter(kind) ==
    /\ Len(open) < Depth
    /\ open' = Append(open, kind)
    /\ UNCHANGED <<ref, cell>>
    /\ Did("enter", <<kind>>, IF kind \in {"both", "bothNamed"} THEN <<Len(open) + 1>> ELSE <<>>)
Leave == /\ open # <<>>
         /\ open' = Front(open) /\ UNCHANGED <<ref, cell>>
         /\ Did("leave", <<>>, <<0 - Len(open)>>)

Next == \/ \E i \in I : \/ \E c \in C : \E op \in {"byReference", "byPointer", "make", "makePointer"} : ToCell(i, c, op)
                        \/ \E op \in {"new", "byNull"} : ToNone(i, op)
                        \/ \E op \in {"copyCtor", "copyAssign"} : Copy(i, op)
                        \/ \E op \in {"writeGet", "writeArrow"} : Write(i, op)
        \/ \E c \in C : Change(c) \/ Same(c)
        \/ \E kind \in {"both", "end", "bothNamed", "endNamed"} : Enter(kind)
        \/ Leave
Init == /\ ref = [i \in I |-> 0] /\ cell = [c \in C |-> c] /\ open = <<>>
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == ref \in [I -> 0..NC] /\ cell \in [C -> 1..NV] /\ Len(open) <= Depth
(* binding never touches cells; writing never rebinds *)
Apart == [][(ref' # ref) => (cell' = cell)]_vars
OneCell == [][Cardinality({c \in C : cell'[c] # cell[c]}) <= 1]_vars

Obs == <<[i \in I |-> IF ref[i] = 0 THEN 0 ELSE cell[ref[i]]], cell>>
View == <<ref, cell, open>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
