------------------------------ MODULE Expected ------------------------------
(* Two result-or-error values (property P10 and, through Live, the life of   *)
(* what they store).                                                         *)
(*                                                                           *)
(* held[i] = <<k, v>>: k = 0 nothing, 1 a result, 2 an error.                *)
(* Reading operations return the handler calls they made, in order:          *)
(* a sequence of <<kind, value>>.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Consumes,  \* handing a value to a handler takes it out of the holder
          DoneClears,\* done() empties the holder
          NV
VARIABLES held, last
vars == <<held, last>>
I == {1, 2}
Other(i) == 3 - i
Nothing == <<0, 0>>
Universe == 1..NV
Fresh == MinOf(Universe \ {held[1][2], held[2][2]})

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Set(i, h) == held' = [held EXCEPT ![i] = h]

Store(i, k, op) == Set(i, <<k, Fresh>>) /\ Did(op, <<i, k, Fresh>>, <<>>)
New(i) == Set(i, Nothing) /\ Did("new", <<i>>, <<>>)
Copy(i, op) == Set(i, held[Other(i)]) /\ Did(op, <<i>>, <<>>)
(* the driver empties the source of a move before looking at it *)
Move(i, op) == /\ held' = [k \in I |-> IF k = i THEN held[Other(i)] ELSE Nothing]
               /\ Did(op, <<i>>, <<>>)
Same(i, op) == Set(i, held[i]) /\ Did(op, <<i>>, <<>>)

Calls(i, ks) == IF held[i][1] \in ks THEN <<held[i]>> ELSE <<>>
(* both handlers, in either order, then done(); the handler takes the value  *)
(* or only looks at it                                                       *)
Chain(i, op) == Set(i, Nothing) /\ Did(op, <<i>>, Calls(i, {1, 2}))
(* one handler, then done() *)
Only(i, k, op) == /\ Set(i, IF DoneClears \/ (Consumes /\ held[i][1] = k) THEN Nothing ELSE held[i])
                  /\ Did(op, <<i, k>>, Calls(i, {k}))
(* one handler that only looks, without done() *)
Look(i, k) == /\ Set(i, IF Consumes /\ held[i][1] = k THEN Nothing ELSE held[i])
              /\ Did("look", <<i, k>>, Calls(i, {k}))
(* handlers called through a constant reference leave the value alone *)
Peek(i) == Set(i, held[i]) /\ Did("peek", <<i>>, Calls(i, {1, 2}))

Next == \E i \in I :
    \/ \E k \in {1, 2} : \E op \in {"newCopy", "newMove", "setCopy", "setMove", "setLvalue"} : Store(i, k, op)
    \/ \E op \in {"copyCtor", "copyAssign"} : Copy(i, op)
    \/ \E op \in {"moveCtor", "moveAssign"} : Move(i, op)
    \/ \E op \in {"selfAssign", "selfMove"} : Same(i, op)
    \/ \E op \in {"chainTake", "chainLook", "chainErrorFirst"} : Chain(i, op)
    \/ \E k \in {1, 2} : Only(i, k, "onlyTake") \/ Only(i, k, "onlyLook") \/ Look(i, k)
    \/ Peek(i) \/ New(i)
Init == /\ held = [i \in I |-> Nothing]
        /\ last = [op |-> "init", a |-> <<>>, r |-> <<>>]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : held[i] = Nothing \/ held[i][1] \in {1, 2}
(* at most one handler runs, and only with what was held *)
OneHandler == [][Len(last'.r) <= 1 /\ \A n \in DOMAIN last'.r : last'.r[n] = held[last'.a[1]]]_vars
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => held'[i] = held[i]]_vars

Obs == held
Live == Cardinality({i \in I : held[i] # Nothing})
View == held
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
