------------------------------- MODULE Holder -------------------------------
(* Two holders that contain nothing or one object of one of several          *)
(* alternatives: optional, variant and type-erased object (property P09 and, *)
(* through Live, P06).                                                       *)
(*                                                                           *)
(* held[i] = <<k, v>>: alternative k (0 = nothing) with value v.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Kinds,     \* alternatives of the holder
          Plain,     \* alternatives without a tracked life (built-in types)
          SetOps,    \* ways of storing into an existing holder
          NewOps,    \* ways of creating a holder with a value
          CopyOps,   \* ways of copying holder to holder
          CanInit,   \* the holder can create a default value in place
          CanEq,     \* the holder can be compared
          NV         \* number of values
VARIABLES held, last
vars == <<held, last>>
I == {1, 2}
Other(i) == 3 - i
Nothing == <<0, 0>>

Universe == 1..NV
Fresh == MinOf(Universe \ {held[1][2], held[2][2]})

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Set(i, h) == held' = [held EXCEPT ![i] = h]

(* storing replaces whatever was held by exactly the given alternative *)
Store(i, k, op) == Set(i, <<k, Fresh>>) /\ Did(op, <<i, k, Fresh>>, 0)
StoreOwn(i) == /\ held[i] # Nothing
               /\ Set(i, held[i]) /\ Did("setOwn", <<i>>, 0)
Init0(i) == CanInit /\ Set(i, <<1, 0>>) /\ Did("init", <<i>>, 0)
Reset(i) == Set(i, Nothing) /\ Did("reset", <<i>>, 0)
New(i) == Set(i, Nothing) /\ Did("new", <<i>>, 0)
Write(i) == /\ held[i] # Nothing
            /\ Set(i, <<held[i][1], Fresh>>) /\ Did("write", <<i, Fresh>>, 0)
Copy(i, op) == Set(i, held[Other(i)]) /\ Did(op, <<i>>, 0)
(* the driver empties the source of a move before looking at it *)
Move(i, op) == /\ held' = [k \in I |-> IF k = i THEN held[Other(i)] ELSE Nothing]
               /\ Did(op, <<i>>, 0)
SelfAssign(i) == CopyOps # {} /\ Set(i, held[i]) /\ Did("selfAssign", <<i>>, 0)
SelfMove(i) == Set(i, held[i]) /\ Did("selfMove", <<i>>, 0)
Eq(i) == CanEq /\ Set(i, held[i]) /\ Did("eq", <<i>>, held[1] = held[2])

Next == \E i \in I :
    \/ \E k \in Kinds : \E op \in SetOps \cup NewOps : Store(i, k, op)
    \/ StoreOwn(i) \/ Init0(i) \/ Reset(i) \/ New(i) \/ Write(i)
    \/ \E op \in CopyOps : Copy(i, op)
    \/ \E op \in {"moveCtor", "moveAssign"} : Move(i, op)
    \/ SelfAssign(i) \/ SelfMove(i) \/ Eq(i)
Init == /\ held = [i \in I |-> Nothing]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : held[i] = Nothing \/ held[i][1] \in Kinds
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => held'[i] = held[i]]_vars
(* the last store decides what is held *)
LastWins == [][(last'.op \in SetOps \cup NewOps) =>
                  held'[last'.a[1]] = <<last'.a[2], last'.a[3]>>]_vars

Obs == held
Live == Cardinality({i \in I : held[i] # Nothing /\ held[i][1] \notin Plain})
View == held
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
