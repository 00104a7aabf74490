-------------------------------- MODULE List --------------------------------
(* Two doubly linked lists (P03, P06).  Positions are numbers of elements    *)
(* from the front; Len is the end position.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS MaxLen, NV, Pair
VARIABLES lst, last
vars == <<lst, last>>
I == {1, 2}
Other(i) == 3 - i
Universe == 1..NV
Unused == Universe \ (Elems(lst[1]) \cup Elems(lst[2]))
Fresh == MinOf(Unused)
FreshN(n) == TakeMin(Unused, n)
Room(i, n) == Len(lst[i]) + n <= MaxLen
Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Set(i, s) == lst' = [lst EXCEPT ![i] = s]
Two(i, si, sj) == lst' = [k \in I |-> IF k = i THEN si ELSE sj]

PushBack(i, kind) == Room(i, 1) /\ Set(i, Append(lst[i], Fresh)) /\ Did(kind, <<i, Fresh>>)
PushFront(i, kind) == Room(i, 1) /\ Set(i, <<Fresh>> \o lst[i]) /\ Did(kind, <<i, Fresh>>)
PushOwn(i, p, kind) == /\ Room(i, 1) /\ p < Len(lst[i])
                 /\ Set(i, Append(lst[i], lst[i][p + 1])) /\ Did(kind, <<i, p>>)
PlusRange(i, n) == Room(i, n) /\ Set(i, lst[i] \o FreshN(n)) /\ Did("plusRange", <<i, FreshN(n)>>)
PopBack(i) == Set(i, IF lst[i] = <<>> THEN <<>> ELSE Front(lst[i])) /\ Did("pop", <<i>>)
PopFront(i) == Set(i, IF lst[i] = <<>> THEN <<>> ELSE Tail(lst[i])) /\ Did("popFront", <<i>>)
Ins(i, p, kind) == Room(i, 1) /\ Set(i, InsertOne(lst[i], p, Fresh)) /\ Did(kind, <<i, p, Fresh>>)
InsOwn(i, p, q, kind) == /\ Room(i, 1) /\ q < Len(lst[i])
                   /\ Set(i, InsertOne(lst[i], p, lst[i][q + 1])) /\ Did(kind, <<i, p, q>>)
InsRange(i, p, n) == Room(i, n) /\ Set(i, InsertAll(lst[i], p, FreshN(n))) /\ Did("insRange", <<i, p, FreshN(n)>>)
InsOther(i, p) == /\ Room(i, Len(lst[Other(i)]))
                  /\ Set(i, InsertAll(lst[i], p, lst[Other(i)])) /\ Did("insOther", <<i, p>>)
Erase(i, p, kind) == p < Len(lst[i]) /\ Set(i, EraseRange(lst[i], p, p + 1)) /\ Did(kind, <<i, p>>)
EraseR(i, p, q, kind) == Set(i, EraseRange(lst[i], p, q)) /\ Did(kind, <<i, p, q>>)
Clean(i) == Set(i, <<>>) /\ Did("clean", <<i>>)
Write(i, p) == p < Len(lst[i]) /\ Set(i, [lst[i] EXCEPT ![p + 1] = Fresh]) /\ Did("write", <<i, p, Fresh>>)
Copy(i, kind) == Set(i, lst[Other(i)]) /\ Did(kind, <<i>>)
Move(i, kind) == Two(i, lst[Other(i)], <<>>) /\ Did(kind, <<i>>)
Self(i, kind) == Set(i, lst[i]) /\ Did(kind, <<i>>)
New(i) == Set(i, <<>>) /\ Did("new", <<i>>)
NewList(i, n) == Room(i, n - Len(lst[i])) /\ Set(i, TakeMin(Universe, n)) /\ Did("newList", <<i, TakeMin(Universe, n)>>)
(* an iterator stays on its element while others are inserted and erased:    *)
(* take an iterator to p, erase q, insert a fresh element before p, read it  *)
Stable(i, p, q) == /\ p < Len(lst[i]) /\ q < Len(lst[i]) /\ p # q
                   /\ LET s == EraseRange(lst[i], q, q + 1)
                          p2 == IF q < p THEN p - 1 ELSE p
                      IN Set(i, InsertOne(s, p2, Fresh))
                   /\ last' = [op |-> "stable", a |-> <<i, p, q, Fresh>>, r |-> lst[i][p + 1]]

Pos(i) == 0..Len(lst[i])
Basic(i) ==
    \/ \E k \in {"push", "pushMove", "emplaceBack", "plus", "plusMove"} : PushBack(i, k)
    \/ \E k \in {"pushFront", "pushFrontMove", "emplaceFront"} : PushFront(i, k)
    \/ PopBack(i) \/ PopFront(i) \/ Clean(i) \/ New(i)
    \/ \E n \in {2, 3} : NewList(i, n)
Single(i) ==
    \/ \E p \in Pos(i) : \E k \in {"ins", "insMove", "emplace"} : Ins(i, p, k)
    \/ \E p \in Pos(i) : \E n \in 0..2 : InsRange(i, p, n)
    \/ \E p \in Pos(i) : \E k \in {"erase", "minus"} : Erase(i, p, k)
    \/ \E p \in Pos(i) : \E q \in p..Len(lst[i]) : \E k \in {"eraseRange", "minusRange"} : EraseR(i, p, q, k)
    \/ \E p \in Pos(i) : (\E k \in {"pushOwn", "emplaceBackOwn"} : PushOwn(i, p, k)) \/ Write(i, p)
    \/ \E p \in Pos(i) : \E q \in Pos(i) : (\E k \in {"insOwn", "emplaceOwn"} : InsOwn(i, p, q, k)) \/ Stable(i, p, q)
    \/ \E n \in 0..2 : PlusRange(i, n)
    \/ Self(i, "selfAssign") \/ Self(i, "selfMove")
Between(i) ==
    \/ \E k \in {"copyCtor", "copyAssign", "clone"} : Copy(i, k)
    \/ \E k \in {"moveCtor", "moveAssign"} : Move(i, k)
    \/ \E p \in Pos(i) : InsOther(i, p)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)
Init == /\ lst = [i \in I |-> <<>>]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : Len(lst[i]) <= MaxLen
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => lst'[i] = lst[i]]_vars

Obs == lst
Live == Len(lst[1]) + Len(lst[2])
View == lst
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
