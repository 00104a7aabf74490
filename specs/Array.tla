-------------------------------- MODULE Array --------------------------------
(* Two arrays of fixed capacity with a variable number of elements (P02,     *)
(* P06).  An operation that does not fit changes nothing: nothing is dropped *)
(* from the array, and nothing of a rejected range is kept.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Cap, NV, Pair
VARIABLES arr, last
vars == <<arr, last>>
I == {1, 2}
Other(i) == 3 - i
Universe == 1..NV
Unused == Universe \ (Elems(arr[1]) \cup Elems(arr[2]))
Fresh == MinOf(Unused)
FreshN(n) == TakeMin(Unused, n)

Fits(i, n) == Len(arr[i]) + n <= Cap
Ret(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Did(op, args) == Ret(op, args, 0)
Set(i, s) == arr' = [arr EXCEPT ![i] = s]
Two(i, si, sj) == arr' = [k \in I |-> IF k = i THEN si ELSE sj]

Push(i, kind) == /\ Set(i, IF Fits(i, 1) THEN Append(arr[i], Fresh) ELSE arr[i])
                 /\ Did(kind, <<i, Fresh>>)
PushOwn(i, p, kind) == /\ p < Len(arr[i])
                 /\ Set(i, IF Fits(i, 1) THEN Append(arr[i], arr[i][p + 1]) ELSE arr[i])
                 /\ Did(kind, <<i, p>>)
(* += of a range appends element by element as long as there is room *)
PlusRange(i, n) == /\ Set(i, arr[i] \o SubSeq(FreshN(n), 1, Min2(n, Cap - Len(arr[i]))))
                   /\ Did("plusRange", <<i, FreshN(n)>>)
Pop(i) == Set(i, IF arr[i] = <<>> THEN <<>> ELSE Front(arr[i])) /\ Did("pop", <<i>>)
Ins(i, p, kind) == /\ Set(i, IF Fits(i, 1) THEN InsertOne(arr[i], p, Fresh) ELSE arr[i])
                   /\ Did(kind, <<i, p, Fresh>>)
InsOwn(i, p, q, kind) == /\ q < Len(arr[i])
                   /\ Set(i, IF Fits(i, 1) THEN InsertOne(arr[i], p, arr[i][q + 1]) ELSE arr[i])
                   /\ Did(kind, <<i, p, q>>)
InsRange(i, p, n) == /\ Set(i, IF Fits(i, n) THEN InsertAll(arr[i], p, FreshN(n)) ELSE arr[i])
                     /\ Did("insRange", <<i, p, FreshN(n)>>)
InsOther(i, p) == /\ Set(i, IF Fits(i, Len(arr[Other(i)])) THEN InsertAll(arr[i], p, arr[Other(i)]) ELSE arr[i])
                  /\ Did("insOther", <<i, p>>)
Erase(i, p, kind) == /\ Set(i, IF p = Len(arr[i]) THEN arr[i] ELSE EraseRange(arr[i], p, p + 1))
                     /\ Did(kind, <<i, p>>)
EraseR(i, p, q, kind) == Set(i, EraseRange(arr[i], p, q)) /\ Did(kind, <<i, p, q>>)
(* positions counted from the back *)
MinusRev(i, p) == /\ p < Len(arr[i])
                  /\ Set(i, EraseRange(arr[i], Len(arr[i]) - p - 1, Len(arr[i]) - p))
                  /\ Did("minusRev", <<i, p>>)
MinusRevRange(i, p, q) == /\ Set(i, EraseRange(arr[i], Len(arr[i]) - q, Len(arr[i]) - p))
                          /\ Did("minusRevRange", <<i, p, q>>)
Clean(i, kind) == Set(i, <<>>) /\ Did(kind, <<i>>)
Write(i, p) == /\ p < Len(arr[i])
               /\ Set(i, [arr[i] EXCEPT ![p + 1] = Fresh])
               /\ Did("write", <<i, p, Fresh>>)
Copy(i, kind) == Set(i, arr[Other(i)]) /\ Did(kind, <<i>>)
Move(i, kind) == Two(i, arr[Other(i)], <<>>) /\ Did(kind, <<i>>)
Self(i, kind) == Set(i, arr[i]) /\ Did(kind, <<i>>)
New(i) == Set(i, <<>>) /\ Did("new", <<i>>)
NewCArray(i, n) == /\ n <= Cap /\ Set(i, TakeMin(Universe, n))
                   /\ Did("newCArray", <<i, TakeMin(Universe, n)>>)
(* from an array of larger capacity: all or nothing *)
Big(i, n, kind) == LET xs == TakeMin(Universe, n) IN
    /\ Set(i, IF n <= Cap THEN xs
              ELSE IF kind \in {"bigCtor", "bigMoveCtor"} THEN <<>> ELSE arr[i])
    /\ Did(kind, <<i, xs>>)
Eq(i) == UNCHANGED arr /\ Ret("eq", <<i>>, arr[1] = arr[2])
Ne(i) == UNCHANGED arr /\ Ret("ne", <<i>>, arr[1] # arr[2])

Pos(i) == 0..Len(arr[i])
Basic(i) ==
    \/ \E k \in {"push", "pushMove", "emplaceBack", "plus", "plusMove"} : Push(i, k)
    \/ Pop(i) \/ Clean(i, "clean") \/ Clean(i, "reset") \/ New(i)
    \/ \E n \in {1, 2} : NewCArray(i, n)
Single(i) ==
    \/ \E p \in Pos(i) : \E k \in {"ins", "insMove", "emplace"} : Ins(i, p, k)
    \/ \E p \in Pos(i) : \E n \in 0..3 : InsRange(i, p, n)
    \/ \E p \in Pos(i) : \E k \in {"erase", "minus"} : Erase(i, p, k)
    \/ \E p \in Pos(i) : \E q \in p..Len(arr[i]) : \E k \in {"eraseRange", "minusRange"} : EraseR(i, p, q, k)
    \/ \E p \in Pos(i) : \E q \in p..Len(arr[i]) : arr[i] # <<>> /\ MinusRevRange(i, p, q)
    \/ \E p \in Pos(i) : (\E k \in {"pushOwn", "emplaceBackOwn"} : PushOwn(i, p, k)) \/ Write(i, p) \/ MinusRev(i, p)
    \/ \E p \in Pos(i) : \E q \in Pos(i) : \E k \in {"insOwn", "emplaceOwn"} : InsOwn(i, p, q, k)
    \/ \E n \in 0..3 : PlusRange(i, n)
    \/ Self(i, "selfAssign") \/ Self(i, "selfMove")
    \/ \E n \in 0..(Cap + 2) : \E k \in {"bigCtor", "bigMoveCtor", "bigAssign", "bigMoveAssign"} : Big(i, n, k)
Between(i) ==
    \/ \E k \in {"copyCtor", "copyAssign", "clone"} : Copy(i, k)
    \/ \E k \in {"moveCtor", "moveAssign"} : Move(i, k)
    \/ \E p \in Pos(i) : InsOther(i, p) \/ Write(i, p)
    \/ Eq(i) \/ Ne(i)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)

Init == /\ arr = [i \in I |-> <<>>]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

NeverOver == \A i \in I : Len(arr[i]) <= Cap
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => arr'[i] = arr[i]]_vars
(* a rejected operation is invisible *)
AllOrNothing == [][last'.op \in {"insRange", "insOther"} =>
   \A i \in I : arr'[i] # arr[i] =>
      Len(arr'[i]) - Len(arr[i]) = (IF last'.op = "insRange" THEN Len(last'.a[3]) ELSE Len(arr[Other(i)]))]_vars

Obs == arr
Live == Len(arr[1]) + Len(arr[2])
View == arr
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
