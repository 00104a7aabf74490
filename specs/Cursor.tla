------------------------------- MODULE Cursor -------------------------------
(* Iterators as index arithmetic (property P14).                             *)
(*                                                                           *)
(* Two iterators over N elements stand at positions 0..N (N is the end).     *)
(* The element with index x has the value x + 1.  Kinds:                     *)
(*   "forward"   position k stands for index k                               *)
(*   "reverse"   position k stands for index N - 1 - k                       *)
(*   "circular"  positions 0..N-1, stepping wraps                            *)
(*   "integer"   the position is the value itself                            *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N, K,     \* number of elements, largest offset
          Kind,
          Level     \* "random": iterators can be offset, subtracted and ordered
                    \* "both": they step both ways, "ahead": only ahead
VARIABLES p, last
vars == <<p, last>>
I == {1, 2}
Circular == Kind = "circular"
Positions == IF Circular THEN 0..(N - 1) ELSE 0..N
Elements == 0..(N - 1)
Moved(x, k) == IF Circular THEN (x + k) % N ELSE x + k
Element(x) == IF Kind = "reverse" THEN N - x ELSE IF Kind = "integer" THEN x ELSE x + 1
Stands(x) == Kind = "integer" \/ x \in Elements

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
To(i, x) == x \in Positions /\ p' = [p EXCEPT ![i] = x]

(* what an operator returns is told as the position of the returned iterator *)
Step(op, i) ==
    LET d == IF op \in {"incPre", "incPost"} THEN 1 ELSE -1
        new == Moved(p[i], d)
    IN To(i, new) /\ Did(op, <<i>>, IF op \in {"incPre", "decPre"} THEN new ELSE p[i])
(* ty is the C++ type of the offset *)
Shift(op, i, k, ty) ==
    LET new == Moved(p[i], IF op = "plusAssign" THEN k ELSE -k)
    IN To(i, new) /\ Did(op, <<i, k, ty>>, new)
Offset(op, i, k, ty) ==
    LET new == Moved(p[i], IF op = "minus" THEN -k ELSE k)
    IN new \in Positions /\ UNCHANGED p /\ Did(op, <<i, k, ty>>, new)
At(i, k, ty) ==
    LET x == Moved(p[i], k)
    IN Stands(x) /\ x \in Positions /\ UNCHANGED p /\ Did("at", <<i, k, ty>>, Element(x))
Deref(op, i) == Stands(p[i]) /\ UNCHANGED p /\ Did(op, <<i>>, Element(p[i]))
Assign(i, j) == p' = [p EXCEPT ![i] = p[j]] /\ Did("assign", <<i, j>>, 0)
Diff(i, j) == UNCHANGED p /\ Did("diff", <<i, j>>, p[i] - p[j])
Equal(i, j) == UNCHANGED p /\ Did("equal", <<i, j>>, [eq |-> p[i] = p[j], ne |-> p[i] # p[j]])
Order(i, j) == UNCHANGED p /\ Did("order", <<i, j>>,
    [lt |-> p[i] < p[j], le |-> p[i] <= p[j], gt |-> p[i] > p[j], ge |-> p[i] >= p[j]])

Types(k) == IF k < 0 THEN {"int", "long", "char"} ELSE {"int", "long", "char", "uchar", "unsigned", "size"}
Next == \E i \in I :
    \/ \E op \in {"incPre", "incPost"} : Step(op, i)
    \/ Level # "ahead" /\ \E op \in {"decPre", "decPost"} : Step(op, i)
    \/ \E op \in {"deref", "arrow"} : Deref(op, i)
    \/ \E j \in I : Assign(i, j) \/ Equal(i, j)
    \/ /\ Level = "random"
       /\ \/ \E j \in I : Diff(i, j) \/ Order(i, j)
          \/ \E k \in (-K)..K : \E ty \in Types(k) :
                \/ \E op \in {"plusAssign", "minusAssign"} : Shift(op, i, k, ty)
                \/ \E op \in {"plus", "plusLeft", "minus"} : Offset(op, i, k, ty)
                \/ At(i, k, ty)
Init == /\ p = [i \in I |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == p \in [I -> Positions]
(* laws of index arithmetic *)
Laws == \A i, j \in I :
    /\ \A k \in (-K)..K : Moved(Moved(p[i], k), -k) = p[i]
    /\ Moved(p[j], p[i] - p[j]) = p[i]
    /\ Circular => Moved(p[i], N) = p[i]
(* there and back is no step at all; only the named iterator moves *)
OnlyOne == [][\A i \in I : p'[i] # p[i] => last'.a[1] = i]_vars

Obs == p
View == p
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
