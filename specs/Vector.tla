------------------------------- MODULE Vector -------------------------------
(* Two growable arrays and every public operation on them (properties P01    *)
(* and, through Live, P06).                                                  *)
(*                                                                           *)
(* vec[i] is the sequence the user must see.  cap[i] is the storage the      *)
(* implementation is expected to hold; it is in the state only so that every *)
(* operation is explored both with and without spare room.  Nothing observed *)
(* depends on it except that it is never smaller than the size.              *)
(* Positions are 0-based offsets from begin(); Len is end().                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS MaxLen,   \* longest sequence explored
          MaxCap,   \* reserve() is asked for at most this
          DefCap,   \* VECTOR_DEFAULT_SIZE the driver was built with
          NV,       \* number of element values
          Pair      \* FALSE: every operation of one vector in depth;
                    \* TRUE: two vectors and the operations between them
VARIABLES vec, cap, last
vars == <<vec, cap, last>>
I == {1, 2}
Other(i) == 3 - i

Universe == 1..NV
Unused == Universe \ (Elems(vec[1]) \cup Elems(vec[2]))
Fresh == MinOf(Unused)
FreshN(n) == TakeMin(Unused, n)

Grow(c) == IF c = 0 THEN DefCap ELSE Max2((c * 3) \div 2, c + 1)
RECURSIVE GrowTo(_, _)
GrowTo(c, n) == IF c >= n THEN c ELSE GrowTo(Grow(c), n)

Room(i, n) == Len(vec[i]) + n <= MaxLen
Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Set(i, s, c) == /\ vec' = [vec EXCEPT ![i] = s]
                /\ cap' = [cap EXCEPT ![i] = c]
Two(i, si, ci, sj, cj) ==
    /\ vec' = [k \in I |-> IF k = i THEN si ELSE sj]
    /\ cap' = [k \in I |-> IF k = i THEN ci ELSE cj]

Push(i, kind) == /\ Room(i, 1)
                 /\ Set(i, Append(vec[i], Fresh), GrowTo(cap[i], Len(vec[i]) + 1))
                 /\ Did(kind, <<i, Fresh>>)
(* pushBack of a reference to one of the vector's own elements *)
PushOwn(i, p, kind) == /\ Room(i, 1) /\ p < Len(vec[i])
                 /\ Set(i, Append(vec[i], vec[i][p + 1]), GrowTo(cap[i], Len(vec[i]) + 1))
                 /\ Did(kind, <<i, p>>)
Pop(i) == /\ Set(i, IF vec[i] = <<>> THEN <<>> ELSE Front(vec[i]), cap[i])
          /\ Did("pop", <<i>>)
Ins(i, p, kind) == /\ Room(i, 1)
                   /\ Set(i, InsertOne(vec[i], p, Fresh), GrowTo(cap[i], Len(vec[i]) + 1))
                   /\ Did(kind, <<i, p, Fresh>>)
InsOwn(i, p, q, kind) == /\ Room(i, 1) /\ q < Len(vec[i])
                   /\ Set(i, InsertOne(vec[i], p, vec[i][q + 1]), GrowTo(cap[i], Len(vec[i]) + 1))
                   /\ Did(kind, <<i, p, q>>)
RangeCap(i, n) == IF n = 0 \/ Len(vec[i]) + n <= cap[i] THEN cap[i] ELSE cap[i] + n
InsRange(i, p, n) == /\ Room(i, n)
                     /\ Set(i, InsertAll(vec[i], p, FreshN(n)), RangeCap(i, n))
                     /\ Did("insRange", <<i, p, FreshN(n)>>)
InsOther(i, p) == LET n == Len(vec[Other(i)]) IN
                  /\ Room(i, n)
                  /\ Set(i, InsertAll(vec[i], p, vec[Other(i)]), RangeCap(i, n))
                  /\ Did("insOther", <<i, p>>)
Erase(i, p) == /\ Set(i, IF p = Len(vec[i]) THEN vec[i] ELSE EraseRange(vec[i], p, p + 1), cap[i])
               /\ Did("erase", <<i, p>>)
EraseR(i, p, q) == /\ Set(i, EraseRange(vec[i], p, q), cap[i])
                   /\ Did("eraseRange", <<i, p, q>>)
Resize(i, n) == /\ Set(i, IF n <= Len(vec[i]) THEN SubSeq(vec[i], 1, n)
                          ELSE vec[i] \o Fill(n - Len(vec[i]), 0), GrowTo(cap[i], n))
                /\ Did("resize", <<i, n>>)
Reserve(i, n) == /\ Set(i, vec[i], Max2(cap[i], n))
                 /\ Did("reserve", <<i, n>>)
Clean(i) == Set(i, <<>>, cap[i]) /\ Did("clean", <<i>>)
Write(i, p) == /\ p < Len(vec[i])
               /\ Set(i, [vec[i] EXCEPT ![p + 1] = Fresh], cap[i])
               /\ Did("write", <<i, p, Fresh>>)
CopyCtor(i) == /\ Set(i, vec[Other(i)], Len(vec[Other(i)]))
               /\ Did("copyCtor", <<i>>)
(* the driver empties the source of a move before looking at it *)
MoveCtor(i) == /\ Two(i, vec[Other(i)], cap[Other(i)], <<>>, 0)
               /\ Did("moveCtor", <<i>>)
CopyAssign(i) == /\ Set(i, vec[Other(i)], Max2(cap[i], Len(vec[Other(i)])))
                 /\ Did("copyAssign", <<i>>)
MoveAssign(i) == /\ Two(i, vec[Other(i)], cap[Other(i)], <<>>, 0)
                 /\ Did("moveAssign", <<i>>)
Self(i, kind) == Set(i, vec[i], cap[i]) /\ Did(kind, <<i>>)
Clone(i) == /\ Set(i, vec[Other(i)], Len(vec[Other(i)]))
            /\ Did("clone", <<i>>)
NewSize(i, n) == Set(i, Fill(n, 0), n) /\ Did("newSize", <<i, n>>)
NewList(i, n) == /\ Set(i, TakeMin(Universe, n), n)
                 /\ Did("newList", <<i, TakeMin(Universe, n)>>)
New(i) == Set(i, <<>>, 0) /\ Did("new", <<i>>)

Pos(i) == 0..Len(vec[i])
Basic(i) ==
    \/ \E k \in {"push", "pushMove", "emplaceBack"} : Push(i, k)
    \/ Pop(i) \/ Clean(i) \/ New(i)
    \/ \E n \in {Len(vec[i]) + 1, MaxCap} : Reserve(i, n)
    \/ \E n \in 2..Min2(MaxLen, 3) : NewList(i, n)
Single(i) ==
    \/ \E p \in Pos(i) : \E k \in {"ins", "insMove", "emplace"} : Ins(i, p, k)
    \/ \E p \in Pos(i) : \E n \in {0, 1, 2} : InsRange(i, p, n)
    \/ \E p \in Pos(i) : Erase(i, p)
    \/ \E p \in Pos(i) : \E q \in p..Len(vec[i]) : EraseR(i, p, q)
    \/ \E p \in Pos(i) : (\E k \in {"pushOwn", "emplaceBackOwn"} : PushOwn(i, p, k)) \/ Write(i, p)
    \/ \E p \in Pos(i) : \E q \in Pos(i) : \E k \in {"insOwn", "emplaceOwn"} : InsOwn(i, p, q, k)
    \/ \E n \in 0..MaxLen : Resize(i, n)
    \/ \E n \in 0..Min2(MaxLen, 3) : NewSize(i, n)
    \/ Self(i, "selfAssign") \/ Self(i, "selfMove") \/ Reserve(i, Len(vec[i]))
Between(i) ==
    \/ CopyCtor(i) \/ MoveCtor(i) \/ CopyAssign(i) \/ MoveAssign(i) \/ Clone(i)
    \/ \E p \in Pos(i) : InsOther(i, p)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)

Init == /\ vec = [i \in I |-> <<>>]
        /\ cap = [i \in I |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

(* Properties of the design itself *)
TypeOK == /\ \A i \in I : Len(vec[i]) <= MaxLen /\ cap[i] \in Nat
Fits == \A i \in I : Len(vec[i]) <= cap[i]
(* every element a user sees was put there: no value appears out of nothing *)
FrameOK == [][\A i \in I :
   (last'.op \in {"erase", "eraseRange", "pop", "clean", "reserve"})
      => Elems(vec'[i]) \subseteq Elems(vec[i])]_vars
(* operations on one vector never disturb the other *)
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => vec'[i] = vec[i]]_vars

Obs == vec
LongSpec == Init /\ [][LongNext]_vars
Live == Len(vec[1]) + Len(vec[2])
View == <<vec, cap>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
