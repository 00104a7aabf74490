------------------------------- MODULE Hybrid -------------------------------
(* Two hybrid vectors: inline up to Cap elements, on the heap beyond          *)
(* (property P04 and, through Live, P06).                                    *)
(*                                                                           *)
(* vec[i] is the sequence the user must see.  kind[i] is the storage the     *)
(* elements are expected to live in ("none", "inline", "heap"); it is in the *)
(* state only so that every operation is explored on every storage and at    *)
(* every switch.  Nothing observed depends on it.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Cap,      \* inline capacity
          MaxLen,   \* longest sequence explored
          NV,       \* number of element values
          Pair      \* FALSE: one vector in depth; TRUE: operations between two
VARIABLES vec, kind, last
vars == <<vec, kind, last>>
I == {1, 2}
Other(i) == 3 - i

Universe == 1..NV
Unused == Universe \ (Elems(vec[1]) \cup Elems(vec[2]))
Fresh == MinOf(Unused)
FreshN(n) == TakeMin(Unused, n)

Room(i, n) == Len(vec[i]) + n <= MaxLen
Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Set(i, s, k) == /\ vec' = [vec EXCEPT ![i] = s]
                /\ kind' = [kind EXCEPT ![i] = k]
Two(i, si, ki, sj, kj) ==
    /\ vec' = [k \in I |-> IF k = i THEN si ELSE sj]
    /\ kind' = [k \in I |-> IF k = i THEN ki ELSE kj]

(* storage after the sequence has grown / shrunk to s *)
Up(i, s) == IF kind[i] = "heap" THEN "heap" ELSE IF Len(s) > Cap THEN "heap" ELSE "inline"
Down(i, s) == IF kind[i] = "heap" THEN (IF Len(s) < Cap THEN "inline" ELSE "heap")
              ELSE IF Len(s) = 0 THEN "none" ELSE "inline"
Grown(i, s) == Set(i, s, Up(i, s))
Shrunk(i, s) == Set(i, s, Down(i, s))

Push(i, op) == /\ Room(i, 1)
               /\ Grown(i, Append(vec[i], Fresh)) /\ Did(op, <<i, Fresh>>)
PushOwn(i, p, op) == /\ Room(i, 1) /\ p < Len(vec[i])
                 /\ Grown(i, Append(vec[i], vec[i][p + 1])) /\ Did(op, <<i, p>>)
Pop(i) == /\ Set(i, IF vec[i] = <<>> THEN <<>> ELSE Front(vec[i]), kind[i])
          /\ Did("pop", <<i>>)
Ins(i, p, op) == /\ Room(i, 1)
                 /\ Grown(i, InsertOne(vec[i], p, Fresh)) /\ Did(op, <<i, p, Fresh>>)
InsOwn(i, p, q, op) == /\ Room(i, 1) /\ q < Len(vec[i])
                   /\ Grown(i, InsertOne(vec[i], p, vec[i][q + 1])) /\ Did(op, <<i, p, q>>)
InsRange(i, p, n) == /\ Room(i, n)
                     /\ Grown(i, InsertAll(vec[i], p, FreshN(n)))
                     /\ Did("insRange", <<i, p, FreshN(n)>>)
InsOther(i, p) == /\ Room(i, Len(vec[Other(i)]))
                  /\ Grown(i, InsertAll(vec[i], p, vec[Other(i)])) /\ Did("insOther", <<i, p>>)
Erase(i, p) == /\ p < Len(vec[i])
               /\ Shrunk(i, EraseRange(vec[i], p, p + 1)) /\ Did("erase", <<i, p>>)
EraseR(i, p, q) == /\ vec[i] # <<>>
                   /\ Shrunk(i, EraseRange(vec[i], p, q)) /\ Did("eraseRange", <<i, p, q>>)
Clean(i) == Set(i, <<>>, "inline") /\ Did("clean", <<i>>)
Reset(i) == Set(i, <<>>, "none") /\ Did("reset", <<i>>)
Write(i, p) == /\ p < Len(vec[i])
               /\ Set(i, [vec[i] EXCEPT ![p + 1] = Fresh], kind[i]) /\ Did("write", <<i, p, Fresh>>)
Copy(i, op) == Set(i, vec[Other(i)], kind[Other(i)]) /\ Did(op, <<i>>)
(* the driver empties the source of a move before looking at it *)
Move(i, op) == Two(i, vec[Other(i)], kind[Other(i)], <<>>, "inline") /\ Did(op, <<i>>)
Self(i, how) == Set(i, vec[i], kind[i]) /\ Did(how, <<i>>)
(* created from, or assigned, an array or a vector of n elements *)
FromArray(i, n, op) == /\ n <= Cap
                       /\ Set(i, TakeMin(Universe, n), "inline") /\ Did(op, <<i, TakeMin(Universe, n)>>)
FromVector(i, n, op) == /\ n <= MaxLen
                        /\ Set(i, TakeMin(Universe, n), "heap") /\ Did(op, <<i, TakeMin(Universe, n)>>)
New(i) == Set(i, <<>>, "none") /\ Did("new", <<i>>)

Pos(i) == 0..Len(vec[i])
Basic(i) ==
    \/ \E op \in {"push", "pushMove", "emplaceBack"} : Push(i, op)
    \/ Pop(i) \/ Clean(i) \/ Reset(i) \/ New(i)
    \/ \E n \in {0, 1} : FromVector(i, n, "newVector")
Single(i) ==
    \/ \E p \in Pos(i) : \E op \in {"ins", "insMove", "emplace"} : Ins(i, p, op)
    \/ \E p \in Pos(i) : \E n \in {0, 1, 2, Cap + 1} : n <= MaxLen /\ InsRange(i, p, n)
    \/ \E p \in Pos(i) : Erase(i, p)
    \/ \E p \in Pos(i) : \E q \in p..Len(vec[i]) : EraseR(i, p, q)
    \/ \E p \in Pos(i) : (\E k \in {"pushOwn", "emplaceBackOwn"} : PushOwn(i, p, k)) \/ Write(i, p)
    \/ \E p \in Pos(i) : \E q \in Pos(i) : \E k \in {"insOwn", "emplaceOwn"} : InsOwn(i, p, q, k)
    \/ \E n \in 0..Cap : \E op \in {"newArray", "newArrayMove", "setArray", "setArrayMove"} : FromArray(i, n, op)
    \/ \E n \in 0..(Cap + 1) : \E op \in {"newVectorMove", "setVector", "setVectorMove"} : FromVector(i, n, op)
    \/ Self(i, "selfAssign") \/ Self(i, "selfMove")
Between(i) ==
    \/ \E op \in {"copyCtor", "copyAssign", "clone"} : Copy(i, op)
    \/ \E op \in {"moveCtor", "moveAssign"} : Move(i, op)
    \/ \E p \in Pos(i) : InsOther(i, p)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)

Init == /\ vec = [i \in I |-> <<>>]
        /\ kind = [i \in I |-> "none"]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : Len(vec[i]) <= MaxLen /\ kind[i] \in {"none", "inline", "heap"}
(* inline storage never has to hold more than it can *)
Fits == \A i \in I : /\ kind[i] = "none" => vec[i] = <<>>
                     /\ kind[i] = "inline" => Len(vec[i]) <= Cap
FrameOK == [][\A i \in I :
   (last'.op \in {"erase", "eraseRange", "pop", "clean", "reset"})
      => Elems(vec'[i]) \subseteq Elems(vec[i])]_vars
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => vec'[i] = vec[i]]_vars

Obs == vec
Live == Len(vec[1]) + Len(vec[2])
View == <<vec, kind>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
