------------------------------ MODULE Circular ------------------------------
(* Two bounded circular buffers (property P05 and, through Live, P06).       *)
(*                                                                           *)
(* q[i] is the queue the user must see.  pos[i] is the physical position of  *)
(* its first element; it is in the state only so that every operation is     *)
(* explored at every wrap position.  Nothing observed depends on it.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Cap,    \* capacity of the buffers
          NV,     \* number of element values
          Pair    \* FALSE: every operation of one buffer; TRUE: two buffers
VARIABLES q, pos, last
vars == <<q, pos, last>>
I == {1, 2}
Other(i) == 3 - i
Slots == Cap + 1

Universe == 1..NV
Unused == Universe \ (Elems(q[1]) \cup Elems(q[2]))
Fresh == MinOf(Unused)
FreshN(n) == TakeMin(Unused, n)
Full(i) == Len(q[i]) = Cap

Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Set(i, s, p) == /\ q' = [q EXCEPT ![i] = s]
                /\ pos' = [pos EXCEPT ![i] = p]
Keep(i) == Set(i, q[i], pos[i])

(* an append to a full buffer changes nothing *)
Push(i, kind) == /\ IF Full(i) THEN Keep(i) ELSE Set(i, Append(q[i], Fresh), pos[i])
                 /\ Did(kind, <<i, Fresh>>)
PushOwn(i) == /\ q[i] # <<>>
              /\ IF Full(i) THEN Keep(i) ELSE Set(i, Append(q[i], Head(q[i])), pos[i])
              /\ Did("pushOwn", <<i>>)
(* a range is appended completely or not at all *)
PushRange(i, n, kind) ==
    /\ IF Len(q[i]) + n > Cap THEN Keep(i) ELSE Set(i, q[i] \o FreshN(n), pos[i])
    /\ Did(kind, <<i, FreshN(n)>>)
Pop(i) == /\ IF q[i] = <<>> THEN Keep(i) ELSE Set(i, Tail(q[i]), (pos[i] + 1) % Slots)
          /\ Did("pop", <<i>>)
Write(i, p) == /\ p < Len(q[i])
               /\ Set(i, [q[i] EXCEPT ![p + 1] = Fresh], pos[i])
               /\ Did("write", <<i, p, Fresh>>)
Clean(i) == Set(i, <<>>, 0) /\ Did("clean", <<i>>)
New(i) == Set(i, <<>>, 0) /\ Did("new", <<i>>)
Self(i, kind) == Keep(i) /\ Did(kind, <<i>>)
Copy(i, kind) == Set(i, q[Other(i)], 0) /\ Did(kind, <<i>>)
(* the driver empties the source of a move before looking at it *)
Move(i, kind) == /\ q' = [k \in I |-> IF k = i THEN q[Other(i)] ELSE <<>>]
                 /\ pos' = [k \in I |-> 0]
                 /\ Did(kind, <<i>>)

Basic(i) == (\E k \in {"push", "pushMove", "emplaceBack"} : Push(i, k)) \/ Pop(i) \/ Clean(i)
Single(i) == \/ \E n \in 0..Min2(Cap, 3) : \E k \in {"pushRange", "pushRangeMove"} : PushRange(i, n, k)
             \/ \E p \in 0..(Cap - 1) : Write(i, p)
             \/ PushOwn(i) \/ Self(i, "selfAssign") \/ Self(i, "selfMove") \/ New(i)
Between(i) == \/ \E k \in {"copyCtor", "copyAssign"} : Copy(i, k)
              \/ \E k \in {"moveCtor", "moveAssign"} : Move(i, k)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)

Init == /\ q = [i \in I |-> <<>>]
        /\ pos = [i \in I |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
LongSpec == Init /\ [][LongNext]_vars

Bounded == \A i \in I : Len(q[i]) <= Cap /\ pos[i] \in 0..Cap
(* first in, first out: an append only extends, a removal only takes the head *)
Fifo == [][\A i \in I :
   /\ (last'.op \in {"push", "pushMove", "emplaceBack", "pushOwn", "pushRange", "pushRangeMove"})
        => SubSeq(q'[i], 1, Len(q[i])) = q[i]
   /\ (last'.op = "pop" /\ last'.a[1] = i /\ q[i] # <<>>) => q[i] = <<Head(q[i])>> \o q'[i]]_vars
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => q'[i] = q[i]]_vars

Obs == q
Live == Len(q[1]) + Len(q[2])
View == <<q, pos>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
