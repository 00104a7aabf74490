-------------------------------- MODULE Runs --------------------------------
(* Two large sequences (properties P01-P05 and P07 at sizes where counters,  *)
(* capacities and offsets no longer fit small types).                        *)
(*                                                                           *)
(* The contents is kept as runs: <<v, n>> stands for v, v+1, ..., v+n-1 (all *)
(* modulo M), so a sequence of a hundred thousand elements is a few numbers. *)
(* Runs are always maximal, which makes the notation canonical; Flattens     *)
(* says that every operation on runs is the operation on the sequence.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Sizes,    \* how many elements are added or removed at once
          Starts,   \* first elements of what is added
          MaxLen,   \* longest sequence
          M,        \* elements are 0..M-1
          Ops       \* operations this container offers
VARIABLES seq, last
vars == <<seq, last>>
I == {1, 2}
Other(i) == 3 - i

RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1][2] + Total(Tail(s))
Joins(a, b) == (a[1] + a[2]) % M = b[1]
RECURSIVE Norm(_)
Norm(s) == IF s = <<>> THEN <<>>
           ELSE IF s[1][2] = 0 THEN Norm(Tail(s))
           ELSE LET t == Norm(Tail(s)) IN
                IF t # <<>> /\ Joins(s[1], t[1])
                THEN <<<<s[1][1], s[1][2] + t[1][2]>>>> \o Tail(t)
                ELSE <<s[1]>> \o t
RECURSIVE FirstN(_, _)
FirstN(s, k) == IF k = 0 \/ s = <<>> THEN <<>>
                ELSE IF s[1][2] >= k THEN <<<<s[1][1], k>>>>
                ELSE <<s[1]>> \o FirstN(Tail(s), k - s[1][2])
RECURSIVE Without(_, _)
Without(s, k) == IF k = 0 \/ s = <<>> THEN s
                 ELSE IF s[1][2] > k THEN <<<<(s[1][1] + k) % M, s[1][2] - k>>>> \o Tail(s)
                 ELSE Without(Tail(s), k - s[1][2])
RInsert(s, p, xs) == Norm(FirstN(s, p) \o xs \o Without(s, p))
RErase(s, p, q) == Norm(FirstN(s, p) \o Without(s, q))

Size(i) == Total(seq[i])
Room(i, n) == Size(i) + n <= MaxLen
Did(op, a) == /\ op \in Ops
              /\ last' = [op |-> op, a |-> a, r |-> 0]
Set(i, s) == seq' = [seq EXCEPT ![i] = s]
Both(i, si, sj) == seq' = [k \in I |-> IF k = i THEN si ELSE sj]

Append1(i, v, n) == Room(i, n) /\ Set(i, RInsert(seq[i], Size(i), <<<<v, n>>>>)) /\ Did("append", <<i, v, n>>)
(* the elements from v on, each put before the others *)
Prepend(i, v, n) == /\ Room(i, n) /\ Did("prepend", <<i, v, n>>)
                    /\ Set(i, RInsert(seq[i], 0, <<<<v, n>>>>))
Insert(i, p, v, n) == Room(i, n) /\ Set(i, RInsert(seq[i], p, <<<<v, n>>>>)) /\ Did("insert", <<i, p, v, n>>)
InsertOther(i, p) == /\ Room(i, Size(Other(i))) /\ Did("insertOther", <<i, p>>)
                     /\ Set(i, RInsert(seq[i], p, seq[Other(i)]))
Erase(i, p, n) == p + n <= Size(i) /\ Set(i, RErase(seq[i], p, p + n)) /\ Did("erase", <<i, p, n>>)
Pop(i, n) == n <= Size(i) /\ Set(i, RErase(seq[i], Size(i) - n, Size(i))) /\ Did("pop", <<i, n>>)
PopFront(i, n) == n <= Size(i) /\ Set(i, RErase(seq[i], 0, n)) /\ Did("popFront", <<i, n>>)
Reserve(i, n) == UNCHANGED seq /\ Did("reserve", <<i, n>>)
Clean(i) == Set(i, <<>>) /\ Did("clean", <<i>>)
New(i) == Set(i, <<>>) /\ Did("new", <<i>>)
CopyCtor(i) == Set(i, seq[Other(i)]) /\ Did("copyCtor", <<i>>)
CopyAssign(i) == Set(i, seq[Other(i)]) /\ Did("copyAssign", <<i>>)
MoveCtor(i) == Both(i, seq[Other(i)], <<>>) /\ Did("moveCtor", <<i>>)
MoveAssign(i) == Both(i, seq[Other(i)], <<>>) /\ Did("moveAssign", <<i>>)

Pos(i) == {p \in {0, 1, Size(i) \div 2, Size(i) - 1, Size(i)} : p \in 0..Size(i)}
Next == \E i \in I :
    \/ \E v \in Starts, n \in Sizes : Append1(i, v, n) \/ Prepend(i, v, n)
                                      \/ \E p \in Pos(i) : Insert(i, p, v, n)
    \/ \E n \in Sizes : \/ Pop(i, n) \/ PopFront(i, n) \/ Reserve(i, n)
                        \/ \E p \in Pos(i) : Erase(i, p, n)
    \/ \E p \in Pos(i) : InsertOther(i, p)
    \/ Clean(i) \/ New(i) \/ CopyCtor(i) \/ CopyAssign(i) \/ MoveCtor(i) \/ MoveAssign(i)
(* long histories: some successors drawn at random, growing more often than shrinking *)
LongNext ==
    \E i \in {RandomElement(I)}, v \in {RandomElement(Starts)},
       n \in {RandomElement(Sizes)}, d \in {RandomElement(1..3)} :
    IF d < 3
    THEN Append1(i, v, n) \/ Prepend(i, v, n) \/ (\E p \in Pos(i) : Insert(i, p, v, n)) \/ Clean(i)
    ELSE \/ Pop(i, n) \/ PopFront(i, n) \/ Reserve(i, n) \/ New(i)
         \/ \E p \in Pos(i) : Erase(i, p, n) \/ InsertOther(i, p)
         \/ CopyCtor(i) \/ CopyAssign(i) \/ MoveCtor(i) \/ MoveAssign(i)

Init == /\ seq = [i \in I |-> <<>>]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>>
           ELSE [k \in 1..s[1][2] |-> (s[1][1] + k - 1) % M] \o Flat(Tail(s))
TypeOK == \A i \in I : Size(i) <= MaxLen
Canonical == \A i \in I : /\ Norm(seq[i]) = seq[i]
                          /\ \A k \in 1..Len(seq[i]) : seq[i][k][1] \in 0..M - 1
Flattens == [][LET i == last'.a[1]
                   a == last'.a
                   s == Flat(seq[i])
                   t == Flat(seq'[i])
                   new(v, n) == [k \in 1..n |-> (v + k - 1) % M] IN
   /\ last'.op = "append" => t = s \o new(a[2], a[3])
   /\ last'.op = "prepend" => t = new(a[2], a[3]) \o s
   /\ last'.op = "insert" => t = InsertAll(s, a[2], new(a[3], a[4]))
   /\ last'.op = "insertOther" => t = InsertAll(s, a[2], Flat(seq[Other(i)]))
   /\ last'.op = "erase" => t = EraseRange(s, a[2], a[2] + a[3])
   /\ last'.op = "pop" => t = SubSeq(s, 1, Len(s) - a[2])
   /\ last'.op = "popFront" => t = SubSeq(s, a[2] + 1, Len(s))
   /\ last'.op \in {"copyCtor", "copyAssign", "moveCtor", "moveAssign"} => t = Flat(seq[Other(i)])
   /\ last'.op \notin {"moveCtor", "moveAssign"} => seq'[Other(i)] = seq[Other(i)]]_vars

Obs == seq
View == seq
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
