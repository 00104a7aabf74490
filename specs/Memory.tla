------------------------------- MODULE Memory -------------------------------
(* What the allocators hand out and take back (property P30).                *)
(*                                                                           *)
(* slot[i] = <<kind, values>>: nothing, one object, an array of constructed  *)
(* objects, room in which the user makes objects, an array of raw elements   *)
(* (written by the user), or a block of raw bytes taken from one of the base *)
(* allocators.  Every slot in use is one block of memory.  Each allocation   *)
(* may fail.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS MaxN,     \* elements in an array
          NV        \* values
VARIABLES slot, last
vars == <<slot, last>>
I == {1, 2}
Empty == <<"none", <<>>>>
Values == 1..NV
Used == UNION {Elems(slot[i][2]) : i \in I}
Fresh == MinOf(Values \ Used)
FreshN(n) == TakeMin(Values \ Used, n)
Kind(i) == slot[i][1]

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Set(i, s) == slot' = [slot EXCEPT ![i] = s]

(* one object: made from nothing, from a constant, from a temporary, from    *)
(* arguments.  The answer: was it made, and what is left of the source.      *)
Moved == 0 - 1
New(i, how, fail) ==
    /\ Kind(i) = "none"
    /\ IF fail THEN Set(i, Empty) ELSE Set(i, <<"object", <<IF how = "default" THEN 0 ELSE Fresh>>>>)
    /\ Did("new", <<i, how, Fresh, fail>>,
           <<~fail, IF how = "move" /\ ~fail THEN Moved ELSE Fresh>>)
(* afterwards the pointer is null *)
Destroy(i) == Kind(i) = "object" /\ Set(i, Empty) /\ Did("destroy", <<i>>, TRUE)
(* n objects, each made from the same arguments *)
NewArray(i, n, fail) ==
    /\ Kind(i) = "none"
    /\ Set(i, IF fail THEN Empty ELSE <<"array", [k \in 1..n |-> Fresh]>>)
    /\ Did("newArray", <<i, n, Fresh, fail>>, ~fail)
DestroyArray(i) == Kind(i) = "array" /\ Set(i, Empty) /\ Did("destroyArray", <<i>>, TRUE)

(* room for MaxN objects, of which the user makes some, one after another;   *)
(* the array is then destroyed with as many as there are, also with none     *)
Room(i, fail) ==
    /\ Kind(i) = "none"
    /\ Set(i, IF fail THEN Empty ELSE <<"room", <<>>>>)
    /\ Did("room", <<i, MaxN, fail>>, ~fail)
Build(i) ==
    /\ Kind(i) = "room" /\ Len(slot[i][2]) < MaxN
    /\ Set(i, <<"room", Append(slot[i][2], Fresh)>>)
    /\ Did("build", <<i, Fresh>>, 0)
DestroyRoom(i) == Kind(i) = "room" /\ Set(i, Empty) /\ Did("destroyArray", <<i>>, TRUE)

(* memory only: the user fills it *)
Raw(i, kind, via, n, fail) ==
    /\ Kind(i) = "none"
    /\ Set(i, IF fail THEN Empty ELSE <<kind, FreshN(n)>>)
    /\ Did("raw", <<i, via, FreshN(n), fail>>, ~fail)
(* the common part stays, the rest is filled; a failure changes nothing *)
Again(i, kind, via, n, fail) ==
    /\ Kind(i) = kind
    /\ LET old == slot[i][2]
           kept == SubSeq(old, 1, IF n < Len(old) THEN n ELSE Len(old))
           more == FreshN(n - Len(kept))
       IN /\ Set(i, IF fail THEN slot[i] ELSE <<kind, kept \o more>>)
          /\ Did("again", <<i, via, n, more, fail>>, ~fail)
Free(i, kind, via) == Kind(i) = kind /\ Set(i, Empty) /\ Did("free", <<i, via>>, 0)
Bases == {"malloc", "proxy", "default"}
(* 2^e + d bytes or elements when there is no such memory: nothing is given, *)
(* nothing changes and the system is not asked for less than all of them     *)
Huge(i, via, e, d) ==
    /\ i = 1 /\ slot[2] = Empty
    /\ \/ Kind(i) = "none"
       \/ Kind(i) = "elements" /\ via = "array"
       \/ Kind(i) = "bytes" /\ via \in Bases
    /\ UNCHANGED slot
    /\ Did("huge", <<i, via, e, d>>, <<FALSE, TRUE>>)

(* storage of a given alignment holds an object made from a value; the       *)
(* storage does not destroy it, its user does                                *)
Aligned(n) == UNCHANGED slot /\ Did("aligned", <<n, Fresh>>, <<TRUE, Fresh>>)
(* the largest size is that of the base, whoever is asked *)
Largest(via) == UNCHANGED slot /\ Did("largest", <<via>>, TRUE)

Next == \E i \in I :
    \/ \E how \in {"default", "copy", "move", "args"}, fail \in BOOLEAN : New(i, how, fail)
    \/ Destroy(i) \/ DestroyArray(i)
    \/ (\E fail \in BOOLEAN : Room(i, fail)) \/ Build(i) \/ DestroyRoom(i)
    \/ \E n \in 1..MaxN, fail \in BOOLEAN :
        \/ NewArray(i, n, fail)
        \/ Raw(i, "elements", "array", n, fail) \/ Again(i, "elements", "array", n, fail)
        \/ \E via \in Bases : Raw(i, "bytes", via, n, fail) \/ Again(i, "bytes", via, n, fail)
    \/ Free(i, "elements", "array") \/ \E via \in Bases : Free(i, "bytes", via)
    \/ \E n \in {1, 4, 16, 64, 256, 1024} : Aligned(n)
    \/ \E via \in Bases : Largest(via)
    \/ \E via \in Bases \cup {"array", "made"}, e \in {16, 30, 31, 32, 40, 61, 62, 63}, d \in {0, 1} : Huge(i, via, e, d)
Init == slot = [i \in I |-> Empty] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : slot[i] = Empty \/ (Kind(i) = "room" /\ Len(slot[i][2]) \in 0..MaxN) \/ (Kind(i) \in {"object", "array", "elements", "bytes"} /\ Len(slot[i][2]) \in 1..MaxN)
(* a failed request changes nothing and never takes the source *)
FailureChangesNothing == [][(last'.op \in {"new", "newArray", "room", "raw", "again"} /\ last'.a[Len(last'.a)] = TRUE) =>
                            (slot' = slot /\ (last'.op = "new" => last'.r[2] # Moved))]_vars
(* growing and shrinking keep the common part *)
CommonPart == [][last'.op = "again" =>
    LET i == last'.a[1] IN
    \A k \in DOMAIN slot[i][2] \cap DOMAIN slot'[i][2] : slot'[i][2][k] = slot[i][2][k]]_vars
OnlyOne == [][Cardinality({i \in I : slot'[i] # slot[i]}) <= 1]_vars

Blocks == Cardinality({i \in I : slot[i] # Empty})
Obs == <<[i \in I |-> slot[i][2]], Blocks>>
Objects(i) == IF Kind(i) \in {"object", "array", "room"} THEN Len(slot[i][2]) ELSE 0
Live == Objects(1) + Objects(2)
View == slot
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
