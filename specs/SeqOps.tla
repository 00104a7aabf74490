------------------------------- MODULE SeqOps -------------------------------
(* Pure operators on sequences shared by the container specifications.       *)
EXTENDS Integers, Sequences, FiniteSets

InsertAll(s, p, xs) == SubSeq(s, 1, p) \o xs \o SubSeq(s, p + 1, Len(s))
InsertOne(s, p, x)  == InsertAll(s, p, <<x>>)
EraseRange(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Front(s)            == SubSeq(s, 1, Len(s) - 1)
Fill(n, x)          == [k \in 1..n |-> x]
Elems(s)            == {s[k] : k \in 1..Len(s)}
Max2(x, y)          == IF x > y THEN x ELSE y
Min2(x, y)          == IF x < y THEN x ELSE y
Rev(s)              == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
MinOf(S)            == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE TakeMin(_, _)
(* the n smallest members of S, ascending *)
TakeMin(S, n) == IF n = 0 \/ S = {} THEN <<>>
                 ELSE <<MinOf(S)>> \o TakeMin(S \ {MinOf(S)}, n - 1)
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
=============================================================================
