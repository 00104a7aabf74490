------------------------------- MODULE Ranges -------------------------------
(* Ranges and sequence algorithms as functions on sequences (property P14).  *)
(* Every case is one call: its arguments and what it must give.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,       \* longest sequence
          D        \* element values 1..D
VARIABLE c

SeqsUpTo(n) == UNION {[1..k -> 1..D] : k \in 0..n}
Seqs == SeqsUpTo(N)
Bytes == {0, 1, 127, 128, 255}

Reverse(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* what holds the elements *)
Holders == {"pointer", "array", "vector", "list", "iterator"}
(* the destination has room for N + 1 elements and holds zeros before *)
Filled(s) == [i \in 1..(N + 1) |-> IF i <= Len(s) THEN s[i] ELSE 0]
Count(s) == IF s = <<>> THEN 0 ELSE 1 + Len(Tail(s))
Terminated(s) == IF s = <<>> \/ Head(s) = 0 THEN 0
                 ELSE LET f == CHOOSE k \in 1..Len(s) : (k = Len(s) \/ s[k + 1] = 0) /\ \A j \in 1..k : s[j] # 0 IN f
Least(x, y) == IF x < y THEN x ELSE y
Most(x, y) == IF x > y THEN x ELSE y

Case(op, a, r) == [op |-> op, a |-> a, r |-> r]
Cases ==
    UNION {
      {Case("copy", <<h, s>>, [n |-> Len(s), to |-> Filled(s)]) : h \in Holders, s \in Seqs},
      {Case("count", <<h, s>>, Count(s)) : h \in Holders, s \in Seqs},
      {Case("each", <<h, s>>, s) : h \in Holders, s \in Seqs},
      {Case("change", <<h, s>>, [i \in 1..Len(s) |-> s[i] + 10]) : h \in Holders, s \in Seqs},
      {Case("range", <<h, s>>, s) : h \in Holders, s \in Seqs},
      {Case("crange", <<h, s>>, s) : h \in Holders, s \in Seqs},
      {Case("rrange", <<h, s>>, Reverse(s)) : h \in {"array", "vector", "list"}, s \in Seqs},
      {Case("crrange", <<h, s>>, Reverse(s)) : h \in {"array", "vector", "list"}, s \in Seqs},
      {Case("slice", <<h, s, ij[1], ij[2]>>, SubSeq(s, ij[1] + 1, ij[2])) :
            h \in {"pointer", "vector"}, s \in {x \in Seqs : Len(x) = N},
            ij \in {x \in (0..N) \X (0..N) : x[1] <= x[2]}},
      {Case("equal", <<h, s, t>>, s = t) : h \in {"pointer", "vector", "list"}, s \in Seqs, t \in Seqs},
      {Case("same", <<s, t>>, s = t) : s \in [1..3 -> {0, 128, 255}], t \in [1..3 -> {0, 128, 255}]},
      {Case("bytes", <<s>>, s) : s \in [1..3 -> Bytes]},
      {Case("cbytes", <<s>>, s) : s \in [1..3 -> Bytes]},
      {Case("byteCopy", <<s, t, n>>, [i \in 1..3 |-> IF i <= n THEN t[i] ELSE s[i]]) :
            s \in [1..3 -> {0, 7, 255}], t \in [1..3 -> Bytes], n \in 0..3},
      {Case("arrayCopy", <<s>>, s) : s \in {x \in Seqs : Len(x) = N}},
      {Case("arrayRange", <<s>>, s) : s \in {x \in Seqs : Len(x) = N}},
      {Case("length", <<s>>, Terminated(s)) : s \in UNION {[1..k -> {0, 1, -1}] : k \in 0..N}},
      {Case("maximum", <<x, y>>, Most(x, y)) : x \in -3..3, y \in -3..3},
      {Case("minimum", <<x, y>>, Least(x, y)) : x \in -3..3, y \in -3..3},
      {Case("aligned", <<al, x>>, ((x + al - 1) \div al) * al) : al \in {1, 2, 4, 8, 16}, x \in 0..40}
    }

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c

(* laws that tie the functions together *)
Lawful ==
    /\ c.op = "rrange" => Reverse(c.r) = c.a[2]
    /\ c.op = "count" => c.r = Len(c.a[2])
    /\ c.op = "copy" => SubSeq(c.r.to, 1, c.r.n) = c.a[2]
    /\ c.op = "length" => /\ c.r <= Len(c.a[1])
                          /\ \A i \in 1..c.r : c.a[1][i] # 0
                          /\ c.r < Len(c.a[1]) => c.a[1][c.r + 1] = 0
    /\ c.op = "aligned" => c.r % c.a[1] = 0 /\ c.r >= c.a[2] /\ c.r - c.a[2] < c.a[1]
Emit == PrintT("@C" \o ToJson(c))
=============================================================================
