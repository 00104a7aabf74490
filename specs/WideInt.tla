------------------------------ MODULE WideInt -------------------------------
(* Wide integers of a fixed number of bytes (property P13).                  *)
(*                                                                           *)
(* x[i] are the bytes of wide integer i, most significant first.             *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS B,        \* bytes of a wide integer
          Signed,   \* whether wide integers are signed
          Widths,   \* widths of machine integers in bytes
          Pats      \* bytes of machine integers, eight each; the last `w` are used
VARIABLES x, last
vars == <<x, last>>
I == {1, 2}
Val(p, w) == SubSeq(p, 9 - w, 8)
Negative(v) == v[1] >= 128
(* v as a number of n bytes; s says whether v is signed *)
Extended(v, s, n) ==
    IF n <= Len(v) THEN SubSeq(v, Len(v) - n + 1, Len(v))
    ELSE [k \in 1..n |-> IF k <= n - Len(v) THEN (IF s /\ Negative(v) THEN 255 ELSE 0)
                         ELSE v[k - (n - Len(v))]]
Not(v) == [k \in DOMAIN v |-> 255 - v[k]]
Zero == [k \in 1..B |-> 0]

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Set(op, i, s, v) == /\ x' = [x EXCEPT ![i] = Extended(v, s, B)]
                    /\ Did(op, <<i, s, v>>, 0)
Negate(i) == x' = [x EXCEPT ![i] = Not(@)] /\ Did("not", <<i>>, 0)
Reset(i) == x' = [x EXCEPT ![i] = Zero] /\ Did("reset", <<i>>, 0)
Copy(op, i, j) == x' = [x EXCEPT ![i] = x[j]] /\ Did(op, <<i, j>>, 0)
Convert(i, s, w) == UNCHANGED x /\ Did("to", <<i, s, w>>, Extended(x[i], Signed, w))

Next == \E i \in I :
    \/ \E w \in Widths, s \in BOOLEAN, p \in Pats, op \in {"new", "assign"} : Set(op, i, s, Val(p, w))
    \/ Negate(i) \/ Reset(i)
    \/ \E j \in I, op \in {"copy", "copyAssign"} : (op = "copyAssign" \/ i # j) /\ Copy(op, i, j)
    \/ \E w \in Widths, s \in BOOLEAN : Convert(i, s, w)
LongNext == \E i \in I, k \in {RandomElement(1..10)}, w \in {RandomElement(Widths)},
               s \in {RandomElement(BOOLEAN)}, p \in {RandomElement(Pats)} :
    CASE k <= 3 -> Set("assign", i, s, Val(p, w))
      [] k <= 5 -> Set("new", i, s, Val(p, w))
      [] k = 6 -> Negate(i)
      [] k = 7 -> Copy("copyAssign", i, 3 - i)
      [] OTHER -> Convert(i, s, w)
Init == /\ x = [i \in I |-> Zero]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == x \in [I -> [1..B -> 0..255]]
(* a machine integer that fits survives the way there and back *)
RoundTrip == \A w \in Widths, p \in Pats : w <= B =>
    Extended(Extended(Val(p, w), TRUE, B), Signed, w) = Val(p, w)
NotTwice == \A i \in I : Not(Not(x[i])) = x[i]
OnlyOne == [][\A i \in I : x'[i] # x[i] => last'.a[1] = i]_vars
Small == {<<0, 0, 0, 0, 0, 0, 0, 1>>, <<129, 2, 3, 4, 5, 6, 7, 8>>, <<255, 255, 255, 255, 255, 255, 255, 254>>,
          <<1, 2, 3, 4, 133, 6, 7, 128>>}

Obs == x
View == <<x>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
