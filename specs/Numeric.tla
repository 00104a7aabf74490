------------------------------ MODULE Numeric -------------------------------
(* What arithmetic on the library's integral wrapper, byte type and bit      *)
(* constants means (property P29).                                           *)
(*                                                                           *)
(* A number of a machine type is a sequence of bytes, most significant       *)
(* first, in two's complement when the type is signed.  A type is <<s, w>>:  *)
(* signed or not, and its width in bytes.  TLC's integers have 32 bits, so   *)
(* all arithmetic is long arithmetic on the bytes.                           *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Values(_),   \* the numbers of a width to use, as bytes
          Bytes        \* the second operands of byte operations
VARIABLE c
vars == <<c>>

Types == BOOLEAN \X {1, 2, 4, 8}
Negative(s, v) == s /\ v[1] >= 128
(* the number v of signedness s as a number of n bytes *)
Extended(v, s, n) ==
    IF n <= Len(v) THEN SubSeq(v, Len(v) - n + 1, Len(v))
    ELSE [k \in 1..n |-> IF k <= n - Len(v) THEN (IF Negative(s, v) THEN 255 ELSE 0)
                         ELSE v[k - (n - Len(v))]]
IsZero(v) == \A k \in DOMAIN v : v[k] = 0
Zero(n) == [k \in 1..n |-> 0]
Not(v) == [k \in DOMAIN v |-> 255 - v[k]]

RECURSIVE Sum(_, _, _)
Sum(x, y, carry) ==
    IF x = <<>> THEN <<>>
    ELSE LET n == Len(x)
             d == x[n] + y[n] + carry
         IN Append(Sum(SubSeq(x, 1, n - 1), SubSeq(y, 1, n - 1), d \div 256), d % 256)
Add(x, y) == Sum(x, y, 0)
Negated(x) == Sum(Not(x), Zero(Len(x)), 1)
Sub(x, y) == Sum(x, Not(y), 1)
(* x times one byte, modulo the width *)
RECURSIVE Scaled(_, _, _)
Scaled(x, m, carry) ==
    IF x = <<>> THEN <<>>
    ELSE LET n == Len(x)
             d == x[n] * m + carry
         IN Append(Scaled(SubSeq(x, 1, n - 1), m, d \div 256), d % 256)
(* x without its first byte and with a zero byte at the end *)
Moved(x) == Append(Tail(x), 0)
RECURSIVE Product(_, _)
Product(x, y) == IF y = <<>> THEN Zero(Len(x))
                 ELSE LET n == Len(y) IN
                      Add(Scaled(x, y[n], 0), Moved(Product(x, SubSeq(y, 1, n - 1))))
Mul(x, y) == Product(x, y)
(* unsigned division by a number that fits 22 bits *)
RECURSIVE Quotient(_, _, _)
Quotient(x, d, r) == IF x = <<>> THEN <<>>
                     ELSE LET t == r * 256 + x[1] IN <<t \div d>> \o Quotient(Tail(x), d, t % d)
RECURSIVE Natural(_)
Natural(x) == IF x = <<>> THEN 0 ELSE Natural(SubSeq(x, 1, Len(x) - 1)) * 256 + x[Len(x)]
Magnitude(s, v) == IF Negative(s, v) THEN Negated(v) ELSE v
SmallMagnitude(s, v) == LET m == Extended(Magnitude(s, v), FALSE, 9) IN
                        IsZero(SubSeq(m, 1, 6)) /\ m[7] < 64
Div(s, x, y) == LET q == Quotient(Magnitude(s, x), Natural(Magnitude(s, y)), 0) IN
                IF Negative(s, x) # Negative(s, y) THEN Negated(q) ELSE q
RECURSIVE Pow2(_)
Pow2(k) == IF k = 0 THEN 1 ELSE 2 * Pow2(k - 1)
(* bit i of v, the lowest first *)
Bit(v, i) == (v[Len(v) - i \div 8] \div Pow2(i % 8)) % 2
FromBits(n, B(_)) == [k \in 1..n |-> LET low == 8 * (n - k) IN
                        B(low) + 2 * B(low + 1) + 4 * B(low + 2) + 8 * B(low + 3) + 16 * B(low + 4)
                        + 32 * B(low + 5) + 64 * B(low + 6) + 128 * B(low + 7)]
Shl(v, n) == FromBits(Len(v), LAMBDA i : IF i < n THEN 0 ELSE Bit(v, i - n))
Shr(s, v, n) == FromBits(Len(v), LAMBDA i : IF i + n >= 8 * Len(v) THEN (IF Negative(s, v) THEN 1 ELSE 0)
                                           ELSE Bit(v, i + n))
Or(x, y) == FromBits(Len(x), LAMBDA i : IF Bit(x, i) + Bit(y, i) > 0 THEN 1 ELSE 0)
And(x, y) == FromBits(Len(x), LAMBDA i : Bit(x, i) * Bit(y, i))
Xor(x, y) == FromBits(Len(x), LAMBDA i : (Bit(x, i) + Bit(y, i)) % 2)

RECURSIVE Before(_, _)
Before(x, y) == IF x = <<>> THEN FALSE
                ELSE IF x[1] # y[1] THEN x[1] < y[1] ELSE Before(Tail(x), Tail(y))
(* order of numbers of one type: flip the sign bit, compare as unsigned *)
Flipped(s, v) == IF s THEN <<(v[1] + 128) % 256>> \o Tail(v) ELSE v
Less(s, x, y) == Before(Flipped(s, x), Flipped(s, y))

(* the number v of type <<s, n>> is also a number of type t *)
Fits(v, s, t) == LET e == Extended(v, s, 18)
                     back == Extended(Extended(v, s, t[2]), t[1], 18)
                 IN e = back

-----------------------------------------------------------------------------
Compare == {"eq", "ne", "lt", "gt", "le", "ge"}
Compute == {"add", "sub", "mul", "div", "or", "shl", "shr"}
Answer(op, s, x, y) ==
    CASE op = "eq" -> x = y
      [] op = "ne" -> x # y
      [] op = "lt" -> Less(s, x, y)
      [] op = "gt" -> Less(s, y, x)
      [] op = "le" -> ~Less(s, y, x)
      [] op = "ge" -> ~Less(s, x, y)
Result(op, s, x, y) ==
    CASE op = "add" -> Add(x, y)
      [] op = "sub" -> Sub(x, y)
      [] op = "mul" -> Mul(x, y)
      [] op = "div" -> Div(s, x, y)
      [] op = "or" -> Or(x, y)
      [] op = "shl" -> Shl(x, Natural(y))
      [] op = "shr" -> Shr(s, x, Natural(y))
(* where the language defines the operation of the machine type *)
Promoted(t) == IF t[2] < 4 THEN <<TRUE, 4>> ELSE t
NoOverflow(op, t, x, y) ==
    LET p == Promoted(t)
        n == 2 * p[2] + 1
        xx == Extended(x, t[1], n)
        yy == Extended(y, t[1], n)
        r == CASE op = "add" -> Add(xx, yy) [] op = "sub" -> Sub(xx, yy) [] op = "mul" -> Mul(xx, yy)
                [] OTHER -> Shl(xx, Natural(y))
    IN p[1] => Fits(r, TRUE, p)
Smallest(v) == v = <<128>> \o Zero(Len(v) - 1)
Defined(op, t, x, y) ==
    CASE op = "div" -> /\ ~IsZero(y) /\ SmallMagnitude(t[1], y)
                       /\ ~(t[1] /\ Smallest(x) /\ \A k \in DOMAIN y : y[k] = 255)
      [] op \in {"shl", "shr"} -> /\ IsZero(SubSeq(y, 1, Len(y) - 1)) /\ y[Len(y)] < 8 * t[2]
                                  /\ (op = "shl") => (~Negative(t[1], x) /\ NoOverflow(op, t, x, y))
      [] op = "or" -> TRUE
      [] OTHER -> NoOverflow(op, t, x, y)

(* operands: another wrapper ("me") or a machine integer of type u that      *)
(* holds the same number                                                     *)
Operands(t, y) == {<<"me", t>>} \cup {<<"int", u>> : u \in {v \in Types : Fits(y, t[1], v)}}
Amounts(t) == {Extended(<<n>>, FALSE, t[2]) : n \in {0, 1, 4 * t[2], 8 * t[2] - 2, 8 * t[2] - 1}}

Comparisons(t, x) == UNION {{[k |-> "compare", op |-> op, t |-> t, x |-> x, y |-> y, u |-> u]
    : u \in Operands(t, y), op \in Compare} : y \in Values(t[2])}
Computations(t, x) == UNION {UNION {
    {[k |-> "compute", op |-> op, t |-> t, x |-> x, y |-> y, u |-> u] : u \in Operands(t, y)}
    : y \in {y \in (IF op \in {"shl", "shr"} THEN Amounts(t) ELSE Values(t[2])) : Defined(op, t, x, y)}}
    : op \in Compute}
Conversions(t, x) ==
    {[k |-> "convert", op |-> op, t |-> t, x |-> x, y |-> <<>>, u |-> <<"int", u>>]
     : op \in {"to", "new", "assign"}, u \in Types}
    \cup {[k |-> "convert", op |-> "bool", t |-> t, x |-> x, y |-> <<>>, u |-> <<"int", t>>]}
ByteCases == UNION {{[k |-> "byte", op |-> op, t |-> <<FALSE, 1>>, x |-> <<x>>, y |-> <<y>>, u |-> <<"int", <<FALSE, 1>>>>]
    : x \in 0..255, y \in IF op \in {"shl", "shr"} THEN 0..8 ELSE IF op = "not" THEN {0} ELSE Bytes}
    : op \in {"shl", "shr", "or", "and", "xor", "not"}}
ByteResult(op, x, y) == CASE op = "shl" -> Shl(x, y[1])
                          [] op = "shr" -> Shr(FALSE, x, y[1])
                          [] op = "or" -> Or(x, y)
                          [] op = "and" -> And(x, y)
                          [] op = "xor" -> Xor(x, y)
                          [] op = "not" -> Not(x)
Constants == UNION {{[k |-> "bit", op |-> "bit", t |-> <<FALSE, w>>, x |-> <<i>>, y |-> <<>>, u |-> <<"int", <<FALSE, w>>>>]
    : i \in 0..(8 * w - 1)} : w \in {1, 2, 4, 8}}
Minimal == {[k |-> "minimal", op |-> "minimal", t |-> <<FALSE, 1>>, x |-> <<n>>, y |-> <<>>, u |-> <<"int", <<FALSE, 1>>>>]
    : n \in 1..64}
PowerOfTwo(i, w) == FromBits(w, LAMBDA b : IF b = i THEN 1 ELSE 0)
Enough(n) == CHOOSE w \in {1, 2, 4, 8} : 8 * w >= n /\ \A v \in {1, 2, 4, 8} : 8 * v >= n => v >= w

(* TLC's workers share the cases of the different first numbers *)
Init == \/ \E t \in Types, x \in UNION {Values(w) : w \in {1, 2, 4, 8}} :
             /\ Len(x) = t[2]
             /\ c = [k |-> "number", op |-> "", t |-> t, x |-> x, y |-> <<>>, u |-> <<"int", t>>]
        \/ c \in ByteCases \cup Constants \cup Minimal
Next == /\ c.k = "number"
        /\ c' \in Comparisons(c.t, c.x) \cup Computations(c.t, c.x) \cup Conversions(c.t, c.x)
Spec == Init /\ [][Next]_vars

Expected ==
    CASE c.k = "compare" -> Answer(c.op, c.t[1], c.x, c.y)
      [] c.k = "compute" -> Result(c.op, c.t[1], c.x, c.y)
      [] c.op = "bool" -> ~IsZero(c.x)
      [] c.op = "to" -> Extended(c.x, c.t[1], c.u[2][2])
      (* a machine integer of type t stored in a wrapper of type u *)
      [] c.op \in {"new", "assign"} -> Extended(c.x, c.t[1], c.u[2][2])
      [] c.k = "byte" -> ByteResult(c.op, c.x, c.y)
      [] c.k = "bit" -> PowerOfTwo(c.x[1], c.t[2])
      [] OTHER -> Enough(c.x[1])

(* laws the arithmetic has to obey, looked at once for every pair of numbers *)
Once == c.u[1] = "me" \/ c.k \notin {"compare", "compute"}
Order == (c.k = "compare" /\ Once) =>
    LET s == c.t[1] IN
    /\ (IF c.x = c.y THEN 1 ELSE 0) + (IF Less(s, c.x, c.y) THEN 1 ELSE 0) + (IF Less(s, c.y, c.x) THEN 1 ELSE 0) = 1
    /\ Answer("le", s, c.x, c.y) = (Answer("lt", s, c.x, c.y) \/ Answer("eq", s, c.x, c.y))
    /\ Answer("ge", s, c.x, c.y) = (Answer("gt", s, c.x, c.y) \/ Answer("eq", s, c.x, c.y))
Laws == (c.k = "compute" /\ Once) =>
    CASE c.op = "add" -> Expected = Add(c.y, c.x) /\ Sub(Expected, c.y) = c.x
      [] c.op = "sub" -> Add(Expected, c.y) = c.x
      [] c.op = "mul" -> Expected = Mul(c.y, c.x)
      [] c.op = "div" -> LET r == Sub(c.x, Mul(Expected, c.y)) IN
                         /\ Before(Magnitude(c.t[1], r), Magnitude(c.t[1], c.y))
                         /\ IsZero(r) \/ Negative(c.t[1], r) = Negative(c.t[1], c.x)
      [] c.op = "or" -> Expected = Or(c.y, c.x) /\ And(Expected, c.x) = c.x
      [] c.op = "shl" -> Natural(c.y) < 8 => Expected = Scaled(c.x, Pow2(Natural(c.y)), 0)
      [] OTHER -> TRUE
Shape == (c.k \in {"compute", "byte"} /\ Once) => Len(Expected) = Len(c.x)
(* TLC's own integers agree where they can hold the numbers *)
Signed(s, v) == IF Negative(s, v) THEN 0 - Natural(Negated(v)) ELSE Natural(v)
Agrees == (c.k \in {"compare", "compute"} /\ c.t[2] <= 2 /\ Once) =>
    LET x == Signed(c.t[1], c.x)
        y == Signed(c.t[1], c.y)
        m == Pow2(8 * c.t[2])
    IN CASE c.op = "lt" -> Expected = (x < y)
         [] c.op = "add" -> Natural(Expected) = (x + y) % m
         [] c.op = "sub" -> Natural(Expected) = (x - y) % m
         [] c.op = "mul" /\ x < 20000 /\ y < 20000 -> Natural(Expected) = (x * y) % m
         [] OTHER -> TRUE

Emit == (c.k # "number") => PrintT("@C" \o ToJson([op |-> c.k, a |-> <<c.op, c.t[1], c.t[2], c.x, c.y, c.u[1], c.u[2][1], c.u[2][2]>>,
                               r |-> Expected]))
=============================================================================
