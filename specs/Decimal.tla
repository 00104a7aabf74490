------------------------------ MODULE Decimal -------------------------------
(* The decimal notation of integers of every width (property P08).           *)
(*                                                                           *)
(* A number is a sequence of bytes, most significant first, in two's         *)
(* complement when signed.  TLC's own integers are 32 bits wide, so all      *)
(* arithmetic is long arithmetic on the bytes.                               *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Extra     \* additional numbers [s |-> signed, b |-> bytes]
VARIABLE c
vars == <<c>>

(* every 8 bit and every 16 bit number *)
Small == [s : BOOLEAN, b : {<<x>> : x \in 0..255} \cup {<<x, y>> : x \in 0..255, y \in 0..255}]

Negative(n) == n.s /\ n.b[1] >= 128
(* magnitude of a negative number: invert and add one *)
RECURSIVE Negated(_)
Negated(b) == IF b = <<>> THEN [b |-> <<>>, carry |-> 1]
              ELSE LET t == Negated(Tail(b))
                       x == (255 - b[1]) + t.carry
                   IN [b |-> <<x % 256>> \o t.b, carry |-> x \div 256]
Magnitude(n) == IF Negative(n) THEN Negated(n.b).b ELSE n.b

(* long division by ten: quotient bytes and remainder *)
RECURSIVE Div(_, _)
Div(b, r) == IF b = <<>> THEN [q |-> <<>>, r |-> r]
             ELSE LET x == r * 256 + b[1]
                      t == Div(Tail(b), x % 10)
                  IN [q |-> <<x \div 10>> \o t.q, r |-> t.r]
IsZero(b) == \A i \in DOMAIN b : b[i] = 0
RECURSIVE Digits(_)
Digits(b) == LET d == Div(b, 0) IN
             IF IsZero(d.q) THEN <<d.r>> ELSE Append(Digits(d.q), d.r)

Notation(n) == [minus |-> Negative(n), digits |-> Digits(Magnitude(n))]

(* the inverse: bytes of the number a digit sequence denotes *)
RECURSIVE MulAdd(_, _)
MulAdd(b, a) == IF b = <<>> THEN [b |-> <<>>, carry |-> a]
                ELSE LET t == MulAdd(Tail(b), a)
                         x == b[1] * 10 + t.carry
                     IN [b |-> <<x % 256>> \o t.b, carry |-> x \div 256]
RECURSIVE Denotes(_, _)
Denotes(ds, b) == IF ds = <<>> THEN b ELSE Denotes(Tail(ds), MulAdd(b, Head(ds)).b)

Init == c \in Small \cup Extra
Next == UNCHANGED c
Spec == Init /\ [][Next]_vars

(* what makes a notation canonical and right *)
NoLeadingZero == LET d == Notation(c).digits IN Len(d) = 1 \/ d[1] # 0
OnlyDigits == LET d == Notation(c).digits IN \A i \in DOMAIN d : d[i] \in 0..9
Faithful == Denotes(Notation(c).digits, [i \in DOMAIN c.b |-> 0]) = Magnitude(c)
NoMinusZero == Notation(c).minus => Notation(c).digits # <<0>>

Emit == PrintT("@C" \o ToJson([op |-> "dec", a |-> <<c.s, c.b>>, r |-> Notation(c)]))
=============================================================================
