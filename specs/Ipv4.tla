-------------------------------- MODULE Ipv4 --------------------------------
(* IPv4 endpoints: texts, numbers and structures (property P15).             *)
(*                                                                           *)
(* A text is a sequence of character codes.  Numbers written with leading    *)
(* zeros are outside the specification.                                      *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS Texts,     \* texts to be parsed
          Numbers,   \* quadruples of numbers
          Ports
VARIABLES e,         \* the endpoint: <<>> when invalid, else <<a, b, c, d, port>>
          last
vars == <<e, last>>

Dot == 46
IsDigit(ch) == ch \in 48..57
(* the maximal runs between dots *)
Split(t) ==
    LET dots == {i \in 1..Len(t) : t[i] = Dot}
        bounds == {0, Len(t) + 1} \cup dots
        NextOf(i) == CHOOSE j \in bounds : j > i /\ \A k \in bounds : k > i => j <= k
        RECURSIVE From(_)
        From(i) == IF i = Len(t) + 1 THEN <<>> ELSE <<SubSeq(t, i + 1, NextOf(i) - 1)>> \o From(NextOf(i))
    IN From(0)
(* number of at most three digits, else a number too large to be one *)
RECURSIVE Number(_)
Number(f) == IF Len(f) > 3 THEN 1000
             ELSE IF f = <<>> THEN 0 ELSE 10 * Number(SubSeq(f, 1, Len(f) - 1)) + f[Len(f)] - 48
IsOctet(f) == /\ f # <<>>
              /\ \A i \in 1..Len(f) : IsDigit(f[i])
              /\ Number(f) <= 255
Valid(t) == LET f == Split(t) IN Len(f) = 4 /\ \A i \in 1..4 : IsOctet(f[i])
Parse(t) == LET f == Split(t) IN [i \in 1..4 |-> Number(f[i])]

Digits(n) == IF n < 10 THEN <<48 + n>>
             ELSE IF n < 100 THEN <<48 + n \div 10, 48 + (n % 10)>>
             ELSE <<48 + n \div 100, 48 + ((n \div 10) % 10), 48 + (n % 10)>>
Format(q) == Digits(q[1]) \o <<Dot>> \o Digits(q[2]) \o <<Dot>> \o Digits(q[3]) \o <<Dot>> \o Digits(q[4])
InRange(q) == \A i \in 1..4 : q[i] \in 0..255

FromText(t, p) == IF Valid(t) THEN Parse(t) \o <<p>> ELSE <<>>
FromNumbers(q, p) == IF InRange(q) THEN q \o <<p>> ELSE <<>>

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
(* set by assignment or construction, directly or through the structure *)
SetText(how, t, p) == /\ e' = FromText(t, p)
                      /\ Did(how, <<t, p>>, IF how \in {"set", "setAddress"} THEN Valid(t) ELSE 0)
SetNumbers(how, q, p) == /\ e' = FromNumbers(q, p)
                         /\ Did(how, <<q[1], q[2], q[3], q[4], p>>, 0)
Local(p) == e' = <<127, 0, 0, 1, p>> /\ Did("local", <<p>>, 0)
Again == e # <<>> /\ UNCHANGED e /\ Did("again", <<>>, 0)  \* formatted and parsed back
Copied == UNCHANGED e /\ Did("copied", <<>>, 0)

Next == \/ \E t \in Texts, p \in Ports, how \in {"set", "make"} : SetText(how, t, p)
        \/ \E t \in Texts, p \in Ports, how \in {"setAddress", "makeAddress"} :
                Len(t) <= 15 /\ SetText(how, t, p)
        \/ \E q \in Numbers, p \in Ports, how \in {"setNumbers", "makeNumbers"} : SetNumbers(how, q, p)
        \/ \E p \in Ports : Local(p)
        \/ Again \/ Copied
Init == e = <<>> /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == e = <<>> \/ (Len(e) = 5 /\ InRange(e))
(* writing and reading are inverse to each other *)
RoundTrip == e # <<>> => /\ Valid(Format(e)) /\ Parse(Format(e)) = SubSeq(e, 1, 4)
                         /\ Len(Format(e)) \in 7..15
Obs == IF e = <<>> THEN [ok |-> FALSE, text |-> <<>>, port |-> 0]
       ELSE [ok |-> TRUE, text |-> Format(e), port |-> e[5]]
View == e
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))

-----------------------------------------------------------------------------
(* All cases, one per state: only the first step from the initial state.     *)
(* Ch is the alphabet, all texts up to a length and all sequences of fields. *)
CONSTANTS Ch, MaxLen, Fields
(* leading zeros are outside *)
Leading(t) == \E i \in 1..(Len(t) - 1) : t[i] = 48 /\ IsDigit(t[i + 1]) /\ (i = 1 \/ ~IsDigit(t[i - 1]))
Strings == {t \in UNION {[1..k -> Ch] : k \in 0..MaxLen} : ~Leading(t)}
RECURSIVE Joined(_)
Joined(fs) == IF Len(fs) = 1 THEN fs[1] ELSE fs[1] \o <<Dot>> \o Joined(Tail(fs))
Few == {f \in Fields : Len(f) # 1 /\ Len(f) < 4}
Structured == {Joined(fs) : fs \in [1..4 -> Fields] \cup UNION {[1..k -> Few] : k \in {1, 2, 3, 5}}}
Quads == {[i \in 1..4 |-> IF i = k THEN v ELSE w] : k \in 1..4, v \in -3..300, w \in {0, 7, 108, 255}}
CaseInit == e = <<>> /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
CaseNext ==
    /\ last.op = "init"
    /\ \/ \E t \in Strings \cup Structured : SetText("set", t, 80)
       \/ \E t \in Strings : SetText("make", t, 80)
       \/ \E q \in Quads, how \in {"setNumbers", "makeNumbers"} : SetNumbers(how, q, 65535)
       \/ \E p \in {0, 1, 1023, 65535} : Local(p)
CaseSpec == CaseInit /\ [][CaseNext]_vars
EmitCase == PrintT("@C" \o ToJson([op |-> last'.op, a |-> last'.a, r |-> <<last'.r, Obs'>>]))
=============================================================================
