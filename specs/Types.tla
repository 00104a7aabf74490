------------------------------- MODULE Types -------------------------------
(* The library's compile-time functions on types (property P33).            *)
(*                                                                           *)
(* A type is built from a base type by const, volatile, pointers and at last *)
(* a reference:  [base, cv, ref],  cv[1] the qualifiers of the base and      *)
(* cv[k + 1] those of the k-th pointer to it, ref one of "", "&", "&&".      *)
(* Its text is its C++ spelling with dots for blanks.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS Depth,    \* pointers in a type
          MaxList   \* types in a list
VARIABLE c

Q == SUBSET {"const", "volatile"}
Refs == {"", "&", "&&"}
RECURSIVE Quals(_)
Quals(n) == IF n = 0 THEN {<<q>> : q \in Q} ELSE {Append(s, q) : s \in Quals(n - 1), q \in Q}
Bare == UNION {[base : {"int", "A"}, cv : Quals(n), ref : {""}] : n \in 0..Depth}
All == UNION {[base : {"int", "A"}, cv : Quals(n), ref : Refs] : n \in 0..Depth}
Few == {t \in All : t.base = "int" /\ Len(t.cv) <= 2 /\ (Len(t.cv) = 2 => t.cv[1] # {"const", "volatile"} /\ t.cv[2] = {})}

QualText(q) == (IF "const" \in q THEN ".const" ELSE "") \o (IF "volatile" \in q THEN ".volatile" ELSE "")
RECURSIVE Layers(_, _)
Layers(cv, k) == IF k > Len(cv) THEN "" ELSE "*" \o QualText(cv[k]) \o Layers(cv, k + 1)
Text(t) == t.base \o QualText(t.cv[1]) \o Layers(t.cv, 2) \o t.ref

(* the rules of the language *)
Top(t) == t.cv[Len(t.cv)]
WithTop(t, q) == [t EXCEPT !.cv[Len(t.cv)] = q]
Pointing(t) == Len(t.cv) > 1
AddPtr(t) == [t EXCEPT !.cv = Append(@, {})]
(* a qualifier added to a reference is dropped *)
AddQual(t, q) == IF t.ref # "" THEN t ELSE WithTop(t, Top(t) \cup {q})
AddL(t) == [t EXCEPT !.ref = "&"]
AddR(t) == [t EXCEPT !.ref = IF @ = "&" THEN "&" ELSE "&&"]
NoRef(t) == [t EXCEPT !.ref = ""]
NoPtr(t) == IF Pointing(t) /\ t.ref = "" THEN [t EXCEPT !.cv = Front(@)] ELSE t
NoQual(t, q) == IF t.ref # "" THEN t ELSE WithTop(t, Top(t) \ {q})
Base(t) == [base |-> t.base, cv |-> <<{}>>, ref |-> ""]

(* qualified pointers: what counts as a pointer is left open *)
PtrClear(t) == Pointing(t) /\ t.ref = "" => Top(t) = {}
TypeOf(op, t) ==
    CASE op = "RemovePointer" -> NoPtr(t)
      [] op = "RemoveReference" -> NoRef(t)
      [] op = "RemoveConst" -> NoQual(t, "const")
      [] op = "RemoveVolatile" -> NoQual(t, "volatile")
      [] op = "RemoveAll" -> Base(t)
      [] op = "AddReference" -> AddL(t)
      [] op = "AddMoveReference" -> AddR(t)
      [] op = "AddConst" -> AddQual(t, "const")
      [] op = "AddVolatile" -> AddQual(t, "volatile")
      [] op = "AddPointer" -> AddPtr(t)
      [] op = "Type" -> t
      [] op = "Reference" -> AddL(t)
      [] op = "MoveReference" -> AddR(t)
      [] op = "ConstReference" -> AddL(AddQual(t, "const"))
      [] op = "Pointer" -> AddPtr(t)
      [] op = "PointerToConst" -> AddPtr(AddQual(t, "const"))
      [] op = "ConstPointer" -> AddQual(AddPtr(t), "const")
      [] op = "move" -> AddR(NoRef(t))
      [] op = "forward" -> AddR(t)
      [] op = "declareValue" -> AddR(t)
Of(op) == CASE op \in {"RemovePointer"} -> {t \in All : PtrClear(t)}
            [] op \in {"RemoveReference", "RemoveConst", "RemoveVolatile", "RemoveAll", "move", "forward", "declareValue"} -> All
            [] OTHER -> Bare
TypeOps == {"RemovePointer", "RemoveReference", "RemoveConst", "RemoveVolatile", "RemoveAll", "AddReference",
            "AddMoveReference", "AddConst", "AddVolatile", "AddPointer", "Type", "Reference", "MoveReference",
            "ConstReference", "Pointer", "PointerToConst", "ConstPointer", "move", "forward", "declareValue"}
Holds(op, t) ==
    CASE op = "IsPointer" -> Pointing(t) /\ t.ref = ""
      [] op = "IsReference" -> t.ref # ""
      [] op = "IsLvalue" -> t.ref = "&"
      [] op = "IsRvalue" -> t.ref = "&&"
      [] op \in {"IsConst", "isConst"} -> t.ref = "" /\ "const" \in Top(t)
      [] op = "IsVolatile" -> t.ref = "" /\ "volatile" \in Top(t)
BoolOps == {"IsPointer", "IsReference", "IsLvalue", "IsRvalue", "IsConst", "isConst", "IsVolatile"}
BoolOf(op) == IF op = "IsPointer" THEN {t \in All : PtrClear(t)} ELSE All

(* numbers: name, bytes, kind *)
Numbers == {<<"ichar_t", 1, "signed">>, <<"short_t", 2, "signed">>, <<"int_t", 4, "signed">>, <<"long_t", 8, "signed">>,
            <<"uichar_t", 1, "unsigned">>, <<"ushort_t", 2, "unsigned">>, <<"uint_t", 4, "unsigned">>,
            <<"ulong_t", 8, "unsigned">>}
Floats == {"float_t", "double_t", "ldouble_t"}
Classes == {"A", "B"}
Sibling(n, kind) == CHOOSE m \in Numbers : m[2] = n[2] /\ m[3] = kind
(* limits as bytes, the most significant first *)
Least(n) == [k \in 1..n[2] |-> IF k = 1 /\ n[3] = "signed" THEN 128 ELSE 0]
Most(n) == [k \in 1..n[2] |-> IF k = 1 /\ n[3] = "signed" THEN 127 ELSE 255]
Around == {"", ".const", ".volatile", ".const.volatile", "&", ".const&", "&&"}
NumberCases ==
    {[op |-> "number", a |-> <<n[1]>>,
      r |-> <<n[2], n[3] = "signed", n[3] = "unsigned", Sibling(n, "signed")[1], Sibling(n, "unsigned")[1], Least(n), Most(n)>>]
        : n \in Numbers}
    \cup {[op |-> "kind", a |-> <<x, w>>, r |-> <<x \notin Classes, x \in Floats, x \notin Classes \cup Floats>>]
        : x \in {n[1] : n \in Numbers} \cup Floats \cup Classes \cup {"char_t"}, w \in Around}
    \cup {[op |-> "sign", a |-> <<n[1], w>>, r |-> <<n[3] = "signed", n[3] = "unsigned">>] : n \in Numbers, w \in Around}

(* lists of types *)
Letters == {"A", "B", "C"}
Lists == UNION {[1..n -> Letters] : n \in 0..MaxList}
First(x, l) == IF \E k \in DOMAIN l : l[k] = x THEN MinOf({k \in DOMAIN l : l[k] = x}) - 1 ELSE 0 - 1
ListCases ==
    {[op |-> "index", a |-> <<x, l>>, r |-> First(x, l)] : x \in Letters, l \in Lists}
    \cup {[op |-> "among", a |-> <<x, l>>, r |-> x \in Elems(l)] : x \in Letters, l \in Lists \ {<<>>}}
    \cup UNION {{[op |-> "at", a |-> <<k - 1, l>>, r |-> l[k]] : k \in DOMAIN l} : l \in Lists}
    \cup {[op |-> "unique", a |-> <<l>>, r |-> Cardinality(Elems(l)) = Len(l)] : l \in Lists}
    (* copying an array element by element, from position k on *)
    \cup UNION {{[op |-> "copy", a |-> <<n, k>>, r |-> [i \in 1..n |-> IF i > k THEN i ELSE 0]] : k \in 0..n} : n \in 1..MaxList}

(* choosing, enabling, comparing, results of functions *)
OtherCases ==
    {[op |-> "choose", a |-> <<b>>, r |-> IF b THEN "A" ELSE "B"] : b \in BOOLEAN}
    \cup {[op |-> "enable", a |-> <<b>>, r |-> <<b, b>>] : b \in BOOLEAN}
    \cup {[op |-> "same", a |-> <<Text(t), Text(u)>>, r |-> t = u] : t \in Few, u \in Few}
    \cup {[op |-> "result", a |-> <<Text(t), how, n>>, r |-> Text(t)]
            : t \in Few, how \in {"function", "member", "member.const", "member.volatile", "member.const.volatile"}, n \in 0..2}
    \cup {[op |-> "castable", a |-> <<x, y>>, r |-> x = y \/ {x, y} \subseteq {"int", "double"} \/ <<x, y>> = <<"Derived", "A">>]
            : x \in {"int", "double", "A", "B", "Derived"}, y \in {"int", "double", "A", "B", "Derived"}}

Cases == UNION {{[op |-> op, a |-> <<Text(t)>>, r |-> Text(TypeOf(op, t))] : t \in Of(op)} : op \in TypeOps}
    \cup UNION {{[op |-> op, a |-> <<Text(t)>>, r |-> Holds(op, t)] : t \in BoolOf(op)} : op \in BoolOps}
    \cup NumberCases \cup ListCases \cup OtherCases

(* laws that tie the rules together *)
ASSUME \A t \in Bare : /\ NoPtr(AddPtr(t)) = t /\ NoRef(AddL(t)) = t /\ NoRef(AddR(t)) = t
                       /\ AddR(AddL(t)) = AddL(t) /\ AddL(AddR(t)) = AddL(t)
                       /\ Base(AddPtr(t)) = Base(t)
                       /\ Holds("IsConst", AddQual(t, "const")) /\ ~Holds("IsConst", NoQual(t, "const"))
                       /\ Holds("IsVolatile", AddQual(t, "volatile")) = TRUE
ASSUME \A t \in All : Holds("IsReference", t) <=> (Holds("IsLvalue", t) # Holds("IsRvalue", t))
ASSUME \A t, u \in Few : Text(t) = Text(u) => t = u
ASSUME \A n \in Numbers : Sibling(Sibling(n, "unsigned"), n[3]) = n

Init == c \in Cases
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Emit == PrintT("@C" \o ToJson(c))
=============================================================================
