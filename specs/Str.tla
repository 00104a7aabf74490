-------------------------------- MODULE Str ---------------------------------
(* Two strings and every public operation on them (property P07).            *)
(*                                                                           *)
(* txt[i] is the text the user must see, as a sequence of character codes.   *)
(* cap[i] is the storage the implementation is expected to hold, terminator  *)
(* included; it is in the state only so that every operation is explored     *)
(* with every amount of spare room.  Nothing observed depends on it except   *)
(* that a string with storage has room for its terminator.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS MaxLen,   \* longest text explored
          MaxCap,   \* explicit growth stops here
          NV,       \* number of different characters
          Pair      \* FALSE: one string in depth; TRUE: operations between two
VARIABLES txt, cap, last
vars == <<txt, cap, last>>
I == {1, 2}
Other(i) == 3 - i

Universe == 1..NV
Unused == Universe \ (Elems(txt[1]) \cup Elems(txt[2]))
Fresh == MinOf(IF Unused = {} THEN Universe ELSE Unused)
FreshN(n) == TakeMin(IF Cardinality(Unused) < n THEN Universe ELSE Unused, n)

Grow(c) == Max2((c * 3) \div 2, c + 1)
RECURSIVE PushCap(_, _)
PushCap(c, n) == IF n + 1 < c THEN c ELSE PushCap(Grow(c), n)
RECURSIVE InsCap(_, _)
InsCap(c, n) == IF n + 1 < c THEN c ELSE InsCap(c + Grow(c), n)
TextCap(c, n) == IF n + 2 < c THEN c ELSE Max2(Grow(c), n + 3)
Fit(c, n) == IF c > n THEN c ELSE n + 1

Room(i, n) == Len(txt[i]) + n <= MaxLen
Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
Set(i, s, c) == /\ txt' = [txt EXCEPT ![i] = s]
                /\ cap' = [cap EXCEPT ![i] = c]
Two(i, si, ci, sj, cj) ==
    /\ txt' = [k \in I |-> IF k = i THEN si ELSE sj]
    /\ cap' = [k \in I |-> IF k = i THEN ci ELSE cj]
Suffix(s, p) == SubSeq(s, p + 1, Len(s))

Push(i, op) == /\ Room(i, 1)
               /\ Set(i, Append(txt[i], Fresh), PushCap(cap[i], Len(txt[i]))) /\ Did(op, <<i, Fresh>>)
PushOwn(i, p) == /\ Room(i, 1) /\ p < Len(txt[i])
                 /\ Set(i, Append(txt[i], txt[i][p + 1]), PushCap(cap[i], Len(txt[i])))
                 /\ Did("pushOwn", <<i, p>>)
Text(i, t, op, args) == /\ Room(i, Len(t))
                        /\ Set(i, txt[i] \o t, TextCap(cap[i], Len(txt[i]) + Len(t))) /\ Did(op, args)
PushText(i, n, op) == Text(i, FreshN(n), op, <<i, FreshN(n)>>)
PushOwnText(i, p) == Text(i, Suffix(txt[i], p), "pushOwnText", <<i, p>>)
AppendOther(i, op) == Text(i, txt[Other(i)], op, <<i>>)
AppendSelf(i) == Text(i, txt[i], "appendSelf", <<i>>)
Pop(i) == Set(i, IF txt[i] = <<>> THEN <<>> ELSE Front(txt[i]), cap[i]) /\ Did("pop", <<i>>)
Ins(i, p, op) == /\ Room(i, 1)
                 /\ Set(i, InsertOne(txt[i], p, Fresh), InsCap(cap[i], Len(txt[i])))
                 /\ Did(op, <<i, p, Fresh>>)
InsOwn(i, p, q) == /\ Room(i, 1) /\ q < Len(txt[i])
                   /\ Set(i, InsertOne(txt[i], p, txt[i][q + 1]), InsCap(cap[i], Len(txt[i])))
                   /\ Did("insOwn", <<i, p, q>>)
InsText(i, p, n, op) == /\ Room(i, n)
                        /\ Set(i, InsertAll(txt[i], p, FreshN(n)),
                               IF n = 0 THEN cap[i] ELSE Fit(cap[i], Len(txt[i]) + n))
                        /\ Did(op, <<i, p, FreshN(n)>>)
InsOther(i, p) == LET n == Len(txt[Other(i)]) IN
                  /\ Room(i, n)
                  /\ Set(i, InsertAll(txt[i], p, txt[Other(i)]),
                         IF n = 0 THEN cap[i] ELSE Fit(cap[i], Len(txt[i]) + n))
                  /\ Did("insOther", <<i, p>>)
Erase(i, p, op) == /\ Set(i, IF p = Len(txt[i]) THEN txt[i] ELSE EraseRange(txt[i], p, p + 1), cap[i])
                   /\ Did(op, <<i, p>>)
EraseR(i, p, q, op) == Set(i, EraseRange(txt[i], p, q), cap[i]) /\ Did(op, <<i, p, q>>)
Clean(i) == Set(i, <<>>, cap[i]) /\ Did("clean", <<i>>)
Resize(i, n) == Set(i, txt[i], Max2(cap[i], n)) /\ Did("resize", <<i, n>>)
Reserve(i, n) == /\ cap[i] + n <= MaxCap
                 /\ Set(i, txt[i], cap[i] + n) /\ Did("reserve", <<i, n>>)
Write(i, p) == /\ p < Len(txt[i])
               /\ Set(i, [txt[i] EXCEPT ![p + 1] = Fresh], cap[i]) /\ Did("write", <<i, p, Fresh>>)
SetText(i, n) == LET t == TakeMin(Universe, n) IN
                 Set(i, t, Fit(cap[i], n)) /\ Did("setText", <<i, t>>)
NewText(i, n) == LET t == TakeMin(Universe, n) IN
                 Set(i, t, n + 1) /\ Did("newText", <<i, t>>)
SetOwnText(i, p) == Set(i, Suffix(txt[i], p), Fit(cap[i], 0)) /\ Did("setOwnText", <<i, p>>)
New(i) == Set(i, <<>>, 0) /\ Did("new", <<i>>)
CopyCtor(i, op) == Set(i, txt[Other(i)], Len(txt[Other(i)]) + 1) /\ Did(op, <<i>>)
CopyAssign(i) == Set(i, txt[Other(i)], Fit(cap[i], Len(txt[Other(i)]))) /\ Did("copyAssign", <<i>>)
(* the driver empties the source of a move before looking at it *)
Move(i, op) == Two(i, txt[Other(i)], cap[Other(i)], <<>>, 0) /\ Did(op, <<i>>)
Self(i, op) == Set(i, txt[i], cap[i]) /\ Did(op, <<i>>)
Joined(i, t, op, args) == /\ Len(t) <= MaxLen
                          /\ Set(i, t, Len(t) + 3) /\ Did(op, args)
PlusText(i, n) == LET t == TakeMin(Universe, n) IN
    \/ Joined(i, txt[Other(i)] \o t, "plusText", <<i, t>>)
    \/ Joined(i, t \o txt[Other(i)], "textPlus", <<i, t>>)
PlusStr(i) == \/ Joined(i, txt[i] \o txt[Other(i)], "plus", <<i>>)
              \/ Joined(i, txt[Other(i)] \o txt[Other(i)], "twice", <<i>>)

Pos(i) == 0..Len(txt[i])
Basic(i) ==
    \/ \E op \in {"push", "pushMove"} : Push(i, op)
    \/ Pop(i) \/ Clean(i) \/ New(i)
    \/ \E n \in {1, 3} : Reserve(i, n)
    \/ \E n \in {0, 1, MaxLen} : NewText(i, n) \/ SetText(i, n)
Single(i) ==
    \/ \E op \in {"appendChar", "appendCharMove"} : Push(i, op)
    \/ \E n \in 0..2 : PushText(i, n, "pushText") \/ PushText(i, n, "appendText")
    \/ \E p \in Pos(i) : PushOwn(i, p) \/ PushOwnText(i, p) \/ Write(i, p) \/ SetOwnText(i, p)
    \/ \E p \in Pos(i) : \E op \in {"ins", "insMove"} : Ins(i, p, op)
    \/ \E p \in Pos(i) : \E q \in Pos(i) : InsOwn(i, p, q)
    \/ \E p \in Pos(i) : \E n \in 0..2 : InsText(i, p, n, "insText") \/ InsText(i, p, n, "insRange")
    \/ \E p \in Pos(i) : Erase(i, p, "erase") \/ Erase(i, p, "minus")
                         \/ (p < Len(txt[i]) /\ Erase(i, p, "minusReverse"))
    \/ \E p \in Pos(i) : \E q \in p..Len(txt[i]) :
          \E op \in {"eraseRange", "minusRange", "minusReverseRange"} : EraseR(i, p, q, op)
    \/ \E n \in 0..MaxCap : Resize(i, n)
    \/ AppendSelf(i) \/ Self(i, "selfAssign") \/ Self(i, "selfMove")
Between(i) ==
    \/ CopyCtor(i, "copyCtor") \/ CopyCtor(i, "clone") \/ CopyAssign(i)
    \/ Move(i, "moveCtor") \/ Move(i, "moveAssign")
    \/ AppendOther(i, "appendOther") \/ AppendOther(i, "appendRange")
    \/ \E p \in Pos(i) : InsOther(i, p)
    \/ \E n \in {0, 1, 2} : PlusText(i, n)
    \/ PlusStr(i)
Next == IF Pair THEN \E i \in I : Basic(i) \/ Between(i)
        ELSE Basic(1) \/ Single(1)
LongNext == \E i \in I : Basic(i) \/ Single(i) \/ Between(i)

Init == /\ txt = [i \in I |-> <<>>]
        /\ cap = [i \in I |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in I : Len(txt[i]) <= MaxLen /\ Elems(txt[i]) \subseteq Universe
(* characters and their terminator fit in the storage *)
Fits == \A i \in I : (cap[i] = 0 /\ txt[i] = <<>>) \/ Len(txt[i]) < cap[i]
Isolation == [][\A i \in I :
   (last'.op \notin {"moveCtor", "moveAssign"} /\ last'.a[1] = Other(i)) => txt'[i] = txt[i]]_vars
FrameOK == [][\A i \in I :
   (last'.op \in {"erase", "eraseRange", "pop", "clean", "reserve", "resize"})
      => Elems(txt'[i]) \subseteq Elems(txt[i])]_vars

Obs == txt
View == <<txt, cap>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
