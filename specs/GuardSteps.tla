----------------------------- MODULE GuardSteps -----------------------------
(* Lock guards used by several threads (property P17), as atomic steps.       *)
(* Thread t owns the movable guards 2t-1 and 2t and the scoped guard t.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Absent == [on |-> 0, held |-> FALSE]
Start(n) == [free |-> <<1, 1, n>>, guard |-> [g \in 1..8 |-> Absent], scoped |-> [t \in 1..4 |-> 0]]
Took(s, l) == [s EXCEPT !.free[l] = @ - 1]
Gave(s, l) == [s EXCEPT !.free[l] = @ + 1]
Put(s, g, x) == [s EXCEPT !.guard[g] = x]
Just(s, r) == {[s |-> s, r |-> r]}
Step(s, op, a) ==
    LET g == a[1]
        x == s.guard[g]
        l == IF op \in {"refer", "makeLock", "makeTry", "enter"} THEN a[2] ELSE x.on
        got == s.free[l] > 0
    IN CASE op = "refer" -> Just(Put(s, g, [on |-> l, held |-> FALSE]), 0)
         [] op = "makeLock" -> IF got THEN Just(Put(Took(s, l), g, [on |-> l, held |-> TRUE]), 0) ELSE {}
         [] op = "makeTry" -> Just(IF got THEN Put(Took(s, l), g, [on |-> l, held |-> TRUE])
                                   ELSE Put(s, g, [on |-> l, held |-> FALSE]), 0)
         [] op = "lock" -> IF got THEN Just(Put(Took(s, l), g, [on |-> l, held |-> TRUE]), 0) ELSE {}
         [] op = "try" -> IF x.held THEN Just(s, TRUE)
                          ELSE IF got THEN Just(Put(Took(s, l), g, [on |-> l, held |-> TRUE]), TRUE)
                          ELSE Just(s, FALSE)
         [] op = "unlock" -> Just(Put(Gave(s, l), g, [on |-> l, held |-> FALSE]), 0)
         [] op = "move" -> Just(Put(Put(s, a[2], x), g, Absent), 0)
         [] op = "drop" -> Just(Put(IF x.held THEN Gave(s, l) ELSE s, g, Absent), 0)
         [] op = "enter" -> IF got THEN Just([Took(s, l) EXCEPT !.scoped[g] = l], 0) ELSE {}
         [] op = "leave" -> Just([Gave(s, s.scoped[g]) EXCEPT !.scoped[g] = 0], 0)
         [] op = "free" -> Just(s, s.free[a[1]])
=============================================================================
