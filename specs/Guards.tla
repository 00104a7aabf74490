------------------------------- MODULE Guards -------------------------------
(* Scoped and movable lock guards over any lockable (property P17).          *)
(*                                                                           *)
(* A lockable has a number of free units: one for a mutex or a spin lock,    *)
(* any number for a semaphore.  A movable guard is absent, refers to nothing *)
(* (it was moved from) or refers to a lockable and may hold one unit of it.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS G,        \* movable guards
          S,        \* scoped guards
          Units     \* units of each lockable when nobody holds it
VARIABLES free, guard, scoped, direct, last
vars == <<free, guard, scoped, direct, last>>
Ls == DOMAIN Units
Gs == 1..G
Ss == 1..S
Absent == [on |-> -1, held |-> FALSE]
Empty == [on |-> 0, held |-> FALSE]

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]
Take(f, l) == [f EXCEPT ![l] = @ - 1]
Give(f, l) == [f EXCEPT ![l] = @ + 1]
Released(f, x) == IF x.held THEN Give(f, x.on) ELSE f

(* movable guards: refer only, lock, try, or unlock what the caller holds *)
Make(g, l, mode) ==
    /\ guard[g] = Absent
    /\ mode = "lock" => free[l] > 0
    /\ mode = "unlock" => direct[l] > 0
    /\ LET holds == mode = "lock" \/ (mode = "try" /\ free[l] > 0)
       IN /\ guard' = [guard EXCEPT ![g] = [on |-> l, held |-> holds]]
          /\ free' = IF holds THEN Take(free, l) ELSE IF mode = "unlock" THEN Give(free, l) ELSE free
          /\ direct' = IF mode = "unlock" THEN [direct EXCEPT ![l] = @ - 1] ELSE direct
    /\ UNCHANGED scoped /\ Did("make", <<g, l, mode>>, 0)
Lock(g) ==
    /\ guard[g].on > 0 /\ ~guard[g].held /\ free[guard[g].on] > 0
    /\ guard' = [guard EXCEPT ![g].held = TRUE]
    /\ free' = Take(free, guard[g].on)
    /\ UNCHANGED <<scoped, direct>> /\ Did("lock", <<g>>, 0)
Try(g) ==
    /\ guard[g].on > 0
    /\ LET gets == ~guard[g].held /\ free[guard[g].on] > 0
       IN /\ guard' = [guard EXCEPT ![g].held = @ \/ gets]
          /\ free' = IF gets THEN Take(free, guard[g].on) ELSE free
          /\ Did("try", <<g>>, guard[g].held \/ gets)
    /\ UNCHANGED <<scoped, direct>>
Unlock(g) ==
    /\ guard[g].held
    /\ guard' = [guard EXCEPT ![g].held = FALSE]
    /\ free' = Give(free, guard[g].on)
    /\ UNCHANGED <<scoped, direct>> /\ Did("unlock", <<g>>, 0)
MoveNew(g, h) ==
    /\ g # h /\ guard[g] = Absent /\ guard[h].on > 0
    /\ guard' = [guard EXCEPT ![g] = guard[h], ![h] = Empty]
    /\ UNCHANGED <<free, scoped, direct>> /\ Did("moveNew", <<g, h>>, 0)
(* what the assigned guard held is released, what the other held is taken *)
MoveTo(g, h) ==
    /\ g # h /\ guard[g] # Absent /\ guard[h].on > 0
    /\ guard' = [guard EXCEPT ![g] = guard[h], ![h] = Empty]
    /\ free' = Released(free, guard[g])
    /\ UNCHANGED <<scoped, direct>> /\ Did("moveTo", <<g, h>>, 0)
Drop(g) ==
    /\ guard[g] # Absent
    /\ guard' = [guard EXCEPT ![g] = Absent]
    /\ free' = Released(free, guard[g])
    /\ UNCHANGED <<scoped, direct>> /\ Did("drop", <<g>>, 0)
(* scoped guards hold from construction to destruction *)
Enter(s, l) ==
    /\ scoped[s] = 0 /\ free[l] > 0
    /\ scoped' = [scoped EXCEPT ![s] = l] /\ free' = Take(free, l)
    /\ UNCHANGED <<guard, direct>> /\ Did("enter", <<s, l>>, 0)
Leave(s) ==
    /\ scoped[s] # 0
    /\ scoped' = [scoped EXCEPT ![s] = 0] /\ free' = Give(free, scoped[s])
    /\ UNCHANGED <<guard, direct>> /\ Did("leave", <<s>>, 0)
(* the caller locks and unlocks without a guard *)
LockDirect(l) == /\ free[l] > 0 /\ free' = Take(free, l) /\ direct' = [direct EXCEPT ![l] = @ + 1]
                 /\ UNCHANGED <<guard, scoped>> /\ Did("lockDirect", <<l>>, 0)
UnlockDirect(l) == /\ direct[l] > 0 /\ free' = Give(free, l) /\ direct' = [direct EXCEPT ![l] = @ - 1]
                   /\ UNCHANGED <<guard, scoped>> /\ Did("unlockDirect", <<l>>, 0)

Next ==
    \/ \E g \in Gs : \/ \E l \in Ls, m \in {"none", "lock", "try", "unlock"} : Make(g, l, m)
                     \/ Lock(g) \/ Try(g) \/ Unlock(g) \/ Drop(g)
                     \/ \E h \in Gs : MoveNew(g, h) \/ MoveTo(g, h)
    \/ \E s \in Ss : Leave(s) \/ \E l \in Ls : Enter(s, l)
    \/ \E l \in Ls : LockDirect(l) \/ UnlockDirect(l)
Init == /\ free = Units
        /\ guard = [g \in Gs |-> Absent]
        /\ scoped = [s \in Ss |-> 0]
        /\ direct = [l \in Ls |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

Holders(l) == Cardinality({g \in Gs : guard[g].held /\ guard[g].on = l})
            + Cardinality({s \in Ss : scoped[s] = l}) + direct[l]
(* every unit is free or held by exactly one holder *)
Accounted == \A l \in Ls : free[l] + Holders(l) = Units[l] /\ free[l] >= 0
HeldOnlyOnSomething == \A g \in Gs : guard[g].held => guard[g].on > 0

Obs == free
View == <<free, guard, scoped, direct>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
