---- MODULE ClientModule ----
(* The PKCS#11 client wrapper (wrapper::Pkcs11Library and wrapper::Slot) in
   front of a module whose every function may fail.

   `mod` is the module's own state: 0 when it is not initialised, otherwise the
   number of the arguments it was initialised with, or Foreign when another
   user of the process did that.  `ready` is the wrapper's view of it.  Both
   are kept although they agree unless the module belongs to another user:
   that they agree is what the specification proves and the implementation has
   to show. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Counts,    \* numbers of slots the module may have
          Ifaces,    \* interface lists: -1 not provided, n entries, 21: two that become one
          Fails,     \* steps of the initialisation that may fail
          Ops        \* operations explored

VARIABLES lib, hold, slot, ready, mod, iface, slots, last
vars == <<lib, hold, slot, ready, mod, iface, slots, last>>
View == <<lib, hold, slot, ready, mod, iface, slots>>

NotInit == 400
Already == 401
Small == 336
NotSupported == 84
AnyError == -1
Code(f) == CASE f = "fl" -> 5 [] f = "ilcount" -> 2 [] f = "il" -> 6
             [] f = "init" -> 9 [] f = "info" -> 48
             \* a function that the module has but does not support
             [] f \in {"fl84", "init84", "info84"} -> NotSupported
             [] f = "info400" -> NotInit
Args == 1..2
Foreign == 3

\* slot k exists when k <= n; a token is present in the odd ones
Listed(n, present) == SelectSeq([k \in 1..n |-> k], LAMBDA k : ~present \/ k % 2 = 1)

Init == /\ lib = "none" /\ hold = FALSE /\ slot = 0 /\ ready = 0 /\ mod = 0
        /\ iface = -1 /\ slots = 1
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]

Set(o, a, r) == last' = [op |-> o, a |-> a, r |-> r]

\* The outcome of one initialisation of a wrapper whose library is `l` (open or
\* not), that is ready with `rd` and whose module is in state `m`
Outcome(l, rd, m, a, f) ==
  IF rd # 0 THEN [r |-> Already, ready |-> rd, mod |-> m]
  ELSE IF l = "bad" \/ f = "nofl" THEN [r |-> AnyError, ready |-> 0, mod |-> m]
  ELSE IF f \in {"fl", "fl84", "ilcount", "il", "init", "init84"} THEN [r |-> Code(f), ready |-> 0, mod |-> m]
  ELSE IF m = Foreign THEN [r |-> Already, ready |-> 0, mod |-> m]
  ELSE IF f \in {"info", "info84", "info400"} THEN [r |-> Code(f), ready |-> 0, mod |-> m]
  ELSE [r |-> 0, ready |-> a, mod |-> a]
\* interfaces the wrapper knows afterwards; not supporting them is no failure
Count(il, f) == IF f \in {"ilcount84", "il84"} THEN -1 ELSE IF il = 21 THEN 1 ELSE il
\* failures of later steps are tried with a module that offers one interface
Combined(f, il) == (f # "none") => (il = 1)

Create == /\ lib = "none"
          /\ \E ok \in BOOLEAN :
               /\ lib' = IF ok THEN "open" ELSE "bad"
               /\ Set("create", <<ok>>, ok)
          /\ hold' = TRUE
          /\ UNCHANGED <<slot, ready, mod, iface, slots>>
CreateWith == /\ lib = "none"
              /\ \E ok \in BOOLEAN, a \in Args, f \in Fails, il \in Ifaces :
                   LET l == IF ok THEN "open" ELSE "bad"
                       o == Outcome(l, 0, mod, a, f)
                   IN /\ Combined(f, il)
                      /\ lib' = l
                      /\ ready' = o.ready /\ mod' = o.mod
                      /\ iface' = IF o.ready # 0 THEN Count(il, f) ELSE -1
                      /\ Set("createWith", <<ok, a, f, il>>, ok)
              /\ hold' = TRUE
              /\ UNCHANGED <<slot, slots>>
Initialize == /\ lib # "none"
              /\ \E a \in Args, f \in Fails, il \in Ifaces :
                   LET o == Outcome(lib, ready, mod, a, f)
                   IN /\ Combined(f, il)
                      /\ ready' = o.ready /\ mod' = o.mod
                      /\ iface' = IF o.r = 0 THEN Count(il, f) ELSE iface
                      /\ Set("initialize", <<a, f, il>>, o.r)
              /\ UNCHANGED <<lib, hold, slot, slots>>
Finalize == /\ lib # "none"
            /\ \E f \in BOOLEAN :
                 IF ready = 0
                 THEN Set("finalize", <<f>>, NotInit) /\ UNCHANGED <<ready, mod, iface>>
                 ELSE IF f THEN Set("finalize", <<f>>, 6) /\ UNCHANGED <<ready, mod, iface>>
                 ELSE Set("finalize", <<f>>, 0) /\ ready' = 0 /\ mod' = 0 /\ iface' = -1
            /\ UNCHANGED <<lib, hold, slot, slots>>

\* another user initialises and finalises the module, never under a ready wrapper
ForeignInit == /\ mod = 0 /\ mod' = Foreign /\ Set("foreignInit", <<>>, 0)
               /\ UNCHANGED <<lib, hold, slot, ready, iface, slots>>
ForeignEnd == /\ mod = Foreign /\ mod' = 0 /\ Set("foreignEnd", <<>>, 0)
              /\ UNCHANGED <<lib, hold, slot, ready, iface, slots>>

Gone == lib' = "none" /\ ready' = 0 /\ mod' = (IF ready # 0 THEN 0 ELSE mod) /\ iface' = -1
Drop == /\ hold /\ hold' = FALSE
        /\ IF slot = 0 THEN Gone ELSE UNCHANGED <<lib, ready, mod, iface>>
        /\ Set("drop", <<>>, 0)
        /\ UNCHANGED <<slot, slots>>
SlotNew == /\ hold /\ slot = 0
           /\ \E k \in Counts \ {0} : slot' = k /\ Set("slotNew", <<k>>, k)
           /\ UNCHANGED <<lib, hold, ready, mod, iface, slots>>
SlotDrop == /\ slot # 0 /\ slot' = 0
            /\ IF hold THEN UNCHANGED <<lib, ready, mod, iface>> ELSE Gone
            /\ Set("slotDrop", <<>>, 0)
            /\ UNCHANGED <<hold, slots>>

\* Queries answer only when ready
Answer(v) == IF ready = 0 THEN NotInit ELSE v
Quiet == UNCHANGED <<lib, hold, slot, ready, mod, iface, slots>>
Info == lib # "none" /\ Set("info", <<>>, Answer(ready)) /\ Quiet
Functions == lib # "none" /\ Set("functions", <<>>, Answer(0)) /\ Quiet
\* interface k of the module carries the number k
Interfaces == /\ lib # "none"
              /\ Set("interfaces", <<>>,
                     IF ready = 0 THEN <<NotInit>>
                     ELSE IF iface = -1 THEN <<NotSupported>>
                     ELSE <<0>> \o [k \in 1..iface |-> k])
              /\ Quiet
Interface == /\ lib # "none"
             /\ Set("interface", <<>>, Answer(IF iface < 1 THEN AnyError ELSE 1001))
             /\ Quiet
SlotInfo == /\ slot # 0
            /\ \E f \in BOOLEAN :
                 Set("slotInfo", <<f>>, Answer(IF f THEN 48 ELSE IF slot > slots THEN 3 ELSE 1000 + slot))
            /\ Quiet
SlotWait == /\ slot # 0
            /\ \E f \in BOOLEAN : Set("slotWait", <<f>>, Answer(IF f THEN 8 ELSE 0))
            /\ Quiet
SlotCount == /\ lib # "none"
             /\ \E p \in BOOLEAN, f \in BOOLEAN :
                  Set("slotCount", <<p, f>>,
                      IF ready = 0 THEN <<NotInit>> ELSE IF f THEN <<50>>
                      ELSE <<0, Len(Listed(slots, p))>>)
             /\ Quiet
\* slots may come and go between the two calls the list needs
SlotList == /\ lib # "none"
            /\ \E p \in BOOLEAN, f \in {"none", "first", "second"}, n \in Counts :
                 LET before == Listed(slots, p)
                     after == Listed(n, p)
                 IN /\ (ready = 0 \/ f # "none" \/ before = <<>>) => (n = slots)
                    /\ slots' = n
                    /\ Set("slotList", <<p, f, n>>,
                           IF ready = 0 THEN <<NotInit>>
                           ELSE IF f = "first" THEN <<50>>
                           ELSE IF f = "second" /\ before # <<>> THEN <<48>>
                           ELSE IF Len(after) > Len(before) THEN <<Small>>
                           ELSE <<0>> \o after)
            /\ UNCHANGED <<lib, hold, slot, ready, mod, iface>>
SetSlots == /\ \E n \in Counts : n # slots /\ slots' = n /\ Set("setSlots", <<n>>, 0)
            /\ UNCHANGED <<lib, hold, slot, ready, mod, iface>>

On(o) == o \in Ops
Next == \/ On("life") /\ (Create \/ CreateWith \/ Drop \/ SlotNew \/ SlotDrop)
        \/ On("init") /\ (Initialize \/ Finalize \/ ForeignInit \/ ForeignEnd)
        \/ On("query") /\ (Info \/ Functions \/ Interfaces \/ Interface)
        \/ On("slots") /\ (SlotInfo \/ SlotWait \/ SlotCount \/ SlotList \/ SetSlots)
Spec == Init /\ [][Next]_vars

----
TypeOK == /\ lib \in {"none", "bad", "open"} /\ slot \in Counts
          /\ ready \in 0..2 /\ mod \in 0..Foreign /\ slots \in Counts
\* the wrapper and the module agree, so every initialisation is ended exactly once
\* and another user's is never ended
Agree == ready = mod \/ (ready = 0 /\ mod = Foreign)
ForeignKept == [][(mod = Foreign /\ last'.op # "foreignEnd") => (mod' = Foreign)]_vars
\* nothing is ready without an open library
OpenOnly == (ready # 0) => (lib = "open")
\* a library is alive exactly while somebody holds it
Held == (lib # "none") <=> (hold \/ slot # 0)

\* a failing initialisation changes nothing
FailureChangesNothing ==
  [][(last'.op = "initialize" /\ last'.r # 0) => (ready' = ready /\ iface' = iface)]_vars
\* no query of a wrapper that is not ready yields a result
QueriesNeedReady ==
  [][(ready = 0 /\ last'.op \in {"info", "functions", "interface", "slotInfo", "slotWait"})
     => (last'.r = NotInit)]_vars
ListsNeedReady ==
  [][(ready = 0 /\ last'.op \in {"interfaces", "slotCount", "slotList"})
     => (last'.r = <<NotInit>>)]_vars

Obs == [alive |-> lib # "none", mod |-> mod, open |-> IF lib = "open" THEN 1 ELSE 0, stray |-> 0]
Live == 0
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
====
