------------------------------ MODULE LinTrace ------------------------------
(* Checks recorded concurrent executions against an atomic object.            *)
(* @OBJECT@ provides Start and Step.  A trace is a list of events:             *)
(*   call t op a / ret t r / end how   (how: finished or stuck)               *)
(* It is accepted when every operation can be given one moment between its    *)
(* call and its return at which Step explains its result (or several moments, *)
(* when Step says that the operation goes on as another one), and when        *)
(* threads are stuck only in operations Step makes wait.                      *)
EXTENDS @OBJECT@
VARIABLES k, i, st, pend
tvars == <<k, i, st, pend>>
Traces == JsonDeserialize("traces.json")
None == [op |-> "none"]
E == Traces[k].events[i]
Ts == DOMAIN pend
TInit == /\ k \in 1..Len(Traces) /\ i = 1
         /\ st = Start(Traces[k].start)
         /\ pend = [t \in 1..Traces[k].threads |-> None]
Called == /\ E.e = "call" /\ pend[E.t] = None
          /\ pend' = [pend EXCEPT ![E.t] = [op |-> E.op, a |-> E.a, done |-> FALSE]]
          /\ i' = i + 1 /\ UNCHANGED <<k, st>>
Returned == /\ E.e = "ret" /\ pend[E.t] # None
            /\ pend[E.t].done /\ pend[E.t].r = E.r
            /\ pend' = [pend EXCEPT ![E.t] = None]
            /\ i' = i + 1 /\ UNCHANGED <<k, st>>
Ended == /\ E.e = "end"
         /\ \A t \in Ts : pend[t] # None =>
               E.how = "stuck" /\ ~pend[t].done /\ Step(st, pend[t].op, pend[t].a) = {}
         /\ E.how = "stuck" => \E t \in Ts : pend[t] # None
         /\ PrintT("@A" \o ToString(k))
         /\ i' = i + 1 /\ UNCHANGED <<k, st, pend>>
Happens(t) == /\ pend[t] # None /\ ~pend[t].done
              /\ \E x \in Step(st, pend[t].op, pend[t].a) :
                    /\ st' = x.s
                    /\ pend' = [pend EXCEPT ![t] = IF "op" \in DOMAIN x
                                    THEN [op |-> x.op, a |-> IF "a" \in DOMAIN x THEN x.a ELSE pend[t].a, done |-> FALSE]
                                    ELSE [op |-> pend[t].op, a |-> pend[t].a, done |-> TRUE, r |-> x.r]]
              /\ UNCHANGED <<k, i>>
TNext == /\ i <= Len(Traces[k].events)
         /\ Called \/ Returned \/ Ended \/ \E t \in Ts : Happens(t)
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
