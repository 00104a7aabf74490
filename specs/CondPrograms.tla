---------------------------- MODULE CondPrograms ----------------------------
(* All small concurrent programs over a condition variable; see Locks.tla.    *)
EXTENDS CondSteps
CONSTANTS Threads, Len1, Ops, Inits
Programs == [1..Threads -> UNION {[1..n -> Ops] : n \in 1..Len1}]
VARIABLES prog, init, s, pc, op, began, notified
vars == <<prog, init, s, pc, op, began, notified>>
T == 1..Threads
Done(t) == pc[t] > Len(prog[t])
(* op[t]: the operation or phase thread t is in, "" before it starts the next one *)
Name(t) == IF op[t] = "" THEN prog[t][pc[t]] ELSE op[t]
Do(t) == /\ ~Done(t)
         /\ \E x \in Step(s, Name(t), <<>>) :
              /\ s' = x.s
              /\ IF "op" \in DOMAIN x
                 THEN op' = [op EXCEPT ![t] = x.op] /\ UNCHANGED pc
                 ELSE op' = [op EXCEPT ![t] = ""] /\ pc' = [pc EXCEPT ![t] = @ + 1]
         (* notifications that began after the condition was set *)
         /\ began' = [began EXCEPT ![t] = IF op[t] = "" /\ Name(t) = "notify" THEN s.value ELSE @]
         /\ notified' = (notified \/ (Name(t) \in {"notify", "closing"} /\ pc'[t] > pc[t] /\ began'[t]))
         /\ UNCHANGED <<prog, init>>
Next == \E t \in T : Do(t)
Init == /\ prog \in Programs /\ init \in Inits /\ s = Start(init)
        /\ pc = [t \in T |-> 1] /\ op = [t \in T |-> ""] /\ began = [t \in T |-> FALSE] /\ notified = FALSE
        /\ PrintT("@C" \o ToJson([init |-> init, prog |-> [t \in T |-> [i \in DOMAIN prog[t] |-> <<prog[t][i], <<>>>>]]]))
Spec == Init /\ [][Next]_vars
In(names) == {t \in T : ~Done(t) /\ op[t] \in names}
Counted == s.n = Cardinality(In({"waiting", "looking", "waitingIf"}))
OneNotifier == Cardinality(In({"closing"})) = (IF s.open THEN 1 ELSE 0)
Quiet == \A t \in T : ~ENABLED Do(t)
(* only waiting can last for ever, and the gate is closed then *)
OnlyWaitsLast == Quiet => /\ ~s.open
                          /\ \A t \in T : Done(t) \/ op[t] \in {"waiting", "waitingIf"}
(* a single thread waiting for a condition is not forgotten once somebody notified after setting it *)
NoLostWakeup == (Quiet /\ notified /\ Cardinality(In({"waiting", "waitingIf"})) = 1
                 /\ Cardinality({t \in T : \E i \in DOMAIN prog[t] : prog[t][i] \in {"wait", "waitIf"}}) = 1)
                => In({"waitingIf"}) = {}
=============================================================================
