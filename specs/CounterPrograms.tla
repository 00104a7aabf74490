-------------------------- MODULE CounterPrograms --------------------------
(* All small programs of threads on two shared counters; TLC checks over      *)
(* every interleaving that no step is lost and nobody waits.                  *)
EXTENDS CounterSteps
CONSTANTS Threads,   \* how many threads
          Ops,       \* operations per thread at most
          Names,     \* operations used
          Both,      \* counters used
          Kinds      \* kinds of counters
VARIABLES prog, init, s, pc, rest
vars == <<prog, init, s, pc, rest>>
T == 1..Threads
One == UNION {{<<o, <<c>>>> : o \in Names} : c \in Both}
ThreadPrograms == UNION {[1..n -> One] : n \in 1..Ops}
Done(t) == pc[t] > Len(prog[t])
(* rest: what a thread has still to do of its operation *)
Do(t) == /\ ~Done(t)
         /\ LET o == prog[t][pc[t]]
                name == IF rest[t] = "" THEN o[1] ELSE rest[t]
            IN \E x \in Step(s, name, o[2]) :
                  /\ s' = x.s
                  /\ rest' = [rest EXCEPT ![t] = IF "op" \in DOMAIN x THEN x.op ELSE ""]
                  /\ pc' = [pc EXCEPT ![t] = IF "op" \in DOMAIN x THEN @ ELSE @ + 1]
         /\ UNCHANGED <<prog, init>>
Next == \E t \in T : Do(t)
Init == /\ prog \in [T -> ThreadPrograms] /\ init \in Kinds /\ s = Start(init) /\ pc = [t \in T |-> 1]
        /\ rest = [t \in T |-> ""]
        /\ PrintT("@C" \o ToJson([init |-> init, prog |-> prog]))
Spec == Init /\ [][Next]_vars

Worth(o) == CASE o = "inc" -> 1 [] o = "dec" -> 0 - 1 [] o = "twice" -> 2 [] OTHER -> 0
RECURSIVE Sum(_, _)
Sum(p, c) == IF p = <<>> THEN 0 ELSE (IF Head(p)[2][1] = c THEN Worth(Head(p)[1]) ELSE 0) + Sum(Tail(p), c)
RECURSIVE Total(_, _)
Total(t, c) == IF t = 0 THEN 0 ELSE Sum(prog[t], c) + Total(t - 1, c)
Moves == \E t \in T : \E k \in DOMAIN prog[t] : prog[t][k][1] = "give"
(* every step counts, whatever the order *)
NoneLost == (\A t \in T : Done(t)) /\ ~Moves => \A c \in 1..2 : s.n[c] = Wrap(s, Total(Threads, c))
NobodyWaits == \A t \in T : Done(t) \/ ENABLED Do(t)
=============================================================================
