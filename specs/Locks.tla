-------------------------------- MODULE Locks --------------------------------
(* All small concurrent programs over mutexes, spin locks and semaphores.     *)
(* TLC explores every interleaving of every program on the specification      *)
(* (LockSteps.tla); the same programs are run on the real code under          *)
(* controlled schedules and what their threads saw is checked by LinTrace.tla.*)
EXTENDS LockSteps

(* ------------------------------------------------------------- programs -- *)
CONSTANTS Threads,    \* how many threads
          Blocks,     \* how many blocks each runs at most
          Kinds,      \* lockables the program uses (one of these sets)
          Inits       \* initial values of the semaphore
(* "unlock?" unlocks what the preceding try obtained, if it did *)
LockBlocks(l) == { <<<<"lock", <<l>>>>, <<"unlock", <<l>>>>>>,
                   <<<<"try", <<l>>>>, <<"unlock?", <<l>>>>>>,
                   <<<<"lock", <<l>>>>, <<"try", <<l>>>>, <<"unlock", <<l>>>>>> }
SemBlocks(l) == { <<<<"wait", <<l>>>>>>, <<<<"post", <<l>>>>>>, <<<<"try", <<l>>>>, <<"value", <<l>>>>>>,
                  <<<<"wait", <<l>>>>, <<"post", <<l>>>>>> }
(* lockables are always taken in the same order *)
Nested(a, b) == { <<<<"lock", <<a>>>>, <<IF b = 3 THEN "wait" ELSE "lock", <<b>>>>,
                    <<IF b = 3 THEN "post" ELSE "unlock", <<b>>>>, <<"unlock", <<a>>>>>> }
BlocksOn(l) == IF l = 3 THEN SemBlocks(l) ELSE LockBlocks(l)
BlocksOf(K) == UNION {BlocksOn(l) : l \in K} \cup UNION {Nested(x[1], x[2]) : x \in {y \in K \X K : y[1] < y[2]}}
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Seqs(B) == UNION {[1..n -> B] : n \in 1..Blocks}
ThreadPrograms(K) == {Flat(q) : q \in Seqs(BlocksOf(K))}
(* threads are interchangeable: keep one order *)
Programs == UNION {[1..Threads -> ThreadPrograms(K)] : K \in Kinds}

VARIABLES prog, init, s, pc, got, held, posts, waits
vars == <<prog, init, s, pc, got, held, posts, waits>>
T == 1..Threads
Done(t) == pc[t] > Len(prog[t])
At(t) == prog[t][pc[t]]
Skips(t) == At(t)[1] = "unlock?" /\ ~got[t]
Name(o) == IF o = "unlock?" THEN "unlock" ELSE o
Do(t) ==
    /\ ~Done(t)
    /\ LET l == At(t)[2][1]
       IN IF Skips(t)
          THEN UNCHANGED <<s, got, held, posts, waits>>
          ELSE \E x \in Step(s, Name(At(t)[1]), At(t)[2]) :
                  LET takes == At(t)[1] \in {"lock", "wait"} \/ (At(t)[1] = "try" /\ x.r)
                      gives == At(t)[1] \in {"unlock", "unlock?", "post"}
                  IN /\ s' = x.s
                     /\ got' = [got EXCEPT ![t] = At(t)[1] = "try" /\ x.r]
                     /\ held' = [held EXCEPT ![t] = [@ EXCEPT ![l] = @ + (IF takes THEN 1 ELSE IF gives THEN -1 ELSE 0)]]
                     /\ posts' = posts + (IF gives /\ l = 3 THEN 1 ELSE 0)
                     /\ waits' = waits + (IF takes /\ l = 3 THEN 1 ELSE 0)
    /\ pc' = [pc EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<prog, init>>
Next == \E t \in T : Do(t)
Init == /\ prog \in Programs /\ init \in Inits
        /\ s = Start(init) /\ pc = [t \in T |-> 1] /\ got = [t \in T |-> FALSE]
        /\ held = [t \in T |-> <<0, 0, 0>>] /\ posts = 0 /\ waits = 0
        /\ PrintT("@C" \o ToJson([init |-> init, prog |-> prog]))
Spec == Init /\ [][Next]_vars

(* at most one thread holds a mutex or a spin lock, and it is free otherwise *)
Exclusion == \A l \in {1, 2} : /\ Cardinality({t \in T : held[t][l] = 1}) + s[l] = 1
                               /\ \A t \in T : held[t][l] \in 0..1
Counting == s[3] = init + posts - waits /\ s[3] >= 0
(* threads that only lock and unlock always finish *)
NoneStuck == (\A t \in T : ~ENABLED Do(t)) => \A t \in T : Done(t) \/ At(t)[1] = "wait" \/ (\E u \in T : ~Done(u) /\ At(u)[1] = "wait")
=============================================================================
