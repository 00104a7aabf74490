---------------------------- MODULE GuardPrograms ----------------------------
(* All small concurrent programs over lock guards; see Locks.tla.             *)
EXTENDS GuardSteps
CONSTANTS Threads, Blocks, Locks, Inits
(* "." stands for the thread's own guards *)
GuardBlocks(t, l) ==
    LET g == 2 * t - 1  h == 2 * t
    IN { <<<<"enter", <<t, l>>>>, <<"leave", <<t>>>>>>,
         <<<<"makeLock", <<g, l>>>>, <<"drop", <<g>>>>>>,
         <<<<"makeTry", <<g, l>>>>, <<"try", <<g>>>>, <<"drop", <<g>>>>>>,
         <<<<"refer", <<g, l>>>>, <<"lock", <<g>>>>, <<"unlock", <<g>>>>, <<"drop", <<g>>>>>>,
         <<<<"refer", <<g, l>>>>, <<"lock", <<g>>>>, <<"move", <<g, h>>>>, <<"drop", <<h>>>>>>,
         <<<<"makeLock", <<g, l>>>>, <<"unlock", <<g>>>>, <<"try", <<g>>>>, <<"drop", <<g>>>>>> }
RECURSIVE Flat(_)
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
Seqs(B) == UNION {[1..n -> B] : n \in 1..Blocks}
Programs == UNION {{p \in [1..Threads -> UNION {{Flat(q) : q \in Seqs(GuardBlocks(t, l))} : t \in 1..Threads}] :
                      \A t \in 1..Threads : p[t] \in {Flat(q) : q \in Seqs(GuardBlocks(t, l))}} : l \in Locks}
VARIABLES prog, init, s, pc
vars == <<prog, init, s, pc>>
T == 1..Threads
Done(t) == pc[t] > Len(prog[t])
Do(t) == /\ ~Done(t)
         /\ \E x \in Step(s, prog[t][pc[t]][1], prog[t][pc[t]][2]) : s' = x.s
         /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED <<prog, init>>
Next == \E t \in T : Do(t)
Init == /\ prog \in Programs /\ init \in Inits /\ s = Start(init) /\ pc = [t \in T |-> 1]
        /\ PrintT("@C" \o ToJson([init |-> init, prog |-> prog]))
Spec == Init /\ [][Next]_vars
Holders(l) == Cardinality({g \in DOMAIN s.guard : s.guard[g].held /\ s.guard[g].on = l})
            + Cardinality({t \in DOMAIN s.scoped : s.scoped[t] = l})
Accounted == \A l \in 1..3 : s.free[l] + Holders(l) = Start(init).free[l] /\ s.free[l] >= 0
(* nobody waits for ever and nothing stays locked *)
AllReleased == (\A t \in T : ~ENABLED Do(t)) => (\A t \in T : Done(t)) /\ s.free = Start(init).free
=============================================================================
