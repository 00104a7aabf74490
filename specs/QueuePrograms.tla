--------------------------- MODULE QueuePrograms ---------------------------
(* All small programs of threads (and an interrupting arrival) on the event   *)
(* queue; TLC checks the laws of QueueSteps.tla over every interleaving.      *)
EXTENDS QueueSteps
CONSTANTS Threads,   \* how many threads
          Ops,       \* operations per thread at most
          Starts,    \* initial states
          Names,     \* operations used
          Arrival    \* TRUE: the last thread interrupts the first with one or two arrivals
(* values pushed tell who pushed them *)
Op(name, t, i) == <<name, IF name = "push" THEN <<10 * t + i>> ELSE <<>>>>
ThreadPrograms(t) ==
    IF Arrival /\ t = Threads THEN {[i \in 1..n |-> Op("push", t, i)] : n \in 1..2}
    ELSE UNION {{[i \in 1..n |-> Op(f[i], t, i)] : f \in [1..n -> Names]} : n \in 1..Ops}
VARIABLES prog, init, s, pc, in, out
vars == <<prog, init, s, pc, in, out>>
T == 1..Threads
RECURSIVE All(_)
All(k) == IF k = 0 THEN {<<>>} ELSE {Append(p, q) : p \in All(k - 1), q \in ThreadPrograms(k)}
Done(t) == pc[t] > Len(prog[t])
Do(t) ==
    /\ ~Done(t)
    /\ LET o == prog[t][pc[t]] IN
       \E x \in Step(s, o[1], o[2]) :
          /\ s' = x.s
          /\ in' = IF o[1] = "push" /\ x.r THEN Append(in, o[2][1]) ELSE in
          /\ out' = IF o[1] = "pop" /\ x.r # 0 THEN Append(out, x.r) ELSE out
    /\ pc' = [pc EXCEPT ![t] = @ + 1]
    /\ UNCHANGED <<prog, init>>
Next == \E t \in T : Do(t)
Init == /\ prog \in All(Threads) /\ init \in {IF Arrival THEN n + 1000000 ELSE n : n \in Starts}
        /\ s = Start(init) /\ pc = [t \in T |-> 1] /\ in = Start(init).q /\ out = <<>>
        /\ PrintT("@C" \o ToJson([init |-> init, prog |-> prog]))
Spec == Init /\ [][Next]_vars

(* what came out is the beginning of what went in, and the rest is still there *)
Fifo == out \o s.q = in
Bounded == Len(s.q) <= s.cap
(* refusals happen only when full or not prepared; nobody waits *)
Refusal == \A t \in T : Done(t) \/ (LET o == prog[t][pc[t]] IN
              o[1] = "push" => \A x \in Step(s, o[1], o[2]) : (x.r <=> (s.on /\ Len(s.q) < s.cap)))
NobodyWaits == \A t \in T : Done(t) \/ ENABLED Do(t)
=============================================================================
