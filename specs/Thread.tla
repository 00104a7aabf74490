------------------------------- MODULE Thread -------------------------------
(* Histories of thread objects as their user sees them (property P19).        *)
(* hist of one user thread; the threads started run the bodies at any time.   *)
(* An object must not be destroyed before the bodies started on it are over   *)
(* (they are its members), so "settle" comes first.                           *)
EXTENDS ThreadSteps
CONSTANT O, MaxThreads
VARIABLES s, loose, last
vars == <<s, loose, last>>
Os == 1..O
Did(op, a) == last' = [op |-> op, a |-> a, r |-> 0]
(* the user's operation happens when it can *)
(* programs are made as if creation always succeeds *)
Do(op, a) == /\ \E x \in Step(s, op, a) : "r" \in DOMAIN x /\ (op = "run" => ~x.r[2]) /\ s' = x.s
             /\ Did(op, a)
Exists(o) == s.obj[o] # 0
User ==
    \E o \in Os :
      \/ ~Exists(o) /\ Do("new", <<o>>) /\ UNCHANGED loose
      \/ Exists(o) /\ Len(s.on) < MaxThreads /\ Do("run", <<o>>)
         /\ loose' = IF s'.obj[o] # s.obj[o] THEN loose \cup {o} ELSE loose
      \/ Exists(o) /\ (\/ Do("join", <<o>>) \/ Do("detach", <<o>>) \/ Do("working", <<o>>)) /\ UNCHANGED loose
      \/ Exists(o) /\ Do("settle", <<o>>) /\ loose' = loose \ {o}
      \/ Exists(o) /\ o \notin loose /\ Do("destroy", <<o>>) /\ UNCHANGED loose
      \/ \E p \in Os \ {o} : Exists(p) /\ (IF Exists(o) THEN Do("moveTo", <<o, p>>) ELSE Do("moveNew", <<o, p>>)) /\ UNCHANGED loose
(* bodies run at any time *)
Bodies == /\ \E k \in DOMAIN s.on : LET b == s.body[k]
                                    IN b # "finished" /\ s' = [s EXCEPT !.body[k] = IF b = "due" THEN "running" ELSE "finished"]
          /\ last' = [op |-> "body", a |-> <<>>, r |-> 0] /\ UNCHANGED loose
Next == User \/ Bodies
Init == s = Start(0) /\ loose = {} /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
(* a thread has at most one owner *)
OneOwner == \A o, p \in Os : o # p /\ s.obj[o] > 0 => s.obj[o] # s.obj[p]
Known == \A o \in Os : s.obj[o] <= Len(s.on)
(* join, replacement and destruction only with a finished body; only detaching gives up a running one *)
GivenUp(k) == /\ \E o \in Os : s.obj[o] = k
              /\ \A o \in Os : s'.obj[o] # k
Reclaimed == [][\A k \in DOMAIN s.on : GivenUp(k) => Finished(s, k) \/ last'.op = "detach"]_vars
View == <<s, loose>>
Obs == 0
(* what a user's program depends on: what the objects own and which are in use by bodies *)
Shape == <<[o \in Os |-> IF s.obj[o] > 0 THEN s.on[s.obj[o]] ELSE s.obj[o]], [o \in Os |-> o \in loose]>>
Emit == last'.op = "body" \/ PrintT("@E" \o ToJson([s |-> Shape, o |-> last', t |-> Shape', b |-> Obs]))
=============================================================================
