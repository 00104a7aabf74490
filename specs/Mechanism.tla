----------------------------- MODULE Mechanism -----------------------------
(* The software module's mechanisms (property P35): every question goes to    *)
(* the mechanism's own callback for it, with the mechanism itself, and the    *)
(* parameters it is given keep their kind and contents however they were      *)
(* stored, copied and moved before.                                           *)
(* Mechanism 0 has no callbacks of its own, 1 and 2 share theirs, 3 has       *)
(* others.  A parameter is a kind and a value, Nothing when not set.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS N,        \* places of parameters
          Kinds,    \* kinds of parameters
          V         \* values of one kind
VARIABLES par, last
vars == <<par, last>>
View == par

Nothing == <<0 - 1, 0>>
Places == 1..N
Mechanisms == 0..3
Questions == <<"type", "info", "encryptor", "decryptor", "signer", "verifier">>
Invalid == 112      \* MECHANISM_INVALID
BadArguments == 7   \* ARGUMENTS_BAD
Family(m) == IF m = 3 THEN 2 ELSE 1

Init == par = [i \in Places |-> Nothing] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Set(o, a, r) == last' = [op |-> o, a |-> a, r |-> r]
Put(i, x) == par' = [par EXCEPT ![i] = x]

Make == \E i \in Places, k \in Kinds, v \in 1..V, how \in {"new", "newMoved", "assign", "set", "setMoved"} :
           Put(i, <<k, v>>) /\ Set(how, <<i, k, v>>, 0)
Clear == \E i \in Places : Put(i, Nothing) /\ Set("reset", <<i>>, 0)
Copy == \E i, j \in Places, how \in {"copyNew", "copyTo"} :
           (how = "copyNew" => i # j) /\ Put(i, par[j]) /\ Set(how, <<i, j>>, 0)
(* the source of a move is made afresh *)
Move == \E i, j \in Places, how \in {"moveNew", "moveTo"} :
           /\ i # j
           /\ par' = [par EXCEPT ![i] = par[j], ![j] = Nothing]
           /\ Set(how, <<i, j>>, 0)
Ask == \E m \in Mechanisms, q \in DOMAIN Questions :
          /\ Set("ask", <<m, Questions[q]>>,
                 IF m = 0 THEN IF q <= 2 THEN 0 ELSE Invalid ELSE 1000 * Family(m) + 10 * q + m)
          /\ UNCHANGED par
Process == \E m \in Mechanisms, i \in Places :
              /\ Set("process", <<m, i>>, IF m = 0 THEN <<BadArguments>> ELSE <<1000 * Family(m) + m, par[i][1], par[i][2]>>)
              /\ UNCHANGED par
Next == Make \/ Clear \/ Copy \/ Move \/ Ask \/ Process
Spec == Init /\ [][Next]_vars

TypeOK == \A i \in Places : par[i] = Nothing \/ (par[i][1] \in Kinds /\ par[i][2] \in 1..V)
(* asking changes no parameter; a step changes at most the places it names *)
AskingIsQuiet == [][last'.op \in {"ask", "process"} => par' = par]_vars
OnlyNamed == [][\A i \in Places : par'[i] # par[i] => i \in {last'.a[k] : k \in 1..(IF last'.op \in {"copyTo", "copyNew", "moveTo", "moveNew"} THEN 2 ELSE 1)}]_vars
(* different mechanisms, different answers *)
ASSUME \A m, n \in 1..3, q, p \in DOMAIN Questions :
          (m # n \/ q # p) => 1000 * Family(m) + 10 * q + m # 1000 * Family(n) + 10 * p + n
Obs == par
Live == 0
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
