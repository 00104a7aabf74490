----------------------------- MODULE Descriptors ----------------------------
(* Ownership of socket descriptors by network objects (property P22).         *)
(*                                                                            *)
(* Objects live in places 1..N of fixed kinds; kind 5 is a connection         *)
(* accepted by a server.  st[i] tells what the object in place i is:          *)
(*   absent, none (no descriptor), down (a client without descriptor that     *)
(*   still knows its address), ok, bad (has a descriptor but the last call    *)
(*   failed).  d[i] is the descriptor it owns, named by the lowest free       *)
(* number; any system call may be made to fail.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps
CONSTANTS Kind      \* kinds of the places: 1 UdpServer 2 UdpClient 3 TcpServer 4 TcpClient 5 accepted
VARIABLES st, d, last
vars == <<st, d, last>>
N == Len(Kind)
I == 1..N
Owning(i) == st[i] \in {"ok", "bad"}
Here(i) == st[i] # "absent"
Open == {d[i] : i \in {j \in I : Owning(j)}}
New == MinOf((1..(N + 1)) \ Open)
(* the calls creation makes, any of which may fail *)
Calls(k) == CASE k = 1 -> {"socket", "setsockopt", "bind"}
              [] k = 2 -> {"socket"}
              [] k = 3 -> {"socket", "setsockopt", "bind", "listen"}
              [] k = 4 -> {"socket"}
              [] k = 5 -> {"accept"}
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Set(s, e) == st' = s /\ d' = [i \in I |-> IF s[i] \in {"ok", "bad"} THEN e[i] ELSE 0]
Made(i, op, a) == Set([st EXCEPT ![i] = "ok"], [d EXCEPT ![i] = New]) /\ Did(op, a, TRUE)
Failed(i, op, a) == Set([st EXCEPT ![i] = "none"], d) /\ Did(op, a, FALSE)

Create(i) == /\ ~Here(i) /\ Kind[i] # 5
             /\ \/ Made(i, "create", <<i, "">>)
                \/ \E f \in Calls(Kind[i]) : Failed(i, "create", <<i, f>>)
Accept(i, j) == /\ ~Here(i) /\ Kind[i] = 5 /\ Kind[j] = 3 /\ Here(j)
                /\ IF st[j] # "ok" THEN Failed(i, "accept", <<i, j, "">>)
                   ELSE Made(i, "accept", <<i, j, "">>) \/ Failed(i, "accept", <<i, j, "accept">>)
Moved(i, j, op) == /\ i # j /\ Kind[i] = Kind[j] /\ Here(j)
                   /\ Set([st EXCEPT ![i] = st[j], ![j] = "none"], [d EXCEPT ![i] = d[j], ![j] = 0])
                   /\ Did(op, <<i, j>>, 0)
MoveCtor(i, j) == ~Here(i) /\ Moved(i, j, "moveCtor")
MoveAssign(i, j) == Here(i) /\ Moved(i, j, "moveAssign")
SelfMove(i) == Here(i) /\ Set(st, d) /\ Did("selfMove", <<i>>, 0)
Destroy(i) == /\ Here(i) /\ Set([st EXCEPT ![i] = "absent"], d)
              /\ \E f \in {""} \cup (IF Owning(i) THEN {"close"} ELSE {}) : Did("destroy", <<i, f>>, 0)
(* clients *)
Connect(i) == /\ Kind[i] = 4 /\ Here(i)
              /\ IF ~Owning(i) THEN Set(st, d) /\ Did("connect", <<i, "">>, FALSE)
                 ELSE \/ Set([st EXCEPT ![i] = "ok"], d) /\ Did("connect", <<i, "">>, TRUE)
                      \/ Set([st EXCEPT ![i] = "bad"], d) /\ Did("connect", <<i, "connect">>, FALSE)
Disconnect(i) == /\ Kind[i] = 4 /\ Here(i)
                 /\ IF ~Owning(i) THEN Set(st, d) /\ Did("disconnect", <<i, "">>, FALSE)
                    ELSE /\ Set([st EXCEPT ![i] = "down"], d)
                         /\ Did("disconnect", <<i, "">>, TRUE) \/ Did("disconnect", <<i, "close">>, FALSE)
Reconnect(i) == /\ Kind[i] = 4 /\ st[i] \in {"ok", "bad", "down"}
                /\ LET n == IF Owning(i) THEN MinOf((1..(N + 1)) \ (Open \ {d[i]})) ELSE New IN
                   \/ Set([st EXCEPT ![i] = "ok"], [d EXCEPT ![i] = n]) /\ Did("reconnect", <<i, "">>, TRUE)
                   \/ Set([st EXCEPT ![i] = "bad"], [d EXCEPT ![i] = n]) /\ Did("reconnect", <<i, "connect">>, FALSE)
                   \/ Set([st EXCEPT ![i] = "none"], d) /\ Did("reconnect", <<i, "socket">>, FALSE)
(* any use of the object reaches its own descriptor or none *)
Use(i) == Here(i) /\ Kind[i] # 3 /\ Set(st, d) /\ Did("use", <<i>>, Owning(i))

Next == \E i \in I : \/ Create(i) \/ SelfMove(i) \/ Destroy(i) \/ Connect(i) \/ Disconnect(i) \/ Reconnect(i) \/ Use(i)
                     \/ \E j \in I : Accept(i, j) \/ MoveCtor(i, j) \/ MoveAssign(i, j)
Init == st = [i \in I |-> "absent"] /\ d = [i \in I |-> 0] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == /\ st \in [I -> {"absent", "none", "down", "ok", "bad"}]
          /\ \A i \in I : (d[i] # 0) <=> Owning(i)
(* no descriptor has two owners *)
Exclusive == \A i, j \in I : (i # j /\ d[i] # 0) => d[i] # d[j]
(* a descriptor is given up only by replacing or destroying its owner, or by disconnecting *)
KeptUntilGivenUp == [][\A x \in Open : x \notin {d'[i] : i \in I} =>
    last'.op \in {"destroy", "moveAssign", "disconnect", "reconnect"} /\ d[last'.a[1]] = x]_vars

(* what can be seen: the validity and descriptor of every object, how many are open, stray calls *)
Obs == [v |-> [i \in I |-> CASE st[i] = "absent" -> 0 [] st[i] = "ok" -> d[i] [] st[i] = "bad" -> 100 + d[i] [] OTHER -> -1],
        n |-> Cardinality(Open), stray |-> 0]
Live == 0
View == <<st, d>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
