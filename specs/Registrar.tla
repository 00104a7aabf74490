------------------------------ MODULE Registrar -----------------------------
(* Registration of sockets for asynchronous events (property P21).            *)
(*                                                                            *)
(* Kind[s]: 1 UDP server, 2 UDP client, 3 listening TCP server, 4 accepted    *)
(* connection, 5 TCP client.  reg is the set of registered sockets, pend[s]   *)
(* tells that events of s wait in the queue of its kind (for a listening      *)
(* server: how many accepted connections), gone is the set of sockets whose   *)
(* other side has closed, note tells whether a notificator is set.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, MaxConns, Slow, Bursts
VARIABLES reg, pend, gone, note, last
vars == <<reg, pend, gone, note, last>>
S == DOMAIN Kinds
Q == 1..5
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Add(s) == reg' = reg \union {s} /\ Did("add", <<s>>, 0) /\ UNCHANGED <<pend, gone, note>>
Remove(s) == reg' = reg \ {s} /\ Did("remove", <<s>>, 0) /\ UNCHANGED <<pend, gone, note>>
(* registering an object without a socket fails and changes nothing *)
AddInvalid(q) == Did("invalid", <<q>>, FALSE) /\ UNCHANGED <<reg, pend, gone, note>>
(* something arrives at s: bytes, or n connections at once for a listening server; the result tells *)
(* whether the notificator was called                                                              *)
Arrive(s, n) == /\ s \notin gone
                /\ IF Kinds[s] = 3 THEN s \in reg /\ pend[s] + n <= MaxConns ELSE n = 1
                /\ pend' = IF s \in reg THEN [pend EXCEPT ![s] = IF Kinds[s] = 3 THEN @ + n ELSE 1] ELSE pend
                /\ Did("arrive", <<s, n, s \in reg>>, s \in reg /\ note) /\ UNCHANGED <<reg, gone, note>>
HangUp(s) == /\ Kinds[s] \in {4, 5} /\ s \notin gone
             /\ gone' = gone \union {s} /\ pend' = IF s \in reg THEN [pend EXCEPT ![s] = 1] ELSE pend
             /\ Did("hang", <<s, s \in reg>>, s \in reg /\ note) /\ UNCHANGED <<reg, note>>
(* an event in the middle of somebody's blocking call *)
Disturb(s) == /\ Slow /\ Kinds[s] = 1 /\ s \in reg /\ pend' = [pend EXCEPT ![s] = 1]
              /\ Did("disturb", <<s>>, TRUE) /\ UNCHANGED <<reg, gone, note>>
(* a connection that finds the queue full is closed, not forgotten; the queue is emptied afterwards *)
Overflow(s) == /\ Slow /\ Kinds[s] = 3 /\ s \in reg /\ pend' = [t \in S |-> IF Kinds[t] = 3 THEN 0 ELSE pend[t]]
               /\ Did("overflow", <<s>>, TRUE) /\ UNCHANGED <<reg, gone, note>>
(* two sockets at once, before the handler could run *)
Burst(s, t) == /\ Bursts /\ s < t /\ {s, t} \subseteq reg /\ s \notin gone /\ t \notin gone /\ Kinds[s] # 3 /\ Kinds[t] # 3
               /\ pend' = [pend EXCEPT ![s] = 1, ![t] = 1]
               /\ Did("burst", <<s, t>>, note) /\ UNCHANGED <<reg, gone, note>>
(* taking everything out of the queue of one kind: the sockets in it; connections one by one *)
Drain(q) == /\ pend' = [s \in S |-> IF Kinds[s] = q THEN 0 ELSE pend[s]]
            /\ Did("drain", <<q>>, [s \in S |-> IF Kinds[s] = q THEN pend[s] ELSE 0]) /\ UNCHANGED <<reg, gone, note>>
Clear == /\ pend' = [s \in S |-> 0] /\ Did("clear", <<>>, 0) /\ UNCHANGED <<reg, gone, note>>
Notificator == note' = ~note /\ Did("note", <<note'>>, 0) /\ UNCHANGED <<reg, pend, gone>>
Next == \/ \E s \in S : Add(s) \/ Remove(s) \/ HangUp(s) \/ Disturb(s) \/ Overflow(s) \/ (\E n \in 1..2 : Arrive(s, n))
        \/ \E q \in Q : Drain(q) \/ AddInvalid(q)
        \/ Clear \/ Notificator \/ (\E s, t \in S : Burst(s, t))
Init == reg = {} /\ pend = [s \in S |-> 0] /\ gone = {} /\ note = FALSE /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == reg \subseteq S /\ \A s \in S : pend[s] \in 0..(IF Kinds[s] = 3 THEN MaxConns ELSE 1)
(* only registered sockets get events, and only the one something happened to *)
Own == [][\A s \in S : pend'[s] > pend[s] => (s \in reg /\ (last'.a[1] = s \/ (last'.op = "burst" /\ last'.a[2] = s)))]_vars
(* events leave the queues only when taken *)
Kept == [][\A s \in S : pend'[s] < pend[s] => last'.op \in {"drain", "clear", "overflow"}]_vars
(* (de)registering one socket leaves the others alone *)
Others == [][\A s \in S : (s \in reg) # (s \in reg') => (last'.op \in {"add", "remove"} /\ last'.a[1] = s /\ pend' = pend)]_vars
Obs == 0
Live == 0
View == <<reg, pend, gone, note>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
