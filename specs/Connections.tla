----------------------------- MODULE Connections ----------------------------
(* Clients connected to a TCP server (property P23).                          *)
(*                                                                            *)
(* Direction 1 of connection k leads from the client to the server, direction *)
(* 2 back.  have[k][d] bytes are on their way; their values follow from their *)
(* place in the stream, so any loss, repetition or exchange changes them.     *)
(* up[k][d] tells that the sender of direction d has not closed yet, and      *)
(* quiet[k][d] that the receiver of direction d has been told not to block.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Conns, Chunks, Sizes, MaxHave
VARIABLES state, have, up, quiet, last
vars == <<state, have, up, quiet, last>>
K == 1..Conns
D == 1..2
Min(a, b) == IF a < b THEN a ELSE b
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Other(d) == 3 - d
Connect(k) == /\ state[k] = "none"
              /\ state' = [state EXCEPT ![k] = "open"] /\ up' = [up EXCEPT ![k] = <<TRUE, TRUE>>]
              /\ have' = [have EXCEPT ![k] = <<0, 0>>] /\ quiet' = [quiet EXCEPT ![k] = <<FALSE, FALSE>>]
              /\ Did("connect", <<k>>, 0)
Send(k, d, n) == /\ state[k] = "open" /\ up[k][d] /\ up[k][Other(d)] /\ have[k][d] + n <= MaxHave
                 /\ have' = [have EXCEPT ![k][d] = @ + n] /\ Did("send", <<k, d, n>>, n)
                 /\ UNCHANGED <<state, up, quiet>>
(* as much as is there and fits; nothing when the other side has closed; an    *)
(* error when nothing is there and the receiver must not block              *)
Receive(k, d, n) == /\ state[k] = "open" /\ up[k][Other(d)] /\ (have[k][d] > 0 \/ ~up[k][d] \/ quiet[k][d])
                    /\ have' = [have EXCEPT ![k][d] = @ - Min(n, have[k][d])]
                    /\ Did("receive", <<k, d, n, have[k][d], ~up[k][d]>>,
                           IF have[k][d] = 0 /\ up[k][d] THEN -1 ELSE Min(n, have[k][d])) /\ UNCHANGED <<state, up, quiet>>
(* how much is there *)
Number(k, d) == /\ state[k] = "open" /\ up[k][Other(d)]
                /\ Did("number", <<k, d, have[k][d]>>, have[k][d]) /\ UNCHANGED <<state, have, up, quiet>>
(* waiting for some bytes ends when at least so many are there *)
WaitFor(k, d, n) == /\ state[k] = "open" /\ up[k][Other(d)] /\ n <= have[k][d]
                    /\ Did("waitBytes", <<k, d, n, have[k][d]>>, have[k][d]) /\ UNCHANGED <<state, have, up, quiet>>
(* the connection of the receiver of direction d is alive until everything is read and the sender has closed *)
Alive(k, d) == /\ state[k] = "open" /\ up[k][Other(d)]
               /\ Did("alive", <<k, d, have[k][d], ~up[k][d]>>, up[k][d] \/ have[k][d] > 0) /\ UNCHANGED <<state, have, up, quiet>>
(* a side closes after it has read everything *)
Close(k, d) == /\ state[k] = "open" /\ up[k][d] /\ up[k][Other(d)] /\ have[k][Other(d)] = 0
               /\ up' = [up EXCEPT ![k][d] = FALSE] /\ Did("close", <<k, d>>, 0) /\ UNCHANGED <<state, have, quiet>>
(* sending to a side that is gone ends in an error, not in the death of the process *)
Refused(k, d) == /\ state[k] = "open" /\ up[k][d] /\ ~up[k][Other(d)] /\ have[k][Other(d)] = 0
                 /\ state' = [state EXCEPT ![k] = "dead"] /\ Did("refused", <<k, d>>, -1) /\ UNCHANGED <<have, up, quiet>>
Drop(k) == /\ state[k] # "none" /\ state' = [state EXCEPT ![k] = "none"]
           /\ have' = [have EXCEPT ![k] = <<0, 0>>] /\ up' = [up EXCEPT ![k] = <<FALSE, FALSE>>]
           /\ quiet' = [quiet EXCEPT ![k] = <<FALSE, FALSE>>] /\ Did("drop", <<k>>, 0)
Mode(k, d) == /\ state[k] = "open" /\ up[k][Other(d)] /\ quiet' = [quiet EXCEPT ![k][d] = ~@]
              /\ Did("mode", <<k, d, quiet'[k][d]>>, 0) /\ UNCHANGED <<state, have, up>>
(* more than the system can hold, sent by a side that does not block, piece by piece as reported, arrives whole *)
Flood(k, d) == /\ state[k] = "open" /\ up[k] = <<TRUE, TRUE>> /\ have[k] = <<0, 0>> /\ quiet[k][Other(d)]
               /\ Did("flood", <<k, d>>, TRUE) /\ UNCHANGED <<state, have, up, quiet>>
Next == \E k \in K : \/ Connect(k) \/ Drop(k)
                     \/ \E d \in D : \/ Number(k, d) \/ Mode(k, d) \/ Flood(k, d) \/ Alive(k, d) \/ Close(k, d) \/ Refused(k, d)
                                     \/ \E n \in Chunks : Send(k, d, n) \/ WaitFor(k, d, n)
                                     \/ \E n \in Sizes : Receive(k, d, n)
Init == /\ state = [k \in K |-> "none"] /\ have = [k \in K |-> <<0, 0>>] /\ up = [k \in K |-> <<FALSE, FALSE>>]
        /\ quiet = [k \in K |-> <<FALSE, FALSE>>] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == have \in [K -> [D -> 0..MaxHave]]
(* bytes are neither created nor lost: a direction changes only by a send or a receive, by what they report *)
Conserved == [][\A k \in K, d \in D : (state[k] = "open" /\ state'[k] = "open") =>
    have'[k][d] - have[k][d] = (IF last'.op \in {"send", "receive"} /\ last'.a[1] = k /\ last'.a[2] = d
                                THEN IF last'.op = "send" THEN last'.r ELSE IF last'.r < 0 THEN 0 ELSE -last'.r ELSE 0)]_vars
(* what can be seen without an operation: who has been told not to block *)
Obs == [k \in K |-> [d \in D |-> state[k] # "none" /\ up[k][Other(d)] /\ quiet[k][d]]]
Live == 0
View == <<state, have, up, quiet>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
