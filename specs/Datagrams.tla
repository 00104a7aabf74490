------------------------------ MODULE Datagrams -----------------------------
(* A UDP server and several clients (property P23).                           *)
(*                                                                            *)
(* inbox is what waits at the server: <<client, content, length>>; back[c] is *)
(* what waits at client c: <<content, length>>.  peer is the client the       *)
(* server's answer goes to (0: nobody yet).  The content of a message is a    *)
(* number that determines all its bytes.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Clients, Lens, Sizes, MaxAll
VARIABLES inbox, back, peer, last
vars == <<inbox, back, peer, last>>
C == 1..Clients
Min(a, b) == IF a < b THEN a ELSE b
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
RECURSIVE Total(_)
Total(c) == IF c = 0 THEN Len(inbox) ELSE Len(back[c]) + Total(c - 1)
Room == Total(Clients) < MaxAll
Used == {inbox[i][2] : i \in DOMAIN inbox} \union UNION {{back[c][i][1] : i \in DOMAIN back[c]} : c \in C}
(* messages on their way differ from each other *)
next == CHOOSE v \in 1..MaxAll : v \notin Used /\ \A w \in 1..MaxAll : w \notin Used => v <= w
MaxLen == 65507
CSend(c, n) == /\ Room
               /\ IF n <= MaxLen
                  THEN inbox' = Append(inbox, <<c, next, n>>) /\ Did("csend", <<c, next, n>>, n)
                  ELSE inbox' = inbox /\ Did("csend", <<c, next, n>>, -1)
               /\ UNCHANGED <<back, peer>>
(* waiting tells the length of the first message and whom an answer would reach *)
Wait == /\ inbox # <<>> /\ peer' = Head(inbox)[1]
        /\ Did("wait", <<>>, Head(inbox)[3]) /\ UNCHANGED <<inbox, back>>
(* the part that fits is delivered, the rest of the message is dropped *)
Receive(n) == /\ inbox # <<>> /\ peer # 0
              /\ LET m == Head(inbox) IN
                 /\ peer' = m[1]
                 /\ Did("receive", <<n>>, <<Min(n, m[3]), IF Min(n, m[3]) = 0 THEN 0 ELSE m[2]>>)
              /\ inbox' = Tail(inbox) /\ UNCHANGED back
Reply(n) == /\ peer # 0 /\ Room
            /\ back' = [back EXCEPT ![peer] = Append(@, <<next, n>>)]
            /\ Did("reply", <<next, n>>, n) /\ UNCHANGED <<inbox, peer>>
CWait(c) == /\ back[c] # <<>> /\ Did("cwait", <<c>>, Head(back[c])[2]) /\ UNCHANGED <<inbox, back, peer>>
CReceive(c, n) == /\ back[c] # <<>>
                  /\ LET m == Head(back[c]) IN
                     Did("creceive", <<c, n>>, <<Min(n, m[2]), IF Min(n, m[2]) = 0 THEN 0 ELSE m[1]>>)
                  /\ back' = [back EXCEPT ![c] = Tail(@)] /\ UNCHANGED <<inbox, peer>>
Next == \/ Wait
        \/ \E n \in Sizes : Receive(n)
        \/ \E n \in Lens : Reply(IF n <= MaxLen THEN n ELSE 1)
        \/ \E c \in C : CWait(c) \/ (\E n \in Lens : CSend(c, n)) \/ (\E n \in Sizes : CReceive(c, n))
Init == inbox = <<>> /\ back = [c \in C |-> <<>>] /\ peer = 0 /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == Total(Clients) <= MaxAll /\ Cardinality(Used) = Total(Clients)
(* messages leave in the order they came, one by one *)
Order == [][\/ inbox' = inbox
            \/ inbox # <<>> /\ inbox' = Tail(inbox)
            \/ inbox' # <<>> /\ SubSeq(inbox', 1, Len(inbox') - 1) = inbox]_vars
(* nobody gets an answer meant for somebody else *)
Addressed == [][\A c \in C : Len(back'[c]) > Len(back[c]) => peer = c]_vars
(* only what can be seen through the objects: nothing but results *)
Obs == 0
Live == 0
View == <<inbox, back, peer>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
