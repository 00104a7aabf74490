---------------------------- MODULE ThreadSteps ----------------------------
(* Thread objects (property P19) as atomic steps.                             *)
(*   obj[o]   0 no object, -1 an object without thread, k it owns thread k    *)
(*   on[k]    the object thread k was started on                              *)
(*   body[k]  "due", "running" or "finished"                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Objects == 1..4
Start(n) == [obj |-> [o \in Objects |-> 0], on |-> <<>>, body |-> <<>>]
Ends(s, r) == [s |-> s, r |-> r]
Goes(s, op, a) == [s |-> s, op |-> op, a |-> a]
Own(s, o, x) == [s EXCEPT !.obj[o] = x]
Finished(s, k) == s.body[k] = "finished"
(* what has to be over before o gives its thread up *)
Joinable(s, o) == s.obj[o] > 0 => Finished(s, s.obj[o])
Step(s, op, a) ==
    LET o == a[1] IN
    CASE op = "new" -> {Ends(Own(s, o, -1), 0)}
      (* r: <<started, creation was made to fail>> *)
      [] op = "run" -> IF s.obj[o] > 0 THEN {Ends(s, <<FALSE, FALSE>>)}
                       ELSE { Ends([obj |-> [s.obj EXCEPT ![o] = Len(s.on) + 1], on |-> Append(s.on, o),
                                    body |-> Append(s.body, "due")], <<TRUE, FALSE>>),
                              Ends(s, <<FALSE, TRUE>>) }
      [] op = "body" -> {Goes([s EXCEPT !.body[k] = "running"], "bodyEnd", <<o, k>>)
                            : k \in {j \in DOMAIN s.on : s.on[j] = o /\ s.body[j] = "due"}}
      [] op = "bodyEnd" -> {Ends([s EXCEPT !.body[a[2]] = "finished"], 0)}
      [] op = "join" -> IF Joinable(s, o) THEN {Ends(Own(s, o, -1), 0)} ELSE {}
      [] op = "detach" -> {Ends(Own(s, o, -1), 0)}
      [] op = "moveNew" -> {Ends(Own(Own(s, o, s.obj[a[2]]), a[2], -1), 0)}
      [] op = "moveTo" -> IF Joinable(s, o) THEN {Ends(Own(Own(s, o, s.obj[a[2]]), a[2], -1), 0)} ELSE {}
      [] op = "destroy" -> IF Joinable(s, o) THEN {Ends(Own(s, o, 0), 0)} ELSE {}
      (* the driver waits for the bodies started on o *)
      [] op = "settle" -> IF \A k \in DOMAIN s.on : s.on[k] = o => Finished(s, k) THEN {Ends(s, 0)} ELSE {}
      [] op = "working" -> IF s.obj[o] > 0 THEN {Ends(s, TRUE), Ends(s, FALSE)} ELSE {Ends(s, FALSE)}
=============================================================================
