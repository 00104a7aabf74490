------------------------------ MODULE Libraries -----------------------------
(* Shared library objects (property P24).                                     *)
(*                                                                            *)
(* lib[i] is what the object in place i holds: -1 no object there, 0 an       *)
(* object without library, k > 0 library k.  refs[k] counts how often library *)
(* k is open.  Opening fails for names that do not exist.                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N,       \* places
          NL,      \* libraries
          Dirs,    \* lengths of directory names used; 0: no directory given
          Names    \* numbers of characters the names of libraries begin with
VARIABLES lib, refs, last
vars == <<lib, refs, last>>
I == 1..N
Here(i) == lib[i] # -1
Count(l) == [k \in 1..NL |-> Cardinality({i \in I : l[i] = k})]
Did(op, a, r) == last' = [op |-> op, a |-> a, r |-> r]
Set(l) == lib' = l /\ refs' = Count(l)
New(i) == ~Here(i) /\ Set([lib EXCEPT ![i] = 0]) /\ Did("new", <<i>>, 0)
OpenL(i, k, n, m) == ~Here(i) /\ Set([lib EXCEPT ![i] = k]) /\ Did("open", <<i, k, n, m>>, k # 0)
Destroy(i) == Here(i) /\ Set([lib EXCEPT ![i] = -1]) /\ Did("destroy", <<i>>, 0)
Moved(i, j, op) == i # j /\ Here(j) /\ Set([lib EXCEPT ![i] = lib[j], ![j] = 0]) /\ Did(op, <<i, j>>, 0)
SelfMove(i) == Here(i) /\ Set(lib) /\ Did("selfMove", <<i>>, 0)
(* symbol s > 0 exists in library s only, symbol 0 in all of them, symbol -1 nowhere *)
Find(i, s) == /\ Here(i) /\ Set(lib)
              /\ Did("find", <<i, s>>, IF lib[i] # 0 /\ (s = 0 \/ s = lib[i]) THEN lib[i] ELSE 0)
Next == \E i \in I :
    \/ New(i) \/ Destroy(i) \/ SelfMove(i)
    \/ \E k \in 0..NL, n \in Dirs, m \in Names : OpenL(i, k, n, m)
    \/ \E s \in -1..NL : Find(i, s)
    \/ \E j \in I : \/ ~Here(i) /\ Moved(i, j, "moveCtor")
                    \/ Here(i) /\ Moved(i, j, "moveAssign")
Init == lib = [i \in I |-> -1] /\ refs = [k \in 1..NL |-> 0] /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars
TypeOK == lib \in [I -> -1..NL]
(* a library is open exactly as often as objects hold it *)
Balanced == refs = Count(lib)
(* holding it ends only by destruction or by assigning something else *)
Kept == [][\A k \in 1..NL : refs'[k] < refs[k] => (/\ last'.op \in {"destroy", "moveAssign"} /\ lib[last'.a[1]] = k)]_vars
Obs == [v |-> lib, refs |-> refs, stray |-> 0]
Live == 0
View == <<lib>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live]))
=============================================================================
