------------------------------- MODULE Chain --------------------------------
(* Owning pointers inside objects that are owned themselves (property P11).  *)
(*                                                                           *)
(* own[i] is the object pointer i owns, nxt[o] the object owned by the       *)
(* pointer inside object o; 0 for none.  Chains have no cycles.  An object   *)
(* exists exactly as long as it can be reached, so assigning to a pointer    *)
(* may end the object in which the source of the assignment lies.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SeqOps

CONSTANTS N,        \* number of pointers
          NO,       \* number of objects that can exist at a time
          Shared    \* several pointers may own one object
VARIABLES own, nxt, last
vars == <<own, nxt, last>>
I == 1..N
Objects == 1..NO

RECURSIVE Along(_, _)
Along(f, o) == IF o = 0 THEN <<>> ELSE <<o>> \o Along(f, f[o])
Reach(w, f) == UNION {Elems(Along(f, w[i])) : i \in I}
Alive == Reach(own, nxt)
NewObj == MinOf(Objects \ Alive)
Did(op, args) == last' = [op |-> op, a |-> args, r |-> 0]
(* what cannot be reached ends *)
To(w, f) == /\ own' = w
            /\ nxt' = [o \in Objects |-> IF o \in Reach(w, f) THEN f[o] ELSE 0]
(* o may come to own q without closing a cycle *)
Acyclic(o, q) == o \notin Elems(Along(nxt, q))

Make(i) == /\ Objects \ Alive # {}
           /\ To([own EXCEPT ![i] = NewObj], [nxt EXCEPT ![NewObj] = 0])
           /\ Did("make", <<i, NewObj>>)
Clean(i) == To([own EXCEPT ![i] = 0], nxt) /\ Did("clean", <<i>>)
Copy(i, j) == Shared /\ i # j /\ To([own EXCEPT ![i] = own[j]], nxt) /\ Did("copy", <<i, j>>)
Move(i, j) == i # j /\ To([own EXCEPT ![i] = own[j], ![j] = 0], nxt) /\ Did("move", <<i, j>>)
Link(i, j) == /\ Shared /\ own[i] # 0 /\ Acyclic(own[i], own[j])
              /\ To(own, [nxt EXCEPT ![own[i]] = own[j]]) /\ Did("link", <<i, j>>)
LinkMove(i, j) == /\ i # j /\ own[i] # 0 /\ Acyclic(own[i], own[j])
                  /\ To([own EXCEPT ![j] = 0], [nxt EXCEPT ![own[i]] = own[j]])
                  /\ Did("linkMove", <<i, j>>)
(* pointer i from the pointer inside the object of pointer j *)
Follow(i, j) == /\ Shared /\ own[j] # 0
                /\ To([own EXCEPT ![i] = nxt[own[j]]], nxt) /\ Did("follow", <<i, j>>)
FollowMove(i, j) == /\ own[j] # 0
                    /\ To([own EXCEPT ![i] = nxt[own[j]]], [nxt EXCEPT ![own[j]] = 0])
                    /\ Did("followMove", <<i, j>>)
(* the pointer inside the object of pointer i from the one inside the object it owns *)
Skip(i) == /\ Shared /\ own[i] # 0 /\ nxt[own[i]] # 0
           /\ To(own, [nxt EXCEPT ![own[i]] = nxt[nxt[own[i]]]]) /\ Did("skip", <<i>>)
SkipMove(i) == /\ own[i] # 0 /\ nxt[own[i]] # 0
               /\ To(own, [nxt EXCEPT ![own[i]] = nxt[nxt[own[i]]], ![nxt[own[i]]] = 0])
               /\ Did("skipMove", <<i>>)
Unlink(i) == own[i] # 0 /\ To(own, [nxt EXCEPT ![own[i]] = 0]) /\ Did("unlink", <<i>>)

Next == \E i \in I :
    \/ Make(i) \/ Clean(i) \/ Skip(i) \/ SkipMove(i) \/ Unlink(i)
    \/ \E j \in I : \/ Copy(i, j) \/ Move(i, j) \/ Link(i, j) \/ LinkMove(i, j)
                    \/ Follow(i, j) \/ FollowMove(i, j)
Init == /\ own = [i \in I |-> 0] /\ nxt = [o \in Objects |-> 0]
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == own \in [I -> 0..NO] /\ nxt \in [Objects -> 0..NO]
NoCycle == \A o \in Alive : o \notin Elems(Along(nxt, nxt[o]))
(* objects nobody reaches own nothing *)
OnlyAlive == \A o \in Objects \ Alive : nxt[o] = 0
Exclusive == ~Shared => \A o \in Objects :
    Cardinality({i \in I : own[i] = o}) + Cardinality({p \in Objects : nxt[p] = o}) <= 1
(* nothing that is reached after an operation was unreachable before, except what was made *)
NothingRevived == [][last'.op # "make" => Reach(own', nxt') \subseteq Alive]_vars

Obs == [i \in I |-> Along(nxt, own[i])]
Live == Cardinality(Alive)
View == <<own, nxt>>
LongNext == Next
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs', l |-> Live']))
=============================================================================
