------------------------------- MODULE Serial -------------------------------
(* Serialization in a declared byte order (property P12).                    *)
(*                                                                           *)
(* A value is a sequence of bytes, most significant first.  A field is the   *)
(* whole value or `size` of its bytes beginning `off` bytes from the most    *)
(* significant one.  A serializer writes the field's bytes at its position   *)
(* in its own order and advances; a deserializer does the opposite.  The     *)
(* order an object keeps its value in ("be", "le") never shows.              *)
EXTENDS Integers, Sequences, TLC, Json

CONSTANTS N,        \* bytes in the buffer
          Widths,   \* widths of values in bytes
          Pats      \* bytes of values, eight each; a value is the last `w` of them
VARIABLES buf, wo, wp, ro, rp, last
vars == <<buf, wo, wp, ro, rp, last>>
Orders == {"be", "le"}
Val(p, w) == SubSeq(p, 9 - w, 8)
Reverse(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
InOrder(o, s) == IF o = "be" THEN s ELSE Reverse(s)

(* buffer with the bytes s written from position p *)
Written(p, s) == [i \in 1..N |-> IF i > p /\ i <= p + Len(s) THEN s[i - p] ELSE buf[i]]
Part(v, size, off) == SubSeq(v, off + 1, off + size)
Patched(v, off, s) == [i \in DOMAIN v |-> IF i > off /\ i <= off + Len(s) THEN s[i - off] ELSE v[i]]

Did(op, args, r) == last' = [op |-> op, a |-> args, r |-> r]

Writer(o, p) == /\ wo' = o /\ wp' = p /\ UNCHANGED <<buf, ro, rp>>
                /\ Did("writer", <<o, p>>, 0)
Reader(o, p) == /\ ro' = o /\ rp' = p /\ UNCHANGED <<buf, wo, wp>>
                /\ Did("reader", <<o, p>>, 0)

Store(s) == /\ wp + Len(s) <= N
            /\ buf' = Written(wp, InOrder(wo, s))
            /\ wp' = wp + Len(s)
            /\ UNCHANGED <<wo, ro, rp>>
(* s says whether the C++ type is signed, which makes no difference *)
Put(w, s, p) == Store(Val(p, w)) /\ Did("put", <<s, Val(p, w)>>, w)
PutField(k, w, size, off, p) == /\ Store(Part(Val(p, w), size, off))
                                /\ Did("putField", <<k, size, off, Val(p, w)>>, size)

Read(size) == InOrder(ro, SubSeq(buf, rp + 1, rp + size))
Advance(size) == /\ rp + size <= N
                 /\ rp' = rp + size
                 /\ UNCHANGED <<buf, wo, wp, ro>>
Get(w, s) == Advance(w) /\ Did("get", <<s, w>>, [n |-> w, v |-> Read(w)])
GetField(k, w, size, off, p) ==
    /\ Advance(size)
    /\ Did("getField", <<k, size, off, Val(p, w)>>, [n |-> size, v |-> Patched(Val(p, w), off, Read(size))])

(* converting between byte orders; the answer is the bytes in memory *)
Convert(f, t, s, w, p) ==
    /\ UNCHANGED <<buf, wo, wp, ro, rp>>
    /\ Did("convert", <<f, t, s, Val(p, w)>>, InOrder(t, Val(p, w)))
(* an object keeping its value in the other order: same value, same field *)
Recast(k, w, size, off, p) ==
    /\ UNCHANGED <<buf, wo, wp, ro, rp>>
    /\ Did("recast", <<k, size, off, Val(p, w)>>, [v |-> Val(p, w), f |-> Part(Val(p, w), size, off)])
(* the bytes of a constant in the opposite order, computed while compiling *)
Fixed == <<<<1, 2, 3, 4, 5, 6, 7, 8>>, <<128, 255, 0, 127, 254, 1, 128, 0>>, <<255, 255, 255, 255, 255, 255, 255, 255>>,
           <<0, 0, 0, 0, 0, 0, 0, 0>>, <<0, 0, 0, 0, 127, 255, 0, 1>>, <<240, 15, 170, 85, 195, 60, 153, 102>>>>
Constant(k, s, w) == /\ UNCHANGED <<buf, wo, wp, ro, rp>>
                     /\ Did("constant", <<k, s, Val(Fixed[k], w)>>, Reverse(Val(Fixed[k], w)))

OnePattern == {<<7, 6, 5, 4, 3, 2, 1, 2>>}
Fields(w) == {f \in (0..w) \X (0..w) : f[1] + f[2] <= w}
Next ==
    \/ \E o \in Orders, p \in 0..N : Writer(o, p) \/ Reader(o, p)
    \/ \E w \in Widths, p \in Pats :
        \/ \E s \in BOOLEAN : Put(w, s, p)
        \/ \E k \in Orders, f \in Fields(w) : \/ PutField(k, w, f[1], f[2], p)
                                              \/ GetField(k, w, f[1], f[2], p)
    \/ \E w \in Widths, s \in BOOLEAN : Get(w, s)
    \/ /\ wp = 0 /\ rp = 0 /\ wo = "be" /\ ro = "be"
       /\ \E w \in Widths, p \in Pats, k \in Orders :
            \/ \E t \in Orders, s \in BOOLEAN : Convert(k, t, s, w, p)
            \/ \E f \in Fields(w) : Recast(k, w, f[1], f[2], p)
    \/ /\ wp = 0 /\ rp = 0 /\ wo = "be" /\ ro = "be" /\ buf = [i \in 1..N |-> 0]
       /\ \E k \in DOMAIN Fixed, s \in BOOLEAN, w \in {2, 4, 8} : Constant(k, s, w)
(* long histories draw the parameters at random *)
LongNext == \E x \in {RandomElement(1..20)}, w \in {RandomElement(Widths)}, p \in {RandomElement(Pats)},
               k \in {RandomElement(Orders)}, s \in {RandomElement(BOOLEAN)},
               f \in {RandomElement(0..8)}, g \in {RandomElement(0..8)}, at \in {RandomElement(0..N)} :
    LET size == f % (w + 1)
        off == g % (w - size + 1)
    IN CASE x <= 5 /\ wp + w <= N -> Put(w, s, p)
         [] x \in 6..9 /\ wp + size <= N -> PutField(k, w, size, off, p)
         [] x \in 10..13 /\ rp + w <= N -> Get(w, s)
         [] x \in 14..16 /\ rp + size <= N -> GetField(k, w, size, off, p)
         [] x = 17 -> Convert(k, wo, s, w, p)
         [] x = 18 -> Recast(k, w, size, off, p)
         [] x = 19 -> Reader(k, at)
         [] OTHER -> Writer(k, at)

Init == /\ buf = [i \in 1..N |-> 0]
        /\ wo = "be" /\ wp = 0 /\ ro = "be" /\ rp = 0
        /\ last = [op |-> "init", a |-> <<>>, r |-> 0]
Spec == Init /\ [][Next]_vars

TypeOK == /\ buf \in [1..N -> 0..255] /\ wp \in 0..N /\ rp \in 0..N
(* writing touches exactly the bytes between the old and the new position *)
OnlyTheField == [][last'.op \in {"put", "putField"} =>
    \A i \in 1..N : (i <= wp \/ i > wp') => buf'[i] = buf[i]]_vars
NothingElseWrites == [][buf' # buf => last'.op \in {"put", "putField"}]_vars
(* what was written is read back with the same order at the same place *)
ReadsBack == [][last'.op = "put" =>
    LET v == last'.a[2]
    IN InOrder(wo, SubSeq(buf', wp + 1, wp + Len(v))) = v]_vars
AdvancesBySize == [][/\ (last'.op \in {"put", "putField"}) => wp' - wp = last'.r
                     /\ (last'.op \in {"get", "getField"}) => rp' - rp = last'.r.n]_vars

Obs == buf
View == <<buf, wo, wp, ro, rp>>
Emit == PrintT("@E" \o ToJson([s |-> View, o |-> last', t |-> View', b |-> Obs']))
=============================================================================
