----------------------------- MODULE Containers -----------------------------
(* Objects, arrays and dictionaries as values (P16).                          *)
(* The state m maps slots to values: the slots f1, f2, .. are objects of the   *)
(* program that belong to no document, the slots d1, d2, .. are indirect        *)
(* objects of a document.  A location is a slot and a path of keys and         *)
(* positions below it (id: both as a text); every operation works on a location, and takes a value   *)
(* that is a literal, a copy of a location, or moved out of one.  References    *)
(* are named by the slot they refer to ("x": an object that does not exist).    *)
EXTENDS Values, Integers

DocSlots == {"d1", "d2", "d3"}
InDoc(L) == L.s \in DocSlots
IsRoot(L) == L.p = <<>>
Val(m, L) == AtPath(m[L.s], L.p)
Upd(m, L, w) == [m EXCEPT ![L.s] = SetPath(@, L.p, w)]

Fail == [err |-> TRUE]
Res(m) == [err |-> FALSE, m |-> m]

--------------------------------------------------------------------------------
(* Arrays and dictionaries                                                       *)
NoKeys == [k \in {} |-> Null]
EmptyDict == [d |-> NoKeys]
Fill(n, v) == [i \in 1..n |-> v]
ArrOps == {"add", "insert", "insertrange", "setat", "removeat", "erase", "eraserange", "resize", "aclear", "reserve",
           "addind", "addindsafe", "setind", "setindsafe", "aassign", "reverse"}
DictOps == {"addkey", "keyind", "keyindsafe", "remove", "dclear", "dassign"}
Setters == {"setbool", "setnum", "setreal", "setname", "setstr", "setref"}

\* the sequence an operation of arrays leaves; v: the value given, ind: whether a reference to it may be stored
NewArr(a, e, v, ref, ind) ==
    CASE e.op = "add" -> Append(a, v)
      [] e.op = "insert" -> InsertSeq(a, e.i + 1, v)
      [] e.op = "insertrange" -> SubSeq(a, 1, e.i) \o v.a \o SubSeq(a, e.i + 1, Len(a))
      [] e.op = "setat" -> [a EXCEPT ![e.i + 1] = v]
      [] e.op \in {"removeat", "erase"} -> DeleteSeq(a, e.i + 1)
      [] e.op = "eraserange" -> SubSeq(a, 1, e.i) \o SubSeq(a, e.j + 1, Len(a))
      [] e.op = "resize" -> SubSeq(a, 1, IF e.n < Len(a) THEN e.n ELSE Len(a))
                            \o Fill(IF e.n > Len(a) THEN e.n - Len(a) ELSE 0, v)
      [] e.op = "aclear" -> <<>>
      [] e.op = "reserve" -> a
      [] e.op = "addind" -> Append(a, ref)
      [] e.op = "addindsafe" -> Append(a, IF ind THEN ref ELSE v)
      [] e.op = "setind" -> [a EXCEPT ![e.i + 1] = ref]
      [] e.op = "setindsafe" -> [a EXCEPT ![e.i + 1] = IF ind THEN ref ELSE v]
      [] e.op = "aassign" -> v.a
      [] e.op = "reverse" -> [i \in 1..Len(a) |-> a[Len(a) + 1 - i]]
NewDict(d, e, v, ref, ind) ==
    CASE e.op = "addkey" -> Put(d, e.k, v)
      [] e.op = "keyind" -> Put(d, e.k, ref)
      [] e.op = "keyindsafe" -> Put(d, e.k, IF ind THEN ref ELSE v)
      [] e.op = "remove" -> IF e.k \in DOMAIN d THEN Del(d, e.k) ELSE d
      [] e.op = "dclear" -> NoKeys
      [] e.op = "dassign" -> v.d

Indexed == {"setat", "removeat", "setind", "setindsafe"}
IndOnly == {"addind", "setind", "keyind"}

--------------------------------------------------------------------------------
(* Typed reading: what a scalar is.  Numbers are written "5", reals "f0.500000",  *)
(* names "/..", strings "(..".                                                     *)
Reals == [x \in {"f0.500000", "f-1.500000", "f2.250000", "f7.000000"} |->
            CASE x = "f0.500000" -> 1 [] x = "f-1.500000" -> -2 [] x = "f2.250000" -> 2 [] x = "f7.000000" -> 7]
Ints == -20..120
Kind(v) ==
    IF IsRef(v) THEN "ref" ELSE IF IsArr(v) THEN "arr" ELSE IF IsDict(v) THEN "dict"
    ELSE IF v.s \in {"true", "false"} THEN "bool"
    ELSE IF v.s = "null" THEN "null"
    ELSE IF v.s \in DOMAIN Reals THEN "real"
    ELSE IF \E i \in Ints : ToString(i) = v.s THEN "int"
    ELSE IF SubSeq(v.s, 1, 1) = "/" THEN "name" ELSE "str"
\* the value as the type T, or "E"
As(T, v) ==
    LET k == Kind(v) IN
    CASE T = "bool" -> IF k = "bool" THEN v.s ELSE "E"
      [] T = "int"  -> IF k = "int" THEN v.s ELSE "E"
      [] T = "lenient" -> IF k = "int" THEN v.s ELSE IF k = "real" THEN ToString(Reals[v.s]) ELSE "E"
      [] T = "real" -> IF k = "real" THEN v.s ELSE IF k = "int" THEN "f" \o v.s \o ".000000" ELSE "E"
      [] T = "strict" -> IF k = "real" THEN v.s ELSE "E"
      [] T = "name" -> IF k = "name" THEN v.s ELSE "E"
      [] T = "str" -> IF k = "str" THEN v.s ELSE "E"
      [] T = "ref" -> IF k = "ref" THEN v.r ELSE "E"
Types == {"bool", "int", "real", "name", "str", "ref"}

--------------------------------------------------------------------------------
(* Looking up: the value of a key or position itself, and with its reference      *)
(* resolved.  A reference can only be resolved in a document.                       *)
Has(v, k) == IF IsDict(v) THEN k \in DOMAIN v.d ELSE k < Len(v.a)
Sub(v, k) == IF IsDict(v) THEN v.d[k] ELSE v.a[k + 1]
\* nothing, an error or a value and the slot it is in
Nothing == [e |-> "none"]
Error == [e |-> "error"]
Found(m, L, k) ==
    LET v == Val(m, L) IN
    IF ~Has(v, k) THEN (IF IsDict(v) THEN Nothing ELSE Error)
    ELSE IF ~IsRef(Sub(v, k)) THEN [v |-> Sub(v, k), s |-> L.s]
    ELSE IF ~InDoc(L) THEN Error
    ELSE IF Sub(v, k).r \notin DocSlots THEN Nothing
    ELSE [v |-> m[Sub(v, k).r], s |-> Sub(v, k).r]
IsV(x) == "v" \in DOMAIN x

\* through the dictionaries that /Parent leads to; seen: dictionaries already asked
RECURSIVE Inherited(_, _, _, _)
Inherited(m, L, k, seen) ==
    LET f == Found(m, L, k)
    IN IF f = Error THEN Error
       ELSE IF f # Nothing THEN f
       ELSE IF k = "Parent" THEN Nothing
       ELSE LET p == Found(m, L, "Parent") IN
            IF p = Error THEN Error
            ELSE IF p = Nothing THEN Nothing
            ELSE IF ~IsDict(p.v) THEN Nothing
            ELSE LET isref == IsRef(Sub(Val(m, L), "Parent"))
                     P == IF isref THEN [s |-> p.s, p |-> <<>>, id |-> p.s] ELSE [s |-> L.s, p |-> Append(L.p, "Parent"), id |-> L.id \o "/Parent"]
                 IN IF P.id \in seen THEN Nothing ELSE Inherited(m, P, k, seen \cup {P.id})
Lookup(m, L, k) == Inherited(m, L, k, {L.id})

--------------------------------------------------------------------------------
(* The operations                                                                *)
SrcVal(m, e) ==
    IF "v" \notin DOMAIN e THEN EmptyDict
    ELSE IF e.v.k = "lit" THEN e.v.v ELSE Val(m, [s |-> e.v.s, p |-> e.v.p])
Moves(e) == "v" \in DOMAIN e /\ e.v.k = "move"
SrcLoc(e) == [s |-> e.v.s, p |-> e.v.p, id |-> e.v.id]
\* the object named can be stored as a reference in the container
Indirect(e) == "v" \in DOMAIN e /\ e.v.k # "lit" /\ IsRoot(SrcLoc(e)) /\ InDoc(SrcLoc(e)) /\ InDoc(e.t)
RefOf(e) == IF Indirect(e) THEN [r |-> e.v.s] ELSE Null

\* m: the state worked on, v: the value given
Do(m, e, v) ==
    LET c == Val(m, e.t) IN
    CASE e.op = "assign" -> Res(Upd(m, e.t, v))
      [] e.op = "swap" -> Res(Upd(Upd(m, e.t, Val(m, e.t2)), e.t2, c))
      [] e.op \in ArrOps ->
            IF ~IsArr(c) THEN Fail
            ELSE IF e.op \in Indexed /\ e.i >= Len(c.a) THEN Fail
            ELSE IF e.op \in IndOnly /\ ~Indirect(e) THEN Fail
            ELSE IF e.op \in {"insertrange", "aassign"} /\ ~IsArr(v) THEN Fail
            ELSE Res(Upd(m, e.t, [c EXCEPT !.a = NewArr(@, e, v, RefOf(e), Indirect(e))]))
      [] e.op \in DictOps ->
            IF ~IsDict(c) THEN Fail
            ELSE IF e.op \in IndOnly /\ ~Indirect(e) THEN Fail
            ELSE IF e.op = "dassign" /\ ~IsDict(v) THEN Fail
            ELSE Res(Upd(m, e.t, [c EXCEPT !.d = NewDict(@, e, v, RefOf(e), Indirect(e))]))
      [] e.op \in Setters ->
            LET k == Kind(c) IN
            CASE e.op = "setbool" -> IF k = "bool" THEN Res(Upd(m, e.t, v)) ELSE Fail
              [] e.op = "setnum" -> IF k = "int" THEN Res(Upd(m, e.t, v))
                                    ELSE IF k = "real" THEN Res(Upd(m, e.t, [s |-> As("real", v)])) ELSE Fail
              [] e.op = "setreal" -> IF k = "real" THEN Res(Upd(m, e.t, v))
                                     ELSE IF k = "int" THEN Res(Upd(m, e.t, [s |-> As("lenient", v)])) ELSE Fail
              [] e.op = "setname" -> IF k = "name" THEN Res(Upd(m, e.t, v)) ELSE Fail
              [] e.op = "setstr" -> IF k = "str" THEN Res(Upd(m, e.t, v)) ELSE Fail
              [] e.op = "setref" -> IF k = "ref" THEN Res(Upd(m, e.t, v)) ELSE Fail

Emptied(v) == IF IsArr(v) THEN [a |-> <<>>] ELSE IF IsDict(v) THEN EmptyDict ELSE Null
\* all the results allowed: what is moved out of may keep its value, become null or empty
Results(m, e) ==
    LET v == SrcVal(m, e)
        plain == Do(m, e, v)
    IN IF Moves(e) /\ e.v.id # e.t.id
       THEN {plain, Do(Upd(m, SrcLoc(e), Null), e, v), Do(Upd(m, SrcLoc(e), Emptied(v)), e, v)}
       ELSE {plain}
Mutators == ArrOps \cup DictOps \cup Setters \cup {"assign", "swap"}

(* What a file keeps of a value: a whole real number is written as an integer.   *)
RECURSIVE Filed(_)
Filed(v) ==
    IF IsArr(v) THEN [v EXCEPT !.a = [i \in DOMAIN @ |-> Filed(@[i])]]
    ELSE IF IsDict(v) THEN [v EXCEPT !.d = [k \in DOMAIN @ |-> Filed(@[k])]]
    ELSE IF IsRef(v) THEN v
    ELSE IF v.s = "f7.000000" THEN [s |-> "7"] ELSE v
Saved(m) == [s \in DOMAIN m |-> IF s \in DocSlots THEN Filed(m[s]) ELSE m[s]]

--------------------------------------------------------------------------------
(* Equality: two locations hold the same value; an indirect object on the left    *)
(* is equal to itself only.                                                         *)
Same(m, A, B) == IF A.id = B.id THEN TRUE ELSE IF IsRoot(A) /\ InDoc(A) THEN FALSE ELSE Val(m, A) = Val(m, B)
=============================================================================
