------------------------------- MODULE Values -------------------------------
(* The value universe shared by the specifications.                          *)
(*   scalar      [s |-> "..."]      (canonical text of a number, name, ...)   *)
(*   reference   [r |-> "12 0"]                                              *)
(*   array       [a |-> << v1, v2, ... >>]                                    *)
(*   dictionary  [d |-> [key |-> value, ...]]                                 *)
(*   stream      [d |-> ..., x |-> "data"]                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

NoneVal == [s |-> "none"]
Null    == [s |-> "null"]
RefStr(n, g) == ToString(n) \o " " \o ToString(g)

IsArr(v)  == "a" \in DOMAIN v
IsDict(v) == "d" \in DOMAIN v
IsRef(v)  == "r" \in DOMAIN v
HasStream(v) == "x" \in DOMAIN v

Put(f, k, v) == (k :> v) @@ f
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]
InsertSeq(q, i, v) == SubSeq(q, 1, i - 1) \o <<v>> \o SubSeq(q, i, Len(q))
DeleteSeq(q, i)    == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))

RECURSIVE RefsIn(_)
RefsIn(v) ==
    CASE IsRef(v)  -> {v.r}
      [] IsArr(v)  -> UNION {RefsIn(v.a[i]) : i \in 1..Len(v.a)}
      [] IsDict(v) -> UNION {RefsIn(v.d[k]) : k \in DOMAIN v.d}
      [] OTHER     -> {}

(* Navigation: a path is a sequence of dictionary keys and (0-based) array   *)
(* positions, as the public API spells them.                                 *)
RECURSIVE AtPath(_, _)
AtPath(v, p) ==
    IF p = <<>> THEN v
    ELSE IF IsDict(v) THEN AtPath(v.d[Head(p)], Tail(p))
    ELSE AtPath(v.a[Head(p) + 1], Tail(p))

RECURSIVE SetPath(_, _, _)
SetPath(v, p, w) ==
    IF p = <<>> THEN w
    ELSE IF IsDict(v)
         THEN [v EXCEPT !.d = Put(@, Head(p), SetPath(v.d[Head(p)], Tail(p), w))]
         ELSE [v EXCEPT !.a = [@ EXCEPT ![Head(p) + 1] = SetPath(@, Tail(p), w)]]

\* a value without the data of its stream
Bare(v) == IF HasStream(v) THEN [d |-> v.d] ELSE v
Restrict(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
Range(f) == {f[x] : x \in DOMAIN f}
=============================================================================
