------------------------------- MODULE Codes -------------------------------
(* How the bytes of shown strings stand for characters.                      *)
(* A code is a sequence of one to four bytes; a map takes codes to sequences  *)
(* of code points (a ligature has several).  Codes of different lengths are   *)
(* different codes.  A CMap is a list of clauses, of which later ones win.    *)
EXTENDS Integers, Sequences, FiniteSets
NoMap == [c \in {} |-> <<>>]
Lay(m, c, v) == [x \in DOMAIN m \cup {c} |-> IF x = c THEN v ELSE m[x]]
Min2(a, b) == IF a < b THEN a ELSE b
Least(S) == CHOOSE x \in S : \A y \in S : x <= y
Greatest(S) == CHOOSE x \in S : \A y \in S : y <= x

\* ------------------------------------------------------------ numbers of codes
RECURSIVE Val(_)
\* the number a code is; those which are not code points are -1
Val(c) ==
    IF c = <<>> THEN 0
    ELSE LET v == Val(SubSeq(c, 1, Len(c) - 1)) IN IF v < 0 \/ v > 4351 THEN -1 ELSE v * 256 + c[Len(c)]
RECURSIVE Plus(_, _)
Plus(c, n) ==
    IF c = <<>> THEN <<>>
    ELSE LET s == c[Len(c)] + n IN Plus(SubSeq(c, 1, Len(c) - 1), s \div 256) \o <<s % 256>>
Shown(p) == p > 0 /\ p <= 1114111 /\ ~(p >= 55296 /\ p <= 57343)

\* -------------------------------------------------------------------- clauses
Grown(dst, i) == SubSeq(dst, 1, Len(dst) - 1) \o <<dst[Len(dst)] + i>>
RECURSIVE Distance(_, _)
Distance(lo, hi) == IF lo = <<>> THEN 0 ELSE Distance(SubSeq(lo, 1, Len(lo) - 1), SubSeq(hi, 1, Len(hi) - 1)) * 256 + hi[Len(hi)] - lo[Len(lo)]
Clause(x) ==
    CASE x.k = "char" -> [c \in {x.lo} |-> x.dst]
      [] x.k = "range" -> [c \in {Plus(x.lo, i) : i \in 0..Distance(x.lo, x.hi)} |-> Grown(x.dst, Distance(x.lo, c))]
      [] x.k = "array" -> [c \in {Plus(x.lo, i) : i \in 0..Distance(x.lo, x.hi)} |-> x.dsts[Distance(x.lo, c) + 1]]
      [] x.k = "space" -> NoMap
Over(m, n) == [c \in DOMAIN m \cup DOMAIN n |-> IF c \in DOMAIN n THEN n[c] ELSE m[c]]
RECURSIVE MapOf(_)
MapOf(cs) == IF cs = <<>> THEN NoMap ELSE Over(MapOf(SubSeq(cs, 1, Len(cs) - 1)), Clause(cs[Len(cs)]))
\* the lengths of codes: those mapped, those of code spaces
Widths(cs) == {Len(cs[i].lo) : i \in 1..Len(cs)}
\* what a CMap is used as
CMap(cs) == [m |-> MapOf(cs), min |-> Least(Widths(cs)), max |-> Greatest(Widths(cs))]

\* ------------------------------------------------------------------- decoding
\* the length of the mapped code at i, of which there is one where code spaces do not overlap; 0 for none
Next(z, s, i) ==
    LET ns == {n \in z.min..z.max : i + n - 1 <= Len(s) /\ SubSeq(s, i, i + n - 1) \in DOMAIN z.m}
    IN IF ns = {} THEN 0 ELSE Least(ns)
\* what is not mapped stands for itself, by the smallest length
Skip(z, s, i) == Min2(z.min, Len(s) - i + 1)
RECURSIVE Units(_, _, _)
Units(z, s, i) ==
    IF i > Len(s) THEN <<>>
    ELSE LET n == Next(z, s, i)
             w == IF n = 0 THEN Skip(z, s, i) ELSE n
             c == SubSeq(s, i, i + w - 1)
         IN <<[c |-> c, ok |-> n # 0, cps |-> IF n = 0 THEN <<Val(c)>> ELSE z.m[c]]>> \o Units(z, s, i + w)
RECURSIVE Cat(_, _)
Cat(us, i) == IF i > Len(us) THEN <<>> ELSE SelectSeq(us[i].cps, Shown) \o Cat(us, i + 1)
Text(z, s) == Cat(Units(z, s, 1), 1)
Whole(z, s) == \A i \in 1..Len(Units(z, s, 1)) : Units(z, s, 1)[i].ok

\* ------------------------------------------------------------------- encoding
CodesOf(m, cps) == {c \in DOMAIN m : m[c] = cps}
\* the longest ligature of a text which has a code
Longest(m, t, i) ==
    LET ns == {n \in 1..Len(t) - i + 1 : CodesOf(m, SubSeq(t, i, i + n - 1)) # {}}
    IN IF ns = {} THEN 0 ELSE Greatest(ns)
RECURSIVE Pieces(_, _, _)
\* the parts of a text which get codes of their own, up to the first which has none
Pieces(m, t, i) ==
    IF i > Len(t) THEN <<>>
    ELSE LET n == Longest(m, t, i) IN IF n = 0 THEN <<>> ELSE <<SubSeq(t, i, i + n - 1)>> \o Pieces(m, t, i + n)
RECURSIVE Spent(_)
Spent(ps) == IF ps = <<>> THEN 0 ELSE Len(ps[1]) + Spent(Tail(ps))

\* ---------------------------------------------------------------- code spaces
InSpace(c, sp) == Len(c) = Len(sp.lo) /\ \A i \in 1..Len(c) : sp.lo[i] <= c[i] /\ c[i] <= sp.hi[i]
PrefixFree(S) == \A a \in S, b \in S : a # b => ~(Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a)
=============================================================================
