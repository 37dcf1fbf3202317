----------------------------- MODULE CodesModel ------------------------------
(* Closed model of Codes.  A table of codes grows one code at a time, as CMaps  *)
(* are read and as fonts hand out codes for the text which is written.  Beside  *)
(* it there is what an implementation does with it: a reader which looks at a   *)
(* string byte by byte, and a writer which gathers neighbours into ranges.      *)
EXTENDS Codes
CONSTANTS Pool, MaxOps, Points, MaxText, MaxBytes
VARIABLES m, cs, ops
vars == <<m, cs, ops>>
\* codes of which none begins another, code points and ligatures
Codes1 == {<<0>>, <<1>>}
Codes2 == Codes1 \cup {<<2, 0>>, <<2, 1>>, <<2, 2, 1>>}
Codes3 == Codes2 \cup {<<2, 2, 2>>}
Vals == {<<p>> : p \in Points} \cup {<<p, q>> : p \in 1..2, q \in 1..2}
Init == m = NoMap /\ cs = <<>> /\ ops = 0
Push(c, v) == m' = Lay(m, c, v) /\ cs' = Append(cs, [k |-> "char", lo |-> c, dst |-> v])
\* a range of two codes
PushRange(c, v) ==
    LET d == Plus(c, 1) IN
    /\ d \in Pool
    /\ m' = Lay(Lay(m, c, v), d, Grown(v, 1)) /\ cs' = Append(cs, [k |-> "range", lo |-> c, hi |-> d, dst |-> v])
PushArray(c, v, w) ==
    LET d == Plus(c, 1) IN
    /\ d \in Pool
    /\ m' = Lay(Lay(m, c, v), d, w) /\ cs' = Append(cs, [k |-> "array", lo |-> c, hi |-> d, dsts |-> <<v, w>>])
\* a font which makes up a code for what has none
Fresh(v) ==
    LET free == Pool \ DOMAIN m IN
    /\ CodesOf(m, v) = {} /\ free # {}
    /\ \E c \in free : Push(c, v)
Step ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E c \in Pool, v \in Vals : Push(c, v) \/ PushRange(c, v)
       \/ \E c \in Pool, v \in {<<1>>, <<1, 2>>}, w \in {<<2>>, <<2, 2>>} : PushArray(c, v, w)
       \/ \E v \in Vals : Fresh(v)
Spec == Init /\ [][Step]_vars

\* ------------------------------------------------------------ what is checked
RECURSIVE Join(_)
Join(xs) == IF xs = <<>> THEN <<>> ELSE xs[1] \o Join(Tail(xs))
Texts == UNION {[1..n -> 1..3] : n \in 0..MaxText}
Strings == UNION {[1..n -> 0..2] : n \in 0..MaxBytes}
Z == CMap(cs)
Points2(us) == Join([i \in 1..Len(us) |-> us[i].cps])
RECURSIVE Spellings(_)
\* all the strings which a text may get
Spellings(ps) == IF ps = <<>> THEN {<<>>} ELSE {c \o s : c \in CodesOf(m, ps[1]), s \in Spellings(Tail(ps))}
\* the clauses come to the table
Clauses == MapOf(cs) = m
\* a text which has codes is read from every string which it may have
RoundTrip == cs = <<>> \/ \A t \in Texts :
    LET ps == Pieces(m, t, 1) IN
    Spent(ps) = Len(t) => \A s \in Spellings(ps) : Points2(Units(Z, s, 1)) = t /\ Whole(Z, s)
\* texts which begin others have strings which begin theirs, if none of the parts is across
Additive == cs = <<>> \/ \A s \in Strings : \A i \in 1..Len(s) :
    LET a == SubSeq(s, 1, i) b == SubSeq(s, i + 1, Len(s)) IN
    Whole(Z, a) => Units(Z, s, 1) = Units(Z, a, 1) \o Units(Z, b, 1)
\* nothing of a string is lost or read twice
Spans == cs = <<>> \/ \A s \in Strings : Join([i \in 1..Len(Units(Z, s, 1)) |-> Units(Z, s, 1)[i].c]) = s

\* --- a reader which takes one byte after the other, up to the longest code
RECURSIVE Reader(_, _, _, _)
Reader(s, i, held, done) ==
    IF held # <<>> /\ held \in DOMAIN m THEN Reader(s, i, <<>>, Append(done, held))
    ELSE IF i > Len(s) \/ Len(held) = Z.max
         THEN \* no code: the bytes of the smallest one are left out, the others are looked at again
              IF held = <<>> THEN done
              ELSE LET w == Min2(Z.min, Len(held)) IN Reader(s, i - Len(held) + w, <<>>, Append(done, SubSeq(held, 1, w)))
         ELSE Reader(s, i + 1, Append(held, s[i]), done)
ByteByByte == cs = <<>> \/ \A s \in Strings : Reader(s, 1, <<>>, <<>>) = [i \in 1..Len(Units(Z, s, 1)) |-> Units(Z, s, 1)[i].c]

\* --- a writer which gathers neighbours with neighbouring values
Before(a, b) == Len(a) < Len(b) \/ (Len(a) = Len(b) /\ Distance(a, b) > 0)
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET a == CHOOSE x \in S : \A y \in S : x = y \/ Before(x, y) IN <<a>> \o Sorted(S \ {a})
RECURSIVE Gather(_, _)
Gather(todo, done) ==
    IF todo = <<>> THEN done
    ELSE LET c == todo[1] last == done[Len(done)] IN
         IF done # <<>> /\ Len(last.lo) = Len(c) /\ c[Len(c)] # 0 /\ Plus(last.hi, 1) = c
            /\ m[c] = Grown(last.dst, Distance(last.lo, c))
         THEN Gather(Tail(todo), [done EXCEPT ![Len(done)].hi = c])
         ELSE Gather(Tail(todo), Append(done, [k |-> "range", lo |-> c, hi |-> c, dst |-> m[c]]))
Exported == Gather(Sorted(DOMAIN m), <<>>)
Export == MapOf(Exported) = m
\* one code space of every length, of the least and greatest bytes at every place, has all codes of the length
Spaces(n) ==
    LET S == {c \in DOMAIN m : Len(c) = n} IN
    [lo |-> [i \in 1..n |-> Least({c[i] : c \in S})], hi |-> [i \in 1..n |-> Greatest({c[i] : c \in S})]]
CodeSpaces == \A c \in DOMAIN m : InSpace(c, Spaces(Len(c)))
=============================================================================
