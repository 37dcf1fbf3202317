-------------------------------- MODULE Syntax --------------------------------
(* The syntax of PDF objects (ISO 32000 7.2, 7.3) as a function from bytes to  *)
(* values.  Bytes are sequences of 0..255.  Values:                            *)
(*  [t |-> "null"|"true"|"false"]                                              *)
(*  [t |-> "int", v |-> text]     digits without superfluous sign and zeros    *)
(*  [t |-> "real", v |-> text]    fixed notation with six decimals             *)
(*  [t |-> "name", n |-> bytes]  [t |-> "str", s |-> bytes, hex |-> BOOLEAN]    *)
(*  [t |-> "ref", r |-> <<text, text>>]                                        *)
(*  [t |-> "arr", a |-> <<..>>]  [t |-> "dict", d |-> {<<key, value>>}]         *)
(*  [t |-> "kw", k |-> bytes]     a keyword (operator)                          *)
(* A reader returns [v |-> value, p |-> position of the first unread byte].     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

WS    == {0, 9, 10, 12, 13, 32}
Delim == {40, 41, 60, 62, 91, 93, 123, 125, 47, 37}
Digit == 48..57
Regular(c) == c \notin WS /\ c \notin Delim

At(b, p) == IF p <= Len(b) THEN b[p] ELSE 256       \* 256: end of data

RECURSIVE ToEol(_, _)
ToEol(b, p) == IF At(b, p) \in {10, 13, 256} THEN p ELSE ToEol(b, p + 1)
RECURSIVE Skip(_, _)
Skip(b, p) ==
    IF At(b, p) \in WS THEN Skip(b, p + 1)
    ELSE IF At(b, p) = 37 THEN Skip(b, ToEol(b, p))
    ELSE p
RECURSIVE RunEnd(_, _)
RunEnd(b, p) == IF p <= Len(b) /\ Regular(b[p]) THEN RunEnd(b, p + 1) ELSE p

R(v, p) == [v |-> v, p |-> p]
ErrV == [t |-> "err"]
IsErr(v) == v.t = "err"

(* --- numbers --------------------------------------------------------------- *)
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 48 THEN StripZeros(Tail(d)) ELSE d
Signed(w) == w # <<>> /\ w[1] \in {43, 45}
Unsign(w) == IF Signed(w) THEN Tail(w) ELSE w
Neg(w) == w # <<>> /\ w[1] = 45
AllIn(w, S) == \A i \in 1..Len(w) : w[i] \in S
IsInt(w) == LET u == Unsign(w) IN u # <<>> /\ AllIn(u, Digit)
IsReal(w) == LET u == Unsign(w) IN
    /\ Len(u) > 1 /\ AllIn(u, Digit \cup {46})
    /\ Cardinality({i \in 1..Len(u) : u[i] = 46}) = 1
IntText(w) == LET d == StripZeros(Unsign(w)) IN IF Neg(w) /\ d # <<48>> THEN <<45>> \o d ELSE d
Pad6(f) == IF Len(f) >= 6 THEN SubSeq(f, 1, 6) ELSE f \o [i \in 1..(6 - Len(f)) |-> 48]
RealText(w) ==
    LET u == Unsign(w)
        k == CHOOSE i \in 1..Len(u) : u[i] = 46
        i0 == SubSeq(u, 1, k - 1)
        ip == IF i0 = <<>> THEN <<48>> ELSE StripZeros(i0)
        fp == Pad6(SubSeq(u, k + 1, Len(u)))
        m == ip \o <<46>> \o fp
    IN IF Neg(w) /\ ~AllIn(m, {48, 46}) THEN <<45>> \o m ELSE m

(* --- strings and names ------------------------------------------------------ *)
IsOct(c) == c \in 48..55
HexVal(c) == IF c \in Digit THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99
Esc(c) == CASE c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9 [] c = 98 -> 8 [] c = 102 -> 12 [] OTHER -> c
RECURSIVE LitStr(_, _, _, _)
LitStr(b, p, depth, acc) ==
    LET c == At(b, p) IN
    CASE c = 256 -> R(ErrV, p)
      [] c = 41 /\ depth = 0 -> R([t |-> "str", s |-> acc, hex |-> FALSE], p + 1)
      [] c = 41 /\ depth > 0 -> LitStr(b, p + 1, depth - 1, Append(acc, 41))
      [] c = 40 -> LitStr(b, p + 1, depth + 1, Append(acc, 40))
      \* an unescaped end of line is kept as it is (7.3.4.2 folds it into a line feed; tests of the library pin this)
      [] c = 92 ->
            LET e == At(b, p + 1) IN
            CASE e = 256 -> R(ErrV, p)
              [] e = 13 -> LitStr(b, IF At(b, p + 2) = 10 THEN p + 3 ELSE p + 2, depth, acc)
              [] e = 10 -> LitStr(b, p + 2, depth, acc)
              [] IsOct(e) ->
                    LET n == IF ~IsOct(At(b, p + 2)) THEN 1 ELSE IF ~IsOct(At(b, p + 3)) THEN 2 ELSE 3
                        o == IF n = 1 THEN e - 48
                             ELSE IF n = 2 THEN 8 * (e - 48) + (b[p + 2] - 48)
                             ELSE 64 * (e - 48) + 8 * (b[p + 2] - 48) + (b[p + 3] - 48)
                    IN LitStr(b, p + 1 + n, depth, Append(acc, o % 256))
              [] OTHER -> LitStr(b, p + 2, depth, Append(acc, Esc(e)))
      [] OTHER -> LitStr(b, p + 1, depth, Append(acc, c))

RECURSIVE HexDigits(_, _, _)
HexDigits(b, p, acc) ==
    LET c == At(b, p) IN
    CASE c = 256 -> R(ErrV, p)
      [] c = 62 -> R([t |-> "hex", v |-> acc], p + 1)
      [] HexVal(c) < 16 -> HexDigits(b, p + 1, Append(acc, HexVal(c)))
      [] OTHER -> HexDigits(b, p + 1, acc)
Pairs(d) == LET e == IF Len(d) % 2 = 1 THEN Append(d, 0) ELSE d
            IN [i \in 1..(Len(e) \div 2) |-> 16 * e[2 * i - 1] + e[2 * i]]
HexStr(b, p) == LET h == HexDigits(b, p, <<>>)
                IN IF IsErr(h.v) THEN h ELSE R([t |-> "str", s |-> Pairs(h.v.v), hex |-> TRUE], h.p)
\* a number sign that does not introduce two hexadecimal digits is malformed
RECURSIVE NameOk(_)
NameOk(w) == w = <<>> \/ IF w[1] # 35 THEN NameOk(Tail(w))
                        ELSE Len(w) >= 3 /\ HexVal(w[2]) < 16 /\ HexVal(w[3]) < 16 /\ NameOk(SubSeq(w, 4, Len(w)))
RECURSIVE NameBytes(_, _)
NameBytes(w, acc) ==
    IF w = <<>> THEN acc
    ELSE IF w[1] = 35 /\ Len(w) >= 3 /\ HexVal(w[2]) < 16 /\ HexVal(w[3]) < 16
         THEN NameBytes(SubSeq(w, 4, Len(w)), Append(acc, 16 * HexVal(w[2]) + HexVal(w[3])))
    ELSE NameBytes(Tail(w), Append(acc, w[1]))

(* --- objects ------------------------------------------------------------------ *)
Word(b, p) == SubSeq(b, p, RunEnd(b, p) - 1)
NullEntry(e) == e[2].t = "null"

RECURSIVE Obj(_, _, _), Items(_, _, _, _), Entries(_, _, _, _)
Obj(b, p0, refs) ==
    LET p == Skip(b, p0)
        c == At(b, p)
        w == Word(b, p)
        e == RunEnd(b, p)
    IN CASE c = 256 -> R([t |-> "eof"], p)
         [] c = 40 -> LitStr(b, p + 1, 0, <<>>)
         [] c = 60 /\ At(b, p + 1) # 60 -> HexStr(b, p + 1)
         [] c = 60 /\ At(b, p + 1) = 60 -> Entries(b, p + 2, refs, {})
         [] c = 91 -> Items(b, p + 1, refs, <<>>)
         [] c = 47 /\ ~NameOk(Word(b, p + 1)) -> R(ErrV, p)
         [] c = 47 -> R([t |-> "name", n |-> NameBytes(Word(b, p + 1), <<>>)], RunEnd(b, p + 1))
         [] c \in Delim /\ c \notin {40, 60, 91, 47} -> R(ErrV, p)
         [] w = <<110, 117, 108, 108>> -> R([t |-> "null"], e)
         [] w = <<116, 114, 117, 101>> -> R([t |-> "true"], e)
         [] w = <<102, 97, 108, 115, 101>> -> R([t |-> "false"], e)
         [] IsInt(w) ->
              LET q1 == Skip(b, e)
                  w1 == Word(b, q1)
                  q2 == Skip(b, RunEnd(b, q1))
                  w2 == Word(b, q2)
              IN IF refs /\ AllIn(w, Digit) /\ w1 # <<>> /\ AllIn(w1, Digit) /\ w2 = <<82>>
                 THEN R([t |-> "ref", r |-> <<IntText(w), IntText(w1)>>], RunEnd(b, q2))
                 ELSE R([t |-> "int", v |-> IntText(w)], e)
         [] IsReal(w) -> R([t |-> "real", v |-> RealText(w)], e)
         [] AllIn(w, Digit \cup {43, 45, 46}) -> R(ErrV, p)        \* not a number, not a keyword
         [] OTHER -> R([t |-> "kw", k |-> w], e)
Items(b, p0, refs, acc) ==
    LET p == Skip(b, p0) IN
    IF At(b, p) = 93 THEN R([t |-> "arr", a |-> acc], p + 1)
    ELSE LET o == Obj(b, p, refs) IN
         IF o.v.t \in {"err", "eof", "kw"} THEN R(ErrV, p) ELSE Items(b, o.p, refs, Append(acc, o.v))
Entries(b, p0, refs, acc) ==
    LET p == Skip(b, p0) IN
    IF At(b, p) = 62 /\ At(b, p + 1) = 62 THEN R([t |-> "dict", d |-> acc], p + 2)
    ELSE LET k == Obj(b, p, refs) IN
         IF k.v.t # "name" THEN R(ErrV, p)
         ELSE LET o == Obj(b, k.p, refs) IN
              IF o.v.t \in {"err", "eof", "kw"} THEN R(ErrV, p)
              ELSE Entries(b, o.p, refs,
                           LET rest == {x \in acc : x[1] # k.v.n}       \* the last one counts; null: no entry
                           IN IF o.v.t = "null" THEN rest ELSE rest \cup {<<k.v.n, o.v>>})

(* all the objects and keywords of a sequence of bytes *)
RECURSIVE All(_, _, _, _)
All(b, p, refs, acc) ==
    LET o == Obj(b, p, refs) IN
    IF o.v.t = "eof" THEN acc
    ELSE IF IsErr(o.v) THEN Append(acc, o.v)
    ELSE All(b, o.p, refs, Append(acc, o.v))
Parse(b, refs) == All(b, 1, refs, <<>>)

(* values recorded by the driver, dictionaries as sequences of pairs *)
RECURSIVE Canon(_)
Canon(v) ==
    CASE v.t = "arr" -> [v EXCEPT !.a = [i \in 1..Len(v.a) |-> Canon(v.a[i])]]
      [] v.t = "dict" -> [v EXCEPT !.d = {<<v.d[i][1], Canon(v.d[i][2])>> : i \in {j \in 1..Len(v.d) : v.d[j][2].t # "null"}}]
      [] OTHER -> v
(* an integral real may be spelled as an integer *)
Integral(x) == LET n == Len(x) IN n > 7 /\ SubSeq(x, n - 6, n) = <<46, 48, 48, 48, 48, 48, 48>>
RECURSIVE Loose(_)
Loose(v) ==
    CASE v.t = "real" /\ Integral(v.v) -> [t |-> "int", v |-> SubSeq(v.v, 1, Len(v.v) - 7)]
      [] v.t = "arr" -> [v EXCEPT !.a = [i \in 1..Len(v.a) |-> Loose(v.a[i])]]
      [] v.t = "dict" -> [v EXCEPT !.d = {<<x[1], Loose(x[2])>> : x \in v.d}]
      [] OTHER -> v
LooseSeq(s) == [i \in 1..Len(s) |-> Loose(s[i])]
CanonSeq(s) == [i \in 1..Len(s) |-> Canon(s[i])]

(* --- writing: one way of spelling each value (used by the design model) -------- *)
HexChar(n) == IF n < 10 THEN 48 + n ELSE 55 + n
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))
EscByte(c) == CASE c = 10 -> <<92, 110>> [] c = 13 -> <<92, 114>> [] c = 9 -> <<92, 116>> [] c = 8 -> <<92, 98>>
                [] c = 12 -> <<92, 102>> [] c \in {40, 41, 92} -> <<92, c>> [] OTHER -> <<c>>
NameByte(c) == IF c \in 33..126 /\ Regular(c) /\ c # 35 THEN <<c>> ELSE <<35, HexChar(c \div 16), HexChar(c % 16)>>
RECURSIVE Spell(_)
Spell(v) ==
    CASE v.t = "null" -> <<32, 110, 117, 108, 108>>
      [] v.t = "true" -> <<32, 116, 114, 117, 101>>
      [] v.t = "false" -> <<32, 102, 97, 108, 115, 101>>
      [] v.t \in {"int", "real"} -> <<32>> \o v.v
      [] v.t = "ref" -> <<32>> \o v.r[1] \o <<32>> \o v.r[2] \o <<32, 82>>
      [] v.t = "name" -> <<47>> \o Cat([i \in 1..Len(v.n) |-> NameByte(v.n[i])])
      [] v.t = "str" /\ v.hex -> <<60>> \o Cat([i \in 1..Len(v.s) |-> <<HexChar(v.s[i] \div 16), HexChar(v.s[i] % 16)>>]) \o <<62>>
      [] v.t = "str" /\ ~v.hex -> <<40>> \o Cat([i \in 1..Len(v.s) |-> EscByte(v.s[i])]) \o <<41>>
      [] v.t = "arr" -> <<91>> \o Cat([i \in 1..Len(v.a) |-> Spell(v.a[i])]) \o <<93>>
      [] v.t = "kw" -> <<32>> \o v.k
=============================================================================
