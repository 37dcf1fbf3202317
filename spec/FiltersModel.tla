---------------------------- MODULE FiltersModel ----------------------------
(* An encoder that makes every choice the formats leave open; whatever it has   *)
(* written so far decodes to the data it was given.                             *)
EXTENDS Filters

CONSTANTS MaxLen
Bytes == {0, 65, 255}
VARIABLES d, rle, hex, lzw
vars == <<d, rle, hex, lzw>>
Digit(x) == IF x < 10 THEN {48 + x} ELSE {55 + x, 87 + x}
Rep(x, n) == [i \in 1..n |-> x]
Init == d = <<>> /\ rle = <<>> /\ hex = <<>> /\ lzw = <<256>>
\* codes of 9 bits as bytes (the table of the model stays small)
Bits(c) == [i \in 1..9 |-> (c \div (2 ^ (9 - i))) % 2]
RECURSIVE Pack(_)
Pack(bs) == IF bs = <<>> THEN <<>>
            ELSE LET p == [i \in 1..8 |-> IF i <= Len(bs) THEN bs[i] ELSE 0]
                     v == 128 * p[1] + 64 * p[2] + 32 * p[3] + 16 * p[4] + 8 * p[5] + 4 * p[6] + 2 * p[7] + p[8]
                 IN <<v>> \o Pack(IF Len(bs) <= 8 THEN <<>> ELSE SubSeq(bs, 9, Len(bs)))
RECURSIVE AllBits(_)
AllBits(cs) == IF cs = <<>> THEN <<>> ELSE Bits(Head(cs)) \o AllBits(Tail(cs))
Next == \E x \in Bytes, n \in 1..3 :
    /\ Len(d) + n <= MaxLen
    /\ d' = d \o Rep(x, n)
    /\ \E lit \in BOOLEAN : rle' = rle \o (IF n > 1 /\ ~lit THEN <<257 - n, x>> ELSE <<n - 1>> \o Rep(x, n))
    /\ \E a \in Digit(x \div 16), b \in Digit(x % 16), ws \in {<<>>, <<10>>} :
          hex' = hex \o ws \o Rep(a, 1) \o Rep(b, 1) \o (IF n > 1 THEN Rep(a, 1) \o ws \o Rep(b, 1) ELSE <<>>) \o (IF n > 2 THEN Rep(a, 1) \o Rep(b, 1) ELSE <<>>)
    \* literal codes, or a literal and the entry being defined (the code one past the table), or a new clear
    /\ \E k \in 0..2 :
          lzw' = lzw \o (CASE k = 1 /\ n = 3 /\ lzw[Len(lzw)] = 256 -> <<x, 258>>
                           [] k = 2 -> <<256>> \o Rep(x, n)
                           [] OTHER -> Rep(x, n))
Spec == Init /\ [][Next]_vars
Decodes ==
    /\ RleDec(rle) = d /\ RleDec(rle \o <<128, 7>>) = d
    /\ HexDec(hex) = d /\ HexDec(hex \o <<62, 90>>) = d
    /\ LzwDec(Pack(AllBits(lzw \o <<257>>)), 1) = d
=============================================================================
