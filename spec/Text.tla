--------------------------------- MODULE Text ---------------------------------
(* Text strings (ISO 32000 7.9.2, annex D.2): which text the bytes of a string   *)
(* denote.  Text is a sequence of code points.                                   *)
EXTENDS Syntax

Lo == <<728, 711, 710, 729, 733, 731, 730, 732>>
Hi == <<8226, 8224, 8225, 8230, 8212, 8211, 402, 8260, 8249, 8250, 8722, 8240, 8222, 8220, 8221, 8216, 8217, 8218, 8482, 64257, 64258, 321, 338, 352, 376, 381, 305, 322, 339, 353, 382>>
Undef == {127, 159, 173}
DocDec(c) == IF c \in 24..31 THEN Lo[c - 23] ELSE IF c \in 128..158 THEN Hi[c - 127] ELSE IF c = 160 THEN 8364 ELSE c
DocChars == [x \in {DocDec(c) : c \in (0..255) \ Undef} |-> CHOOSE c \in (0..255) \ Undef : DocDec(c) = x]

Utf8(x) ==
    IF x < 128 THEN <<x>>
    ELSE IF x < 2048 THEN <<192 + x \div 64, 128 + (x % 64)>>
    ELSE IF x < 65536 THEN <<224 + x \div 4096, 128 + ((x \div 64) % 64), 128 + (x % 64)>>
    ELSE <<240 + x \div 262144, 128 + ((x \div 4096) % 64), 128 + ((x \div 64) % 64), 128 + (x % 64)>>
Utf8Text(s) == Cat([i \in 1..Len(s) |-> Utf8(s[i])])
Utf16(x) ==
    IF x < 65536 THEN <<x \div 256, x % 256>>
    ELSE LET y == x - 65536
             h == 55296 + y \div 1024
             k == 56320 + (y % 1024)
         IN <<h \div 256, h % 256, k \div 256, k % 256>>

\* not well-formed, no text
None == <<9999999>>
RECURSIVE DecUtf16(_, _, _)
DecUtf16(b, le, acc) ==
    IF b = <<>> THEN acc
    ELSE IF Len(b) = 1 THEN None
    ELSE LET U(i) == IF le THEN b[i] + 256 * b[i + 1] ELSE 256 * b[i] + b[i + 1]
             u == U(1)
         IN IF u \in 55296..56319
            THEN IF Len(b) < 4 \/ U(3) \notin 56320..57343 THEN None
                 ELSE DecUtf16(SubSeq(b, 5, Len(b)), le, Append(acc, 65536 + 1024 * (u - 55296) + (U(3) - 56320)))
            ELSE IF u \in 56320..57343 THEN None
            ELSE DecUtf16(SubSeq(b, 3, Len(b)), le, Append(acc, u))
RECURSIVE DecUtf8(_, _)
DecUtf8(b, acc) ==
    IF b = <<>> THEN acc
    ELSE LET c == b[1]
             n == IF c < 128 THEN 1 ELSE IF c \in 194..223 THEN 2 ELSE IF c \in 224..239 THEN 3 ELSE IF c \in 240..244 THEN 4 ELSE 0
         IN IF n = 0 \/ Len(b) < n \/ \E i \in 2..n : b[i] \notin 128..191 THEN None
            ELSE LET x == CASE n = 1 -> c
                            [] n = 2 -> 64 * (c - 192) + (b[2] - 128)
                            [] n = 3 -> 4096 * (c - 224) + 64 * (b[2] - 128) + (b[3] - 128)
                            [] n = 4 -> 262144 * (c - 240) + 4096 * (b[2] - 128) + 64 * (b[3] - 128) + (b[4] - 128)
                 IN IF (n = 3 /\ (x < 2048 \/ x \in 55296..57343)) \/ (n = 4 /\ (x < 65536 \/ x > 1114111)) THEN None
                    ELSE DecUtf8(SubSeq(b, n + 1, Len(b)), Append(acc, x))
Starts(b, m) == Len(b) >= Len(m) /\ SubSeq(b, 1, Len(m)) = m
Marks == {<<254, 255>>, <<255, 254>>, <<239, 187, 191>>}
Decode(b) ==
    IF Starts(b, <<254, 255>>) THEN DecUtf16(SubSeq(b, 3, Len(b)), FALSE, <<>>)
    ELSE IF Starts(b, <<255, 254>>) THEN DecUtf16(SubSeq(b, 3, Len(b)), TRUE, <<>>)
    ELSE IF Starts(b, <<239, 187, 191>>) THEN DecUtf8(SubSeq(b, 4, Len(b)), <<>>)
    ELSE IF \E i \in 1..Len(b) : b[i] \in Undef THEN None
    ELSE [i \in 1..Len(b) |-> DocDec(b[i])]
\* names have no encoding marks
DecodeName(b) == IF \E i \in 1..Len(b) : b[i] \in Undef THEN None ELSE [i \in 1..Len(b) |-> DocDec(b[i])]

(* one way of writing text *)
InDoc(s) == \A i \in 1..Len(s) : s[i] \in DOMAIN DocChars
DocEnc(s) == [i \in 1..Len(s) |-> DocChars[s[i]]]
Encode(s) == IF InDoc(s) /\ \A m \in Marks : ~Starts(DocEnc(s), m) THEN DocEnc(s)
             ELSE <<254, 255>> \o Cat([i \in 1..Len(s) |-> Utf16(s[i])])
=============================================================================
