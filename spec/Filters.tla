------------------------------- MODULE Filters -------------------------------
(* The decoders of ISO 32000 7.4 as functions on sequences of bytes.  Err marks *)
(* data no conforming encoder produces.  Inflating is left to the environment.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

Err == <<-1>>
WSet == {0, 9, 10, 12, 13, 32}
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 99

(* --- ASCIIHexDecode -------------------------------------------------------- *)
RECURSIVE HexRun(_, _, _)
HexRun(b, p, acc) ==
    IF p > Len(b) \/ b[p] = 62 THEN acc
    ELSE IF b[p] \in WSet THEN HexRun(b, p + 1, acc)
    ELSE IF Hex(b[p]) > 15 THEN Err
    ELSE HexRun(b, p + 1, Append(acc, Hex(b[p])))
HexDec(b) ==
    LET d == HexRun(b, 1, <<>>) IN
    IF d = Err THEN Err
    ELSE LET e == IF Len(d) % 2 = 1 THEN Append(d, 0) ELSE d
         IN [i \in 1..(Len(e) \div 2) |-> 16 * e[2 * i - 1] + e[2 * i]]

(* --- ASCII85Decode ---------------------------------------------------------- *)
(* five digits of base 85 make four bytes; kept as two halves of 16 bits since   *)
(* the model checker's numbers have 31 bits                                      *)
Mul85(h, d) == LET lo == h[2] * 85 + d
                   hi == h[1] * 85 + (lo \div 65536)
               IN <<hi, lo % 65536>>
RECURSIVE Horner(_, _)
Horner(ds, h) == IF ds = <<>> THEN h ELSE Horner(Tail(ds), Mul85(h, Head(ds)))
Group(ds) == LET n == Len(ds)
                 full == [i \in 1..5 |-> IF i <= n THEN ds[i] ELSE 84]
                 h == Horner(full, <<0, 0>>)
                 bytes == <<h[1] \div 256, h[1] % 256, h[2] \div 256, h[2] % 256>>
             IN IF h[1] > 65535 THEN Err ELSE SubSeq(bytes, 1, n - 1)
RECURSIVE A85(_, _, _, _)
A85(b, p, g, acc) ==
    LET fin == IF g = <<>> THEN acc
               ELSE IF Len(g) = 1 \/ Group(g) = Err THEN Err ELSE acc \o Group(g)
    IN IF p > Len(b) THEN fin
       ELSE LET c == b[p] IN
            CASE c = 126 -> IF p < Len(b) /\ b[p + 1] # 62 THEN Err ELSE fin
              [] c \in WSet -> A85(b, p + 1, g, acc)
              [] c = 122 -> IF g # <<>> THEN Err ELSE A85(b, p + 1, <<>>, acc \o <<0, 0, 0, 0>>)
              [] c \in 33..117 ->
                   LET g2 == Append(g, c - 33) IN
                   IF Len(g2) < 5 THEN A85(b, p + 1, g2, acc)
                   ELSE IF Group(g2) = Err THEN Err ELSE A85(b, p + 1, <<>>, acc \o Group(g2))
              [] OTHER -> Err
A85Dec(b) == A85(b, 1, <<>>, <<>>)

(* --- RunLengthDecode --------------------------------------------------------- *)
RECURSIVE Rle(_, _, _)
Rle(b, p, acc) ==
    IF p > Len(b) \/ b[p] = 128 THEN acc
    ELSE IF b[p] < 128
         THEN IF p + b[p] + 1 > Len(b) THEN Err ELSE Rle(b, p + b[p] + 2, acc \o SubSeq(b, p + 1, p + 1 + b[p]))
    ELSE IF p + 1 > Len(b) THEN Err ELSE Rle(b, p + 2, acc \o [i \in 1..(257 - b[p]) |-> b[p + 1]])
RleDec(b) == Rle(b, 1, <<>>)

(* --- LZWDecode ---------------------------------------------------------------- *)
(* the code of w bits (w <= 12) that starts at bit k (from 0, most significant first) *)
CodeAt(b, k, w) ==
    LET i == k \div 8 + 1
        x == (b[i] * 65536) + ((IF i + 1 <= Len(b) THEN b[i + 1] ELSE 0) * 256) + (IF i + 2 <= Len(b) THEN b[i + 2] ELSE 0)
    IN (x \div (2 ^ (24 - (k % 8) - w))) % (2 ^ w)
\* the width of the next code when the table of the decoder holds n entries (codes 0..n-1), early change ec
Width(n, ec) == IF n + ec >= 2048 THEN 12 ELSE IF n + ec >= 1024 THEN 11 ELSE IF n + ec >= 512 THEN 10 ELSE 9
Entry(tab, c) == IF c < 256 THEN <<c>> ELSE tab[c - 257]
\* tab: entries from code 258 on; prev: the previous string, <<>> right after a clear
RECURSIVE Lzw(_, _, _, _, _, _)
Lzw(b, k, ec, tab, prev, acc) ==
    LET n == 258 + Len(tab)
        w == Width(n, ec)
    IN IF k + w > 8 * Len(b) THEN acc
       ELSE LET c == CodeAt(b, k, w) IN
            CASE c = 257 -> acc
              [] c = 256 -> Lzw(b, k + w, ec, <<>>, <<>>, acc)
              [] prev = <<>> -> IF c > 255 THEN Err ELSE Lzw(b, k + w, ec, tab, <<c>>, Append(acc, c))
              [] c > n \/ n > 4095 -> Err
              [] OTHER -> LET s == IF c < n THEN Entry(tab, c) ELSE Append(prev, prev[1])
                          IN Lzw(b, k + w, ec, Append(tab, Append(prev, s[1])), s, acc \o s)
LzwDec(b, ec) == Lzw(b, 0, ec, <<>>, <<>>, <<>>)

(* --- predictors --------------------------------------------------------------- *)
Abs(x) == IF x < 0 THEN -x ELSE x
Paeth(a, b, c) == LET p == a + b - c
                      pa == Abs(p - a)  pb == Abs(p - b)  pc == Abs(p - c)
                  IN IF pa <= pb /\ pa <= pc THEN a ELSE IF pb <= pc THEN b ELSE c
RECURSIVE PngRow(_, _, _, _, _)
PngRow(tag, raw, up, bpp, acc) ==
    LET i == Len(acc) + 1 IN
    IF i > Len(raw) THEN acc
    ELSE LET a == IF i > bpp THEN acc[i - bpp] ELSE 0
             c == IF i > bpp THEN up[i - bpp] ELSE 0
             p == CASE tag = 0 -> 0 [] tag = 1 -> a [] tag = 2 -> up[i] [] tag = 3 -> (a + up[i]) \div 2 [] tag = 4 -> Paeth(a, up[i], c)
         IN PngRow(tag, raw, up, bpp, Append(acc, (raw[i] + p) % 256))
RECURSIVE Png(_, _, _, _, _)
Png(d, row, bpp, up, acc) ==
    IF d = <<>> THEN acc
    ELSE IF Len(d) < row + 1 \/ d[1] > 4 THEN Err
    ELSE LET r == PngRow(d[1], SubSeq(d, 2, row + 1), up, bpp, <<>>)
         IN Png(SubSeq(d, row + 2, Len(d)), row, bpp, r, acc \o r)
\* rows of components of 8 bits
RECURSIVE Tiff(_, _, _, _)
Tiff(d, row, colors, acc) ==
    LET i == Len(acc) + 1 IN
    IF i > Len(d) THEN acc
    ELSE LET a == IF (i - 1) % row >= colors THEN acc[i - colors] ELSE 0
         IN Tiff(d, row, colors, Append(acc, (d[i] + a) % 256))
CeilDiv(x, y) == (x + y - 1) \div y
NoParms == [pred |-> 1, colors |-> 1, bpc |-> 8, cols |-> 1, early |-> 1]
Unpredict(d, q) ==
    LET row == CeilDiv(q.cols * q.colors * q.bpc, 8)
        bpp == IF (q.colors * q.bpc) \div 8 = 0 THEN 1 ELSE (q.colors * q.bpc) \div 8
    IN IF d = Err THEN Err
       ELSE IF q.pred = 1 THEN d
       ELSE IF q.pred >= 10 THEN Png(d, row, bpp, [i \in 1..row |-> 0], <<>>)
       ELSE IF q.pred = 2 /\ q.bpc = 8 /\ Len(d) % row = 0 THEN Tiff(d, row, q.colors, <<>>)
       ELSE Err

(* --- all of them; inflated: what the environment makes of the data -------------- *)
Decode(f, b, q, inflated) ==
    CASE f = "hex" -> HexDec(b)
      [] f = "a85" -> A85Dec(b)
      [] f = "rle" -> RleDec(b)
      [] f = "lzw" -> Unpredict(LzwDec(b, q.early), q)
      [] f = "flate" -> Unpredict(inflated, q)
=============================================================================
