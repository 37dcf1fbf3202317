-------------------------------- MODULE Dates --------------------------------
(* Dates as texts (ISO 32000 7.9.4, W3C-DTF) and as instants: days since       *)
(* 1970-01-01 and second of the day, both UT, with the offset of the zone in   *)
(* minutes or NoZone.                                                          *)
EXTENDS Integers, Sequences

NoZone == 9999

(* --- the Gregorian calendar ------------------------------------------------ *)
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthLen(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* days before year y, from year 0
YearDays(y) == 365 * y + (y + 3) \div 4 - (y + 99) \div 100 + (y + 399) \div 400
RECURSIVE MonthDays(_, _)
MonthDays(y, m) == IF m = 1 THEN 0 ELSE MonthDays(y, m - 1) + MonthLen(y, m - 1)
DayNumber(y, m, d) == YearDays(y) + MonthDays(y, m) + (d - 1) - YearDays(1970)
RECURSIVE YearUp(_, _)
YearUp(n, y) == IF YearDays(y + 1) <= n THEN YearUp(n, y + 1) ELSE y
RECURSIVE MonthUp(_, _, _)
MonthUp(y, n, m) == IF m < 12 /\ MonthDays(y, m + 1) <= n THEN MonthUp(y, n, m + 1) ELSE m
\* [y, m, d] of a day number, from the year 0 on
Civil(days) ==
    LET n == days + YearDays(1970)
        g == n \div 366
        y == YearUp(n, g)
        r == n - YearDays(y)
        m == MonthUp(y, r, 1)
    IN [y |-> y, m |-> m, d |-> (r - MonthDays(y, m)) + 1]

(* --- reading ----------------------------------------------------------------- *)
At(b, p) == IF p <= Len(b) THEN b[p] ELSE 256
IsDig(c) == c \in 48..57
RECURSIVE NumAt(_, _, _)
NumAt(b, p, n) == IF n = 0 THEN 0 ELSE NumAt(b, p, n - 1) * 10 + (b[(p + n) - 1] - 48)
RECURSIVE DigitsAt(_, _, _)
\* number of digits at p, at most n
DigitsAt(b, p, n) == IF n = 0 \/ ~IsDig(At(b, p)) THEN 0 ELSE 1 + DigitsAt(b, p + 1, n - 1)

\* result of reading: st "ok" | "lax" (a text no producer should write, read or refused) | "bad"
Bad == [st |-> "bad", days |-> 0, sod |-> 0, off |-> NoZone]
Lax == [Bad EXCEPT !.st = "lax"]
Both(a, b) == IF a = "bad" \/ b = "bad" THEN "bad" ELSE IF a = "lax" \/ b = "lax" THEN "lax" ELSE "ok"

\* instant of the fields f = <<y, m, d, H, M, S>> in the zone
Instant(f, off) ==
    LET s == f[4] * 3600 + f[5] * 60 + f[6] - (IF off = NoZone THEN 0 ELSE off * 60)
    IN [st |-> "ok", days |-> DayNumber(f[1], f[2], f[3]) + s \div 86400, sod |-> s % 86400, off |-> off]

Lo == <<0, 1, 1, 0, 0, 0>>
Hi == <<9999, 12, 31, 23, 59, 59>>
Width == <<4, 2, 2, 2, 2, 2>>

\* the zone at p: sign, hours, minutes with their separators
RECURSIVE ZeroDigits(_, _)
ZeroDigits(b, p) == p > Len(b) \/ (b[p] \in {48, 39, 58} /\ ZeroDigits(b, p + 1))
ZoneTail(b, p, w3c) ==
    \* after the sign: [st, min]
    LET n == DigitsAt(b, p, 2)
        q == p + n
        sep == IF w3c THEN 58 ELSE 39
        h == NumAt(b, p, n)
    IN IF p > Len(b) THEN [st |-> "lax", min |-> 0]
       ELSE IF n = 0 THEN [st |-> "bad", min |-> 0]
       ELSE IF h > 59 THEN [st |-> "bad", min |-> 0]
       ELSE IF q > Len(b) THEN [st |-> IF n = 2 /\ ~w3c /\ h < 24 THEN "ok" ELSE "lax", min |-> h * 60]
       ELSE IF b[q] # sep THEN [st |-> "bad", min |-> 0]
       ELSE LET k == DigitsAt(b, q + 1, 2)
                m == NumAt(b, q + 1, k)
                e == q + 1 + k
                whole == n = 2 /\ k = 2 /\ h < 24
            IN IF q + 1 > Len(b) THEN [st |-> IF n = 2 /\ ~w3c /\ h < 24 THEN "ok" ELSE "lax", min |-> h * 60]
               ELSE IF k = 0 THEN [st |-> "bad", min |-> 0]
               ELSE IF m > 59 THEN [st |-> "bad", min |-> 0]
               ELSE IF e > Len(b) THEN [st |-> IF whole THEN "ok" ELSE "lax", min |-> h * 60 + m]
               ELSE IF ~w3c /\ e = Len(b) /\ b[e] = 39 THEN [st |-> IF whole THEN "ok" ELSE "lax", min |-> h * 60 + m]
               ELSE [st |-> "bad", min |-> 0]
Zone(b, p, w3c) ==
    \* [st, off]
    IF p > Len(b) THEN [st |-> "ok", off |-> NoZone]
    ELSE IF b[p] = 90 THEN (IF p = Len(b) THEN [st |-> "ok", off |-> 0]
                            ELSE LET z == ZoneTail(b, p + 1, w3c)
                                 IN [st |-> IF z.st = "bad" \/ ~ZeroDigits(b, p + 1) THEN "bad" ELSE IF w3c THEN "lax" ELSE z.st, off |-> 0])
    ELSE IF b[p] \in {43, 45}
         THEN LET z == ZoneTail(b, p + 1, w3c) IN [st |-> z.st, off |-> IF b[p] = 45 THEN 0 - z.min ELSE z.min]
    ELSE [st |-> "bad", off |-> NoZone]

Finish(f, st, z) ==
    LET s == Both(st, z.st)
        w == Both(s, IF f[3] > MonthLen(f[1], f[2]) THEN "lax" ELSE "ok")
    IN IF w = "ok" THEN Instant(f, z.off) ELSE [Bad EXCEPT !.st = w]

RECURSIVE PdfFields(_, _, _, _, _)
\* fields from the i-th on; st of what was read so far
PdfFields(b, p, i, f, st) ==
    IF i = 7 THEN Finish(f, st, Zone(b, p, FALSE))
    ELSE IF p > Len(b) \/ b[p] \in {43, 45, 90}
         THEN \* a date without a year says nothing; a zone is for times
              Finish(f, Both(st, IF i = 1 THEN "lax" ELSE IF p <= Len(b) /\ i < 6 THEN "lax" ELSE "ok"), Zone(b, p, FALSE))
    ELSE LET n == DigitsAt(b, p, Width[i])
             v == NumAt(b, p, n)
         IN IF n = 0 THEN Bad
            ELSE IF n < Width[i] THEN \* an incomplete field
                 (IF PdfFields(b, p + n, i + 1, [f EXCEPT ![i] = Lo[i]], "lax").st = "bad" THEN Bad ELSE Lax)
            ELSE IF v < Lo[i] \/ v > Hi[i] THEN Bad
            ELSE PdfFields(b, p + n, i + 1, [f EXCEPT ![i] = v], st)
HasD(b) == At(b, 1) = 68
ParsePdf(b) ==
    IF b = <<>> THEN Lax
    ELSE IF HasD(b) THEN (IF At(b, 2) = 58 THEN PdfFields(b, 3, 1, Lo, "ok") ELSE Bad)
    ELSE PdfFields(b, 1, 1, Lo, "ok")

\* W3C: YYYY[-MM[-DD[Thh:mm[:ss[.s+]]Z]]]
Sep == <<45, 45, 84, 58, 58, 256>>
RECURSIVE SkipDigits(_, _)
SkipDigits(b, p) == IF IsDig(At(b, p)) THEN SkipDigits(b, p + 1) ELSE p
RECURSIVE W3cFields(_, _, _, _, _)
W3cFields(b, p, i, f, st0) ==
    LET n == DigitsAt(b, p, Width[i])
        v == NumAt(b, p, n)
        q == p + n
        st == IF n < Width[i] THEN "lax" ELSE st0     \* an incomplete field
    IN IF n = 0 THEN (IF p > Len(b) /\ i > 1 THEN Lax ELSE Bad)
       ELSE IF n = Width[i] /\ (v < Lo[i] \/ v > Hi[i]) THEN Bad
       ELSE LET g == [f EXCEPT ![i] = IF n = Width[i] THEN v ELSE Lo[i]]
            IN IF q > Len(b) THEN \* hours without minutes are no date of this form
                    Finish(g, Both(st, IF i = 4 THEN "lax" ELSE "ok"), Zone(b, q, TRUE))
               ELSE IF i \in {5, 6} /\ b[q] \in {43, 45, 90} THEN Finish(g, st, Zone(b, q, TRUE))
               ELSE IF i = 6 /\ b[q] = 46 THEN (IF IsDig(At(b, q + 1)) THEN Finish(g, st, Zone(b, SkipDigits(b, q + 1), TRUE)) ELSE Bad)
               ELSE IF b[q] = Sep[i] THEN W3cFields(b, q + 1, i + 1, g, st)
               ELSE Bad
ParseW3c(b) == IF b = <<>> THEN Bad ELSE W3cFields(b, 1, 1, Lo, "ok")

(* --- writing ----------------------------------------------------------------- *)
D2(n) == <<48 + n \div 10, 48 + (n % 10)>>
D4(n) == D2(n \div 100) \o D2(n % 100)
Abs(n) == IF n < 0 THEN 0 - n ELSE n
ZoneText(off, w3c) ==
    IF off = NoZone THEN <<>>
    ELSE IF off = 0 THEN <<90>>
    ELSE <<IF off > 0 THEN 43 ELSE 45>> \o D2(Abs(off) \div 60) \o <<IF w3c THEN 58 ELSE 39>> \o D2(Abs(off) % 60) \o (IF w3c THEN <<>> ELSE <<39>>)
\* what the clock of the zone shows
Local(days, sod, off) ==
    LET s == sod + (IF off = NoZone THEN 0 ELSE off * 60)
        c == Civil(days + s \div 86400)
        r == s % 86400
    IN <<c.y, c.m, c.d, r \div 3600, (r \div 60) % 60, r % 60>>
PdfText(days, sod, off) ==
    LET f == Local(days, sod, off)
    IN <<68, 58>> \o D4(f[1]) \o D2(f[2]) \o D2(f[3]) \o D2(f[4]) \o D2(f[5]) \o D2(f[6]) \o ZoneText(off, FALSE)
W3cText(days, sod, off) ==
    LET f == Local(days, sod, off)
    IN D4(f[1]) \o <<45>> \o D2(f[2]) \o <<45>> \o D2(f[3]) \o <<84>> \o D2(f[4]) \o <<58>> \o D2(f[5]) \o <<58>> \o D2(f[6]) \o ZoneText(off, TRUE)
=============================================================================
