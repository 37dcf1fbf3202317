----------------------------- MODULE DatesModel ------------------------------
(* The clock ticks through chosen days, times and zones; what is written is     *)
(* read back as the same instant, and the calendar never skips a day.           *)
EXTENDS Dates, TLC
CONSTANTS Years, Sods, Offs
VARIABLES day, c, sod, off
vars == <<day, c, sod, off>>
Init == /\ \E y \in Years : day = DayNumber(y, 1, 1) /\ c = [y |-> y, m |-> 1, d |-> 1]
        /\ sod \in Sods /\ off \in Offs
\* the calendar said step by step
Tomorrow(x) == IF x.d < MonthLen(x.y, x.m) THEN [x EXCEPT !.d = @ + 1]
               ELSE IF x.m < 12 THEN [x EXCEPT !.m = @ + 1, !.d = 1]
               ELSE [y |-> x.y + 1, m |-> 1, d |-> 1]
Next == /\ c.m # 12 \/ c.d # 31 \/ c.y + 1 \notin Years
        /\ c.y < 9999 /\ (c.y + 1 \in Years \/ c.y \in Years)
        /\ day' = day + 1 /\ c' = Tomorrow(c) /\ UNCHANGED <<sod, off>>
Spec == Init /\ [][Next]_vars
Calendar == Civil(day) = c /\ DayNumber(c.y, c.m, c.d) = day
Back ==
    LET f == Local(day, sod, off)
        w == [st |-> "ok", days |-> day, sod |-> sod, off |-> off]
    IN f[1] \in 0..9999 =>
        /\ ParsePdf(PdfText(day, sod, off)) = w
        /\ ParseW3c(W3cText(day, sod, off)) = w
=============================================================================
