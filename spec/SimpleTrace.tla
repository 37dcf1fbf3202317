----------------------------- MODULE SimpleTrace -----------------------------
(* Encodings of one byte: what every code stands for, with differences over   *)
(* the encoding they start from, and that characters get back a code of theirs. *)
EXTENDS Codes, CodeTables, TraceBase
VARIABLES st
TraceInit == TBInit /\ st = NoMap
Base(n) == CASE n = "WinAnsiEncoding" -> WinAnsi [] n = "MacRomanEncoding" -> MacRoman [] n = "" -> Standard
\* differences are numbers, which begin runs, and names
RECURSIVE Runs(_, _, _)
Runs(ds, i, at) ==
    IF i > Len(ds) THEN NoMap
    ELSE IF ds[i].n >= 0 THEN Runs(ds, i + 1, ds[i].n)
    ELSE LET r == Runs(ds, i + 1, at + 1) IN IF at \in DOMAIN r THEN r ELSE Lay(r, at, ds[i].u)
Table(e) ==
    LET d == Runs(e.diffs, 1, 0)
    IN [c \in {x \in 0..255 : x \in DOMAIN d \/ Base(e.base)[x + 1] # 0} |-> IF c \in DOMAIN d THEN d[c] ELSE Base(e.base)[c + 1]]
Does(e) ==
    CASE e.op = "start" ->
            /\ e.out.err = "" /\ st' = Table(e)
            /\ \A c \in DOMAIN st' : e.out.dec[c + 1] = st'[c]
            \* a character has a code which stands for it
            /\ \A c \in 0..255 : e.out.dec[c + 1] > 0 => e.out.back[c + 1] \in 0..255 /\ e.out.dec[e.out.back[c + 1] + 1] = e.out.dec[c + 1]
      [] e.op = "text" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ e.out.cps = SelectSeq([i \in 1..Len(e.bytes) |-> st[e.bytes[i]]], Shown)
      [] e.op = "encode" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ LET known == {st[c] : c \in DOMAIN st} IN
               IF \A i \in 1..Len(e.cps) : e.cps[i] \in known
               THEN /\ e.out.ok /\ Len(e.out.codes) = Len(e.cps)
                    /\ \A i \in 1..Len(e.cps) : Len(e.out.codes[i]) = 1 /\ (e.out.codes[i][1] \in DOMAIN st => st[e.out.codes[i][1]] = e.cps[i])
               ELSE \* at the first which has no code
                    \A i \in 1..Len(e.out.codes) : Len(e.out.codes[i]) = 1 /\ (e.out.codes[i][1] \in DOMAIN st => st[e.out.codes[i][1]] = e.cps[i])
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
