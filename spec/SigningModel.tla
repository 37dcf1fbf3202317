------------------------------ MODULE SigningModel ------------------------------
(* Closed model of signing: a file grows by updates, some of which hold a         *)
(* signature; its place is reserved, the range is written, everything else is read *)
(* in pieces by a loop with a buffer, then the place is filled.                    *)
EXTENDS Signing, TLC
CONSTANTS MaxLen, MaxUpdates
VARIABLES file, sigs, n, job
vars == <<file, sigs, n, job>>
\* a byte is a number that is never used again, so that bytes can be told apart; 0: reserved
Bytes(k, m) == [i \in 1..m |-> k * 100 + i]
Slice(s, a, b) == SubSeq(s, a + 1, b)
Idle == [on |-> FALSE, pos |-> 0, buf |-> 1, c |-> 0, e |-> 0, got |-> <<>>]
Min(a, b) == IF a < b THEN a ELSE b
Init == file = Bytes(9, 2) /\ sigs = {} /\ n = 0 /\ job = Idle
Update ==
    /\ ~job.on /\ n < MaxUpdates
    /\ \E m \in 1..2 : Len(file) + m <= MaxLen /\ file' = file \o Bytes(n, m) /\ n' = n + 1 /\ UNCHANGED <<sigs, job>>
\* an update that holds the place of a signature
Prepare ==
    /\ ~job.on /\ n < MaxUpdates
    /\ \E before \in 0..2, hole \in 1..3, after \in 1..3, buf \in 1..4 :
          /\ Len(file) + before + hole + after <= MaxLen
          /\ file' = file \o Bytes(n, before) \o [i \in 1..hole |-> 0] \o Bytes(n + 50, after)
          /\ job' = [on |-> TRUE, pos |-> 0, buf |-> buf, c |-> Len(file) + before, e |-> Len(file) + before + hole, got |-> <<>>]
    /\ n' = n + 1 /\ UNCHANGED sigs
\* one turn of the loop: what is before the place, then what is behind it, as far as the buffer goes
Piece ==
    LET j == job
        r1 == IF j.pos < j.c THEN Min(j.buf, j.c - j.pos) ELSE 0
        p1 == j.pos + r1
        left == j.buf - r1
        p2 == IF left > 0 /\ p1 >= j.c /\ j.pos < j.e THEN j.e ELSE p1
        r2 == IF left > 0 THEN Min(left, Len(file) - p2) ELSE 0
    IN [data |-> Slice(file, j.pos, j.pos + r1) \o Slice(file, p2, p2 + r2), pos |-> p2 + r2]
Read ==
    /\ job.on
    /\ IF Piece.data = <<>>
       THEN /\ file' = Slice(file, 0, job.c) \o [i \in 1..(job.e - job.c) |-> 1000] \o Slice(file, job.e, Len(file))
            /\ sigs' = sigs \cup {[range |-> <<0, job.c, job.e, Len(file) - job.e>>, digest |-> job.got]}
            /\ job' = Idle /\ UNCHANGED n
       ELSE job' = [job EXCEPT !.got = @ \o Piece.data, !.pos = Piece.pos] /\ UNCHANGED <<file, sigs, n>>
Next == Update \/ Prepare \/ Read
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Covered(f, r) == Slice(f, r[1], r[1] + r[2]) \o Slice(f, r[3], r[3] + r[4])
\* every signature verifies, whatever was added later
Verifies == \A g \in sigs : Covered(file, g.range) = g.digest
\* it covers all of the file as it was but the place itself
Whole == \A g \in sigs : /\ RangeOk(g.range, g.range[2], g.range[3], g.range[3] + g.range[4])
                         /\ \A i \in g.range[2] + 1..g.range[3] : file[i] = 1000
Ends == job.on ~> ~job.on
=============================================================================
