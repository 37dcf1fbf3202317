------------------------------ MODULE TraceBase ------------------------------
(* Validation of recorded executions.  The file named by the environment      *)
(* variable TRACE holds one JSON record per line: [id |-> .., ev |-> events]. *)
(* Every record is its own behaviour (its own initial state); a record is      *)
(* accepted iff the specification can take a step for each of its events.      *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Traces)

VARIABLES t, l
tvars == <<t, l>>

TBInit == t \in 1..NT /\ l = 1
Ev == Traces[t].ev[l]
IsEv == l <= Len(Traces[t].ev)
Advance == l' = l + 1 /\ UNCHANGED t

ASSUME \A i \in 1..NT : TLCSet(i + 100, 0)
Progress == IF TLCGet(t + 100) < l THEN TLCSet(t + 100, l) ELSE TRUE
Report ==
    /\ \A i \in 1..NT :
          \/ TLCGet(i + 100) = Len(Traces[i].ev) + 1
          \/ PrintT("REJECTED " \o ToString(i) \o " " \o ToString(TLCGet(i + 100)))
    /\ PrintT("VALIDATED " \o ToString(NT))
=============================================================================
