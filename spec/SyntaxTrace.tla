----------------------------- MODULE SyntaxTrace -----------------------------
EXTENDS Syntax, TraceBase

TraceInit == TBInit
Ok(e) ==
    CASE e.op = "read"  -> LET s == Parse(e.b, e.refs) IN
                           IF \E i \in 1..Len(s) : IsErr(s[i]) THEN TRUE      \* malformed: no claim
                           ELSE e.err = "" /\ CanonSeq(e.out.v) = s
      [] e.op = "write" -> e.err = "" /\ LooseSeq(Parse(e.out.b, TRUE)) = <<Loose(Canon(e.v))>>
TraceNext == IsEv /\ Advance /\ Ok(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
