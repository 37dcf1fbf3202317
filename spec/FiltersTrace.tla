----------------------------- MODULE FiltersTrace -----------------------------
EXTENDS Filters, TraceBase

\* e.infl: the inflated input of the flate filter at each stage (environment), <<-1>> if damaged
RECURSIVE Chain(_, _, _)
Chain(e, i, d) ==
    IF i > Len(e.fs) THEN d
    ELSE IF d = Err THEN Err
    ELSE Chain(e, i + 1, Decode(e.fs[i].f, d, e.fs[i].q, e.fs[i].infl))
Ok(e) ==
    CASE e.op = "dec" ->
            LET x == Chain(e, 1, e.b) IN x = Err \/ (e.err = "" /\ e.out = x)
      [] e.op = "enc" ->
            IF e.f \in {"rle", "lzw"} THEN e.err = "PdfErrorCode::UnsupportedFilter"     \* documented
            ELSE e.err = "" /\ Decode(e.f, e.out, NoParms, e.infl) = e.b
TraceInit == TBInit
TraceNext == IsEv /\ Advance /\ Ok(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
