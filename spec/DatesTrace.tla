------------------------------ MODULE DatesTrace ------------------------------
EXTENDS Dates, TraceBase
TraceInit == TBInit
Reads(o, w) ==
    /\ o.err = "" /\ o.same
    /\ w.st = "bad" => ~o.ok
    /\ w.st = "ok" => o.ok /\ o.v = [days |-> w.days, sod |-> w.sod, off |-> w.off]
    \* what is refused leaves the date at its default
    /\ ~o.ok => o.v = [days |-> 0, sod |-> 0, off |-> NoZone]
Ok(e) ==
    CASE e.op = "parse" -> Reads(e.out, IF e.w3c = 1 THEN ParseW3c(e.b) ELSE ParsePdf(e.b))
      [] e.op = "format" ->
            /\ e.out.err = ""
            /\ e.out.pdf = PdfText(e.days, e.sod, e.off)
            /\ e.out.w3c = W3cText(e.days, e.sod, e.off)
            /\ e.out.back
      [] OTHER -> FALSE
TraceNext == IsEv /\ Advance /\ Ok(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
