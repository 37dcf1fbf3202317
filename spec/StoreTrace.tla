------------------------------ MODULE StoreTrace ------------------------------
EXTENDS Store, TraceBase, FileLayout

ExpectedError(e) ==
    \/ e.op = "load" /\ ~Opens(fenc, Password(e)) /\ e.err = "PdfErrorCode::InvalidPassword"
    \/ e.op = "free" /\ e.err = "PdfErrorCode::InvalidHandle"     \* not every object can be read again
    \/ e.op = "replace" /\ e.ref \notin DOMAIN objs
    \/ e.op \in {"clone", "put", "del", "clear", "scalar", "aadd", "ains", "aset", "adel", "setc", "stream"} /\ e.ref \notin DOMAIN objs

TraceInit == Init /\ TBInit
TraceNext ==
    /\ IsEv /\ Advance
    /\ LET e == Ev IN
        IF e.err # "" THEN ExpectedError(e) /\ UNCHANGED svars
        ELSE /\ Do(e, e.out)
             /\ e.op \in {"save", "update"} => LayoutOk(e.out.layout, e.op)
TraceSpec == TraceInit /\ [][TraceNext]_<<svars, tvars>>
=============================================================================
