------------------------------ MODULE PagesTrace ------------------------------
EXTENDS Pages, TraceBase
TraceInit == Init /\ TBInit
TraceNext ==
    /\ IsEv /\ Advance
    /\ LET e == Ev IN
        IF e.err # "" THEN MustFail(e) /\ UNCHANGED pvars
        ELSE Do(e, e.out)
TraceSpec == TraceInit /\ [][TraceNext]_<<pvars, tvars>>
=============================================================================
