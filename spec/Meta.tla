-------------------------------- MODULE Meta --------------------------------
(* Metadata of a document, kept twice: the information dictionary and the XMP *)
(* packet.  A user sees one view of both (the dictionary first), changes it,  *)
(* and the packet follows when asked to and when the document is saved.       *)
EXTENDS Integers, Sequences, TLC
CONSTANT F                      \* the properties both of them can hold
None == <<0 - 1>>               \* values: texts as code points, dates as <<days, sod, zone>>
DateFields == {"CreationDate", "ModDate"}

\* state: info, xmp = [has, f, level, custom], pkt (a packet is in memory), view, level, and what only the dictionary holds
NoXmp == [has |-> FALSE, f |-> [x \in F |-> None], level |-> "", custom |-> None]
Merge(info, xmp) == [x \in F |-> IF info[x] # None THEN info[x] ELSE xmp.f[x]]
Opened(info, xmp, trapped, foo) ==
    [info |-> info, xmp |-> xmp, pkt |-> xmp.has, view |-> Merge(info, xmp), level |-> xmp.level, trapped |-> trapped, foo |-> foo]
Written(s) == [s EXCEPT !.xmp = [has |-> TRUE, f |-> s.view, level |-> s.level, custom |-> s.xmp.custom], !.pkt = TRUE]
Follow(s, sync) == IF sync /\ s.pkt THEN {Written(s)} ELSE {s}

\* a property is given the value it has already: there is nothing to do, and no harm in doing it
Set(s, x, v, sync) ==
    LET t == [s EXCEPT !.info[x] = v, !.view[x] = v]
    IN IF s.view[x] = v THEN {s, t} \cup Follow(s, sync) \cup Follow(t, sync) ELSE Follow(t, sync)
Ensured(s) == [s EXCEPT !.pkt = TRUE, !.info = [x \in F |-> IF x \in DateFields THEN s.view[x] ELSE @[x]]]
SetLevel(s, v, sync) ==
    LET t == [(IF v = "" THEN s ELSE Ensured(s)) EXCEPT !.level = v]
    IN IF s.level = v THEN {s} \cup Follow(s, sync) ELSE Follow(t, sync)
Sync(s, force) == IF s.pkt \/ force THEN Written(s) ELSE s
Reopened(s) == Opened(s.info, s.xmp, s.trapped, s.foo)
Forget(s) == [Reopened(s) EXCEPT !.pkt = s.xmp.has]
\* saved with a new modification date; or as it is, when the packet may follow or not
Saved(s, now) == UNION {{Sync(t, FALSE)} : t \in Set(s, "ModDate", now, TRUE)}
SavedAsIs(s) == {s, Sync(s, FALSE)}
=============================================================================
