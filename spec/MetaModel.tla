------------------------------ MODULE MetaModel ------------------------------
(* Every short history of metadata, over every state a file can start with.   *)
EXTENDS Meta
CONSTANTS NV, Levels, MaxSteps
Vals == {<<i>> : i \in 1..NV}
VARIABLES s, disk, ghost, n
vars == <<s, disk, ghost, n>>
V == Vals \cup {None}
Infos == [F -> V]
Xmps == {NoXmp} \cup {[has |-> TRUE, f |-> g, level |-> lv, custom |-> c] : g \in [F -> V], lv \in Levels \cup {""}, c \in {None, <<7>>}}
Content(x) == [info |-> x.info, xmp |-> x.xmp, trapped |-> x.trapped, foo |-> x.foo]
\* ghost: what the user knows of: the view, and whether the packet is expected to follow on saving
Init == /\ s \in {Opened(i, x, "", None) : i \in Infos, x \in Xmps}
        /\ disk = Content(s)
        /\ ghost = [view |-> s.view, level |-> s.level, custom |-> s.xmp.custom]
        /\ n = 0
Know(t) == ghost' = [view |-> t.view, level |-> t.level, custom |-> ghost.custom]
Edit == \E x \in F, v \in V, sync \in BOOLEAN : \E t \in Set(s, x, v, sync) :
           s' = t /\ ghost' = [ghost EXCEPT !.view[x] = v] /\ UNCHANGED disk
EditLevel == \E lv \in Levels \cup {""}, sync \in BOOLEAN : \E t \in SetLevel(s, lv, sync) :
           s' = t /\ ghost' = [ghost EXCEPT !.level = lv] /\ UNCHANGED disk
Ensure == s' = Ensured(s) /\ UNCHANGED <<disk, ghost>>
DoSync == \E f \in BOOLEAN : s' = Sync(s, f) /\ UNCHANGED <<disk, ghost>>
Save == \E now \in Vals : \E t \in Saved(s, now) :
           s' = Reopened(t) /\ disk' = Content(t) /\ ghost' = [ghost EXCEPT !.view["ModDate"] = now]
SaveAsIs == \E t \in SavedAsIs(s) : s' = Reopened(t) /\ disk' = Content(t) /\ Know(Reopened(t))
Take == s' = Forget(s) /\ UNCHANGED disk /\ Know(Forget(s))
Next == n < MaxSteps /\ n' = n + 1 /\ (Edit \/ EditLevel \/ Ensure \/ DoSync \/ Save \/ SaveAsIs \/ Take)
Spec == Init /\ [][Next]_vars

\* what the user set is what the user sees, also after saving with a new date
SeesWhatWasSet == s.view = ghost.view
LevelKept == s.pkt => s.level = ghost.level
\* properties of the packet the library knows nothing of are never lost
CustomKept == s.xmp.custom = ghost.custom
\* a value seen is in one of the two places, or was set and not written yet
DiskShown == LET r == Opened(disk.info, disk.xmp, disk.trapped, disk.foo) IN \A x \in F : r.view[x] # None => r.view[x] \in Vals
\* synchronizing twice is synchronizing once; taking turns with reopening changes nothing that is seen
Idempotent == \A f \in BOOLEAN : Sync(Sync(s, f), f) = Sync(s, f)
SyncAgrees == LET t == Sync(s, TRUE) IN t.xmp.f = t.view /\ Reopened(t).view = t.view /\ Reopened(t).level = t.level
=============================================================================
