------------------------------ MODULE FileLayout ------------------------------
(* Well-formedness of the physical file: cross-reference sections, free list,  *)
(* trailers and revisions.  L is the list of raw facts an independent scanner  *)
(* extracts from the bytes (lib/pdfraw.py): sections newest first,             *)
(*   sec.ent  = sequence of <<number, type, field2, field3>>                   *)
(*              type 0: <<n, 0, next free, generation>>                        *)
(*              type 1: <<n, 1, offset, generation>>                           *)
(*              type 2: <<n, 2, object stream, index>>                         *)
(*   objs     = sequence of <<number, generation, offset, defect>>             *)
EXTENDS Integers, Sequences, FiniteSets

Entries(s) == {s.ent[i] : i \in 1..Len(s.ent)}
ObjsOf(L) == {L.objs[i] : i \in 1..Len(L.objs)}

(* the newest entry for every number *)
RECURSIVE Merge(_, _, _)
Merge(secs, i, acc) ==
    IF i > Len(secs) THEN acc
    ELSE LET known == {x[1] : x \in acc}
             new == {x \in Entries(secs[i]) : x[1] \notin known}
         IN Merge(secs, i + 1, acc \cup new)

NoDuplicates(s) == \A i, j \in 1..Len(s.ent) : i # j => s.ent[i][1] # s.ent[j][1]
SubsectionsMatch(s) ==
    /\ \A i, j \in 1..Len(s.subs) : i # j =>
          \/ s.subs[i][1] + s.subs[i][2] <= s.subs[j][1]
          \/ s.subs[j][1] + s.subs[j][2] <= s.subs[i][1]
InUsePointsAtObject(L, s) ==
    \A x \in Entries(s) : x[2] = 1 =>
        \E o \in ObjsOf(L) : o[1] = x[1] /\ o[2] = x[4] /\ o[3] = x[3]
SizeCovers(s) == \A x \in Entries(s) : x[1] < s.size

(* objects written by the revision of section i lie between its predecessor   *)
(* and itself; each is announced by that section                              *)
BodyAnnounced(L, i) ==
    LET s == L.secs[i]
        lo == IF i = Len(L.secs) THEN 0 ELSE L.secs[i + 1].off
    IN \A o \in ObjsOf(L) :
          (o[3] > lo /\ o[3] <= s.off) =>
             \E x \in Entries(s) : x[1] = o[1] /\ x[2] = 1 /\ x[4] = o[2] /\ x[3] = o[3]

RECURSIVE FreeWalk(_, _, _)
FreeWalk(m, n, seen) ==
    \* follows the linked list of free entries from n; returns the numbers met
    \* or a marker if it leaves the free entries or loops
    LET f == {x \in m : x[1] = n}
    IN IF n = 0 /\ seen # {} THEN seen
       ELSE IF n \in seen \/ f = {} THEN {-1}
       ELSE LET x == CHOOSE y \in f : TRUE
            IN IF x[2] # 0 THEN {-1} ELSE FreeWalk(m, x[3], seen \cup {n})
\* the chain starts at entry 0 and visits free entries only, ending at 0
FreeListLinked(L) ==
    LET m == Merge(L.secs, 1, {})
        w == FreeWalk(m, 0, {})
    IN /\ -1 \notin w
       /\ \A x \in Entries(L.secs[1]) : x[2] = 0 => x[1] \in w
HasEntryZero(s) == \E x \in Entries(s) : x[1] = 0 /\ x[2] = 0

NoScanDefect(L) == \A o \in ObjsOf(L) : o[4] = 0

\* the sections that belong to revisions of the library's own: beyond L.base
Own(L) == {i \in 1..Len(L.secs) : L.secs[i].off >= L.base}
LayoutOk(L, kind) ==
    /\ L.err = ""
    /\ L.header = "%PDF-"
    /\ NoScanDefect(L)
    /\ \A i \in Own(L) :
        /\ NoDuplicates(L.secs[i])
        /\ SubsectionsMatch(L.secs[i])
        /\ InUsePointsAtObject(L, L.secs[i])
        /\ SizeCovers(L.secs[i])
        /\ BodyAnnounced(L, i)
        /\ L.secs[i].nid = 2
    /\ HasEntryZero(L.secs[1])
    /\ FreeListLinked(L)
    /\ kind = "save" => Len(L.secs) = 1 /\ L.eofs = 1
    /\ kind = "update" => Len(L.secs) > 1 /\ L.eofs = Cardinality(Own(L))
    \* a revision points back at the previous one
    /\ \A i \in Own(L) \ {Len(L.secs)} : L.secs[i].prev = L.secs[i + 1].off /\ L.secs[i + 1].off < L.secs[i].off
    /\ Own(L) = 1..Len(L.secs) => L.secs[Len(L.secs)].prev = -1
=============================================================================
