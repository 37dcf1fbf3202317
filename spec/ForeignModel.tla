---------------------------- MODULE ForeignModel ----------------------------
(* A producer appends revisions to a file: every revision changes, creates,    *)
(* frees or frees for good any of the objects and tells it by a table, by a    *)
(* cross-reference stream (objects of generation 0 may be compressed), or by   *)
(* both, the hidden objects in the stream only.  What the sections mean must   *)
(* be what the producer meant.                                                 *)
EXTENDS ForeignFile

CONSTANTS Nums, Bodies, MaxRevs, Max

VARIABLES doc,     \* number -> [g, b, st]: state st in never, live, free
          revs, born, nrev
vars == <<doc, revs, born, nrev>>

Body == [b \in Bodies |-> [s |-> b]]
Init == /\ doc = [n \in Nums |-> [g |-> 0, b |-> "-", st |-> "never"]]
        /\ revs = <<>> /\ born = {} /\ nrev = 0

\* what a revision may do with a number
Next1(o) ==
    (CASE o.st = "live" -> {[g |-> o.g, b |-> b, st |-> "live"] : b \in Bodies \ {o.b}}
                           \cup {[g |-> o.g + 1, b |-> "-", st |-> "free"]}
       [] o.st = "free" -> IF o.g >= Max THEN {} ELSE {[g |-> o.g, b |-> b, st |-> "live"] : b \in Bodies}
       [] OTHER -> {[g |-> 0, b |-> b, st |-> "live"] : b \in Bodies})
Entry(n, o, comp) ==
    IF o.st = "free" THEN <<n, 0, o.g, "">>
    ELSE IF comp THEN <<n, 2, 0, o.b>> ELSE <<n, 1, o.g, o.b>>
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})

\* the numbers any section has told about so far
Known == UNION {Numbers(EntriesOf(revs[i].tab) \cup EntriesOf(revs[i].stm)) : i \in 1..Len(revs)}

Revise ==
    /\ nrev < MaxRevs
    /\ \E ch \in SUBSET Nums :
       /\ ch # {}
       /\ \E f \in [ch -> [g : 0..Max, b : Bodies \cup {"-"}, st : {"live", "free"}]] :
          /\ \A n \in ch : f[n] \in Next1(doc[n])
          /\ \E comp \in SUBSET {n \in ch : f[n].st = "live" /\ f[n].g = 0} :
             \E kind \in {"table", "stream", "hybrid"} :
                /\ kind = "table" => comp = {}
                \* a section with both: a number the table of this section tells about is not hidden
                /\ revs' = <<IF kind = "hybrid"
                             THEN [tab |-> SeqOf({Entry(n, f[n], FALSE) : n \in ch \ comp}),
                                   stm |-> SeqOf({Entry(n, f[n], TRUE) : n \in comp})]
                             ELSE [tab |-> SeqOf({Entry(n, f[n], n \in comp) : n \in ch}), stm |-> <<>>]>> \o revs
                /\ doc' = [n \in Nums |-> IF n \in ch THEN f[n] ELSE doc[n]]
                /\ born' = born \cup {<<n, f[n].g>> : n \in {m \in ch : f[m].st = "live"}}
                /\ nrev' = nrev + 1
Spec == Init /\ [][Revise]_vars

C == Content(revs, Body)
Live == {n \in Nums : doc[n].st = "live"}
\* the newest statement about a number decides, compressed or not
Means == C.objs = [r \in {FRef(n, doc[n].g) : n \in Live} |->
                      Body[doc[CHOOSE n \in Live : FRef(n, doc[n].g) = r].b]]
\* no reference that ever designated an object is taken for a fresh one
Remembers == \A x \in born : x \in C.used
\* and none that still is fresh is lost
NoMore == \A x \in C.used : x \in born
Recursive == \A i \in 1..Len(revs) : Numbers(EntriesOf(revs[i].tab)) \cap Numbers(EntriesOf(revs[i].stm)) = {}
=============================================================================
