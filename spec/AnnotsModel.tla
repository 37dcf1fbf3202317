------------------------------ MODULE AnnotsModel ------------------------------
(* Closed model of Annots.  Beside the sequence of the entries of a page it has   *)
(* what an implementation keeps: a table from the number of an object to its       *)
(* place, filled on loading and corrected on removals.                            *)
EXTENDS Annots
CONSTANTS MaxObjs, MaxOps
VARIABLES s, idx, hist, ops
vars == <<s, idx, hist, ops>>

Start == [Empty EXCEPT !.pages = <<<<>>, <<>>>>, !.pn = <<101, 102>>]
Index(s2, p) == [n \in {s2.pages[p][i].n : i \in 1..Len(s2.pages[p])} \ {0} |-> CHOOSE i \in 1..Len(s2.pages[p]) : s2.pages[p][i].n = n]
\* of other programs: an annotation, an entry that is none, one that is not indirect
Loaded == [Start EXCEPT !.objs = <<New(1, "Link", <<0, 0, 1, 1>>), New(0, "Text", <<0, 0, 1, 1>>)>>,
    !.pages[1] = <<[n |-> 1, a |-> 1], [n |-> 50, a |-> 0], [n |-> 0, a |-> 2], [n |-> 0, a |-> 0]>>]
Init == /\ s \in {Start, Loaded} /\ ops = 0 /\ hist = {}
        /\ idx = [p \in 1..2 |-> Index(s, p)]
Fix(t, i) == [n \in DOMAIN t |-> IF t[n] > i THEN t[n] - 1 ELSE t[n]]
Less(t, n) == [m \in DOMAIN t \ {n} |-> t[m]]
Put(t, n, i) == [m \in DOMAIN t \cup {n} |-> IF m = n THEN i ELSE t[m]]

Create(p) ==
    LET n == Len(s.objs) + 1 IN
    /\ Len(s.objs) < MaxObjs
    /\ s' = Add(s, p, n, New(n, "Widget", <<0, 0, 1, 1>>)) /\ idx' = [idx EXCEPT ![p] = Put(@, n, Len(s.pages[p]) + 1)] /\ UNCHANGED hist
Remove(p, i) ==
    /\ s' = RemoveAt(s, p, i)
    /\ idx' = [idx EXCEPT ![p] = Fix(IF s.pages[p][i].n = 0 THEN @ ELSE Less(@, s.pages[p][i].n), i)] /\ UNCHANGED hist
RemoveRef(p, n) ==
    /\ n \in DOMAIN idx[p]
    /\ s' = RemoveAt(s, p, idx[p][n]) /\ idx' = [idx EXCEPT ![p] = Fix(Less(@, n), idx[p][n])] /\ UNCHANGED hist
Reload == idx' = [p \in 1..2 |-> Index(s, p)] /\ UNCHANGED <<s, hist>>
Clear(h, a, m, state) == {y \in h : ~(y[1] = a /\ y[2] = m /\ (state = "" \/ y[3] = state \/ y[3] = ""))}
SetLook(a, m, state, x) ==
    /\ s' = [s EXCEPT !.objs[a] = Look(@, m, state, x)]
    /\ hist' = Clear(hist, a, m, state) \cup {<<a, m, state, x>>} /\ UNCHANGED idx
Next ==
    /\ ops < MaxOps /\ ops' = ops + 1
    /\ \/ \E p \in 1..2 : Create(p)
       \/ \E p \in 1..2 : \E i \in 1..Len(s.pages[p]) : Remove(p, i)
       \/ \E p \in 1..2 : \E n \in 1..MaxObjs \cup {50} : RemoveRef(p, n)
       \/ Reload
       \/ \E a \in {x \in 1..Len(s.objs) : x < 3} : \E m \in {"N", "D"}, state \in {"", "On", "Off"}, x \in 7..8 : SetLook(a, m, state, x)
Spec == Init /\ [][Next]_vars

\* the table finds every entry at its place, and nothing else
InStep == \A p \in 1..2 : idx[p] = Index(s, p)
\* what is seen of an annotation are the last appearances of its modes and states
LooksOk == \A a \in 1..Len(s.objs) :
    /\ Looks(s.objs[a]) = {<<y[2], y[3], y[4]>> : y \in {z \in hist : z[1] = a}}
    /\ \A z \in hist : z[1] = a => LookOf(s.objs[a], z[2], z[3]) = z[4]
    /\ \A m \in Modes : ~((\E y \in Looks(s.objs[a]) : y[1] = m /\ y[2] = "") /\ (\E y \in Looks(s.objs[a]) : y[1] = m /\ y[2] # ""))
\* an annotation is on one page, at one place
Once == \A p, q \in 1..2 : \A i \in 1..Len(s.pages[p]) : \A j \in 1..Len(s.pages[q]) :
    (s.pages[p][i].a # 0 /\ s.pages[p][i].a = s.pages[q][j].a) => (p = q /\ i = j)
=============================================================================
