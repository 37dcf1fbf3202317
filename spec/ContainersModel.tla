--------------------------- MODULE ContainersModel ---------------------------
(* Closed model of Containers: a program works on an object of its own and on   *)
(* two objects of a document, and saves incrementally what it changed.          *)
EXTENDS Containers
CONSTANTS MaxSize, MaxOps
VARIABLES m, disk, dirty, touched, n
vars == <<m, disk, dirty, touched, n>>

Slots == {"f1", "d1", "d2"}
Saves == Slots \cap DocSlots
Lits == {[s |-> "5"], [s |-> "f0.500000"], [a |-> <<>>], EmptyDict, [r |-> "d2"]}
Keys == {"A", "Parent"}

RECURSIVE Size(_), Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Size(f[x]) + Sum(f, S \ {x})
Size(v) == 1 + (IF IsArr(v) THEN Sum(v.a, DOMAIN v.a) ELSE IF IsDict(v) THEN Sum(v.d, DOMAIN v.d) ELSE 0)
\* every place in a value: the text of its path |-> its path
RECURSIVE Paths(_), Join(_, _)
Join(f, S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN f[x] @@ Join(f, S \ {x})
Under(txt, step, v) == LET q == Paths(v) IN [y \in {txt \o x : x \in DOMAIN q} |-> <<step>> \o q[CHOOSE x \in DOMAIN q : txt \o x = y]]
Paths(v) ==
    ("" :> <<>>) @@
    (IF IsArr(v) THEN Join([i \in DOMAIN v.a |-> Under("/" \o ToString(i - 1), i - 1, v.a[i])], DOMAIN v.a)
     ELSE IF IsDict(v) THEN Join([k \in DOMAIN v.d |-> Under("/" \o k, k, v.d[k])], DOMAIN v.d)
     ELSE <<>>)
\* P holds for some, for all places
Loc(s, x) == [s |-> s, p |-> Paths(m[s])[x], id |-> s \o x]

Init == /\ m = [s \in Slots |-> IF s = "f1" THEN [a |-> <<[s |-> "5"]>>] ELSE EmptyDict]
        /\ disk = m /\ dirty = {} /\ touched = {} /\ n = 0

\* the operations on t that take the value v, and those that take none
Giving(t, v) ==
    <<[op |-> "assign", t |-> t, v |-> v], [op |-> "add", t |-> t, v |-> v], [op |-> "addind", t |-> t, v |-> v],
      [op |-> "addindsafe", t |-> t, v |-> v], [op |-> "aassign", t |-> t, v |-> v], [op |-> "dassign", t |-> t, v |-> v],
      [op |-> "addkey", t |-> t, v |-> v, k |-> "A"], [op |-> "addkey", t |-> t, v |-> v, k |-> "Parent"],
      [op |-> "keyind", t |-> t, v |-> v, k |-> "A"], [op |-> "keyindsafe", t |-> t, v |-> v, k |-> "Parent"],
      [op |-> "setat", t |-> t, v |-> v, i |-> 0], [op |-> "setat", t |-> t, v |-> v, i |-> 1]>>
Taking(t) ==
    <<[op |-> "removeat", t |-> t, i |-> 0], [op |-> "removeat", t |-> t, i |-> 1], [op |-> "remove", t |-> t, k |-> "A"],
      [op |-> "remove", t |-> t, k |-> "Parent"], [op |-> "setnum", t |-> t, v |-> [k |-> "lit", v |-> [s |-> "7"]]]>>
Small(r) == \A s \in Slots : Size(r.m[s]) <= MaxSize
Op(e) ==
    \E r \in Results(m, e) :
        /\ ~r.err /\ Small(r)
        /\ m' = r.m
        \* every change of a part reaches the indirect object it is in
        /\ dirty' = IF InDoc(e.t) THEN dirty \cup {e.t.s} ELSE dirty
        /\ touched' = {e.t.s} \cup (IF Moves(e) THEN {"f1"} ELSE {})
        /\ n' = n + 1 /\ UNCHANGED disk
Change ==
    /\ n < MaxOps
    /\ \E s \in Slots : \E x \in DOMAIN Paths(m[s]) :
          \/ \E i \in 1..5 : Op(Taking(Loc(s, x))[i])
          \/ \E v \in Lits : \E i \in 1..12 : Op(Giving(Loc(s, x), [k |-> "lit", v |-> v])[i])
          \/ \E s2 \in Slots : \E x2 \in DOMAIN Paths(m[s2]) : \E how \in {"copy", "move"} : \E i \in 1..12 :
                LET L == Loc(s2, x2) IN
                /\ how = "move" => s2 = "f1" /\ s # "f1"
                /\ Op(Giving(Loc(s, x), [k |-> how, s |-> L.s, p |-> L.p, id |-> L.id])[i])
Save ==
    /\ dirty # {}
    /\ disk' = [s \in Slots |-> IF s \in dirty THEN Filed(m[s]) ELSE disk[s]]
    /\ m' = [s \in Slots |-> IF s \in Saves THEN disk'[s] ELSE m[s]]
    /\ dirty' = {} /\ touched' = Saves /\ UNCHANGED n
Next == Change \/ Save
Spec == Init /\ [][Next]_vars

\* what was not changed is what the file says
Written == \A s \in Saves \ dirty : disk[s] = m[s]
\* a save loses nothing
SaveKeeps == \A s \in Saves : Filed(m[s]) = (IF s \in dirty THEN Filed(m[s]) ELSE disk[s])
\* an operation changes no other object: copies share nothing
Apart == [][\A s \in Slots : m'[s] # m[s] => s \in touched']_vars
\* looking up ends, and never fails in a document
LookupsOk ==
    \A s \in Slots : \A x \in DOMAIN Paths(m[s]) : LET L == Loc(s, x) v == Val(m, L) IN
       IsDict(v) => \A k \in Keys : Lookup(m, L, k) # Error \/ ~InDoc(L)
\* a copy is equal to what it is a copy of
CopiesEqual ==
    \A s \in Slots : \A x \in DOMAIN Paths(m[s]) : LET L == Loc(s, x) F == [s |-> "f1", p |-> <<>>, id |-> "f1"] IN
       \A r \in Results(m, [op |-> "assign", t |-> F, v |-> [k |-> "copy", s |-> L.s, p |-> L.p, id |-> L.id]]) :
          ~r.err /\ r.m["f1"] = Val(m, L) /\ \A s2 \in Slots \ {"f1"} : r.m[s2] = m[s2]
=============================================================================
