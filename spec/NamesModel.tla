------------------------------ MODULE NamesModel ------------------------------
(* Closed model of Names: trees which grow by insertion, nodes being split in two *)
(* when they have more than Max entries; limits are kept on the way back only      *)
(* where they change.  Beside it the mapping that is to come out.                  *)
EXTENDS Names
CONSTANTS Max, NKeys, MaxOps
VARIABLES tree, map, ops
vars == <<tree, map, ops>>
\* names which are beginnings of each other, and bytes above 127
Pool == <<<<97>>, <<97, 98>>, <<98>>, <<98, 0>>, <<233>>, <<254, 255, 4, 22>>, <<120>>, <<97, 97>>, <<>>>>
KeySet == {Pool[i] : i \in 1..NKeys}
\* a node: kids or names, and limits
Leaf(ns, lim) == [k |-> "n", kids |-> <<>>, names |-> ns, lim |-> lim]
Inner(ks, lim) == [k |-> "k", kids |-> ks, names |-> <<>>, lim |-> lim]
Limits(x) == IF x.k = "n" THEN <<x.names[1][1], x.names[Len(x.names)][1]>> ELSE <<x.kids[1].lim[1], x.kids[Len(x.kids)].lim[2]>>
Size(x) == IF x.k = "n" THEN Len(x.names) ELSE Len(x.kids)
InsertAt(s, i, e) == [j \in 1..Len(s) + 1 |-> IF j < i THEN s[j] ELSE IF j = i THEN e ELSE s[j - 1]]
Half(s, a, b) == SubSeq(s, a, b)
\* into a leaf
PutLeaf(ns, k, v) ==
    IF \E i \in 1..Len(ns) : ns[i][1] = k THEN [i \in 1..Len(ns) |-> IF ns[i][1] = k THEN <<k, v>> ELSE ns[i]]
    ELSE LET at == Cardinality({i \in 1..Len(ns) : Less(ns[i][1], k)}) + 1 IN InsertAt(ns, at, <<k, v>>)
Split(x) ==
    IF Size(x) <= Max THEN <<x>>
    ELSE LET h == (Max \div 2) + 1
             mk(a, b) == IF x.k = "n" THEN Leaf(SubSeq(x.names, a, b), <<>>) ELSE Inner(SubSeq(x.kids, a, b), <<>>)
             l == mk(1, h)
             r == mk(h + 1, Size(x))
         IN <<[l EXCEPT !.lim = Limits(l)], [r EXCEPT !.lim = Limits(r)]>>
\* the child for a name: the first whose greatest name is not less, else the last
Child(x, k) ==
    LET c == {i \in 1..Len(x.kids) : ~Less(x.kids[i].lim[2], k)} IN
    IF c = {} THEN Len(x.kids) ELSE CHOOSE i \in c : \A j \in c : i <= j
RECURSIVE Ins(_, _, _)
Ins(x, k, v) ==
    IF x.k = "n" THEN LET y == Leaf(PutLeaf(x.names, k, v), <<>>) IN Split([y EXCEPT !.lim = Limits(y)])
    ELSE LET i == Child(x, k)
             inside == ~Less(k, x.kids[i].lim[1]) /\ ~Less(x.kids[i].lim[2], k)
             new == Ins(x.kids[i], k, v)
             ks == SubSeq(x.kids, 1, i - 1) \o new \o SubSeq(x.kids, i + 1, Len(x.kids))
             y == Inner(ks, x.lim)
         IN Split(IF inside THEN y ELSE [y EXCEPT !.lim = Limits(y)])
\* the root has no limits and stays the root
InsRoot(x, k, v) ==
    IF x.k = "" THEN Inner(<<Leaf(<<<<k, v>>>>, <<k, k>>)>>, <<>>)
    ELSE LET new == Ins(x, k, v) IN IF Len(new) = 1 THEN [new[1] EXCEPT !.lim = <<>>] ELSE Inner(new, <<>>)
\* looking up by limits
RECURSIVE Find(_, _, _)
Find(x, k, root) ==
    IF ~root /\ (Less(k, x.lim[1]) \/ Less(x.lim[2], k)) THEN <<>>
    ELSE IF x.k = "" THEN <<>>
    ELSE IF x.k = "n" THEN (IF \E i \in 1..Len(x.names) : x.names[i][1] = k THEN <<x.names[CHOOSE i \in 1..Len(x.names) : x.names[i][1] = k][2]>> ELSE <<>>)
    ELSE LET fs == {i \in 1..Len(x.kids) : Find(x.kids[i], k, FALSE) # <<>>}
         IN IF fs = {} THEN <<>> ELSE Find(x.kids[CHOOSE i \in fs : TRUE], k, FALSE)
\* the nodes in a list
RECURSIVE Flat(_, _)
Flat(x, base) ==
    LET RECURSIVE Go(_, _, _)
        Go(i, at, acc) ==
            IF i > Len(x.kids) THEN acc
            ELSE LET f == Flat(x.kids[i], at) IN Go(i + 1, at + Len(f), [idx |-> Append(acc.idx, at + 1), out |-> acc.out \o f])
        r == Go(1, base + 1, [idx |-> <<>>, out |-> <<>>])
    IN <<[k |-> x.k, kids |-> r.idx, names |-> x.names, lim |-> x.lim]>> \o r.out
Nothing == [k |-> "", kids |-> <<>>, names |-> <<>>, lim |-> <<>>]
\* of other programs: names in the root
Flatroot == Leaf(<<<<<<97>>, 9>>, <<<<98>>, 9>>>>, <<>>)
Init == \/ tree = Nothing /\ map = [k \in {} |-> 0] /\ ops = 0
        \/ tree = Flatroot /\ map = [k \in {<<97>>, <<98>>} |-> 9] /\ ops = 0
Add == /\ ops < MaxOps /\ ops' = ops + 1
       /\ \E k \in KeySet : tree' = InsRoot(tree, k, ops) /\ map' = Put(map, <<k>>, <<ops>>)
Next == Add
Spec == Init /\ [][Next]_vars
Nodes == Flat(tree, 0)
Valid == WellFormed(Nodes) /\ Holds(Nodes, map)
Found == \A k \in KeySet : Find(tree, k, TRUE) = Get(map, k)
View == <<[i \in 1..Len(Nodes) |-> [Nodes[i] EXCEPT !.names = [j \in 1..Len(Nodes[i].names) |-> Nodes[i].names[j][1]]]], ops>>
=============================================================================
