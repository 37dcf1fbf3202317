------------------------------ MODULE PagesModel ------------------------------
(* Design of the page tree: pages live in a tree of nodes with counts, parent   *)
(* links and inheritable attributes; inserting goes next to the page found at   *)
(* the index, removing prunes empty nodes, moving and importing make inherited  *)
(* attributes explicit.  Refines the abstract sequence of pages `ab`.           *)
EXTENDS Pages, Json, Randomization
CONSTANTS Depth, MaxNew, Emit, Wide

VARIABLES tr, ab, k, h, n
mvars == <<docs, tr, ab, k, h, n>>

Root == "n1"
NoAt == [x \in {} |-> 0]
RotAt(r) == IF r = -1 THEN NoAt ELSE [R |-> r]
Node(par, kids, cnt, r) == [k |-> "node", parent |-> par, kids |-> kids, count |-> cnt, at |-> RotAt(r)]
PageN(par, r) == [k |-> "page", parent |-> par, kids |-> <<>>, count |-> 0, at |-> RotAt(r)]

R1 == {-1, 90}
T0(a) == "n1" :> Node("none", <<>>, 0, a)
T1(a, b) == "n1" :> Node("none", <<"p1", "p2">>, 2, a) @@ "p1" :> PageN("n1", b) @@ "p2" :> PageN("n1", -1)
T2(a, b, c) == "n1" :> Node("none", <<"n2", "p1">>, 2, a) @@ "n2" :> Node("n1", <<"p2">>, 1, b) @@ "p1" :> PageN("n1", c) @@ "p2" :> PageN("n2", -1)
T3(a, b, c) == "n1" :> Node("none", <<"n2">>, 3, a) @@ "n2" :> Node("n1", <<"p1", "n3">>, 3, b)
               @@ "n3" :> Node("n2", <<"p2", "p3">>, 2, c) @@ "p1" :> PageN("n2", -1) @@ "p2" :> PageN("n3", 180) @@ "p3" :> PageN("n3", -1)
T4(a, b) == "n1" :> Node("none", <<"n2", "n3">>, 1, -1) @@ "n2" :> Node("n1", <<>>, 0, a)
               @@ "n3" :> Node("n1", <<"p1">>, 1, b) @@ "p1" :> PageN("n3", -1)
Trees == {T0(a) : a \in R1} \cup {T1(a, b) : a, b \in R1} \cup {T2(a, b, c) : a, b, c \in R1}
         \cup {T3(a, b, c) : a, b, c \in R1} \cup {T4(a, b) : a, b \in R1}

EffR(t, x) == LET e == Eff(t, x, "R", 10) IN IF e = <<>> THEN 0 ELSE e[1]
Seqs(t) == LET ls == Leaves(t, Root, 10) IN [i \in 1..Len(ls) |-> [id |-> ls[i], R |-> EffR(t, ls[i])]]

RECURSIVE Anc(_, _)
Anc(t, x) == IF x = "none" THEN {} ELSE {x} \cup Anc(t, t[x].parent)
Bump(t, S, d) == [x \in DOMAIN t |-> IF x \in S THEN [t[x] EXCEPT !.count = @ + d] ELSE t[x]]
PosIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)

\* put page x (attributes r) so that it becomes the i-th page (0-based)
Put(t, i, x, r) ==
    LET ls == Leaves(t, Root, 10)
        after == i >= Len(ls)
        pivot == IF ls = <<>> THEN "none" ELSE IF after THEN ls[Len(ls)] ELSE ls[i + 1]
        par == IF pivot = "none" THEN Root ELSE t[pivot].parent
        pos == IF pivot = "none" THEN 0 ELSE PosIn(t[par].kids, pivot) - (IF after THEN 0 ELSE 1)
        t1 == (x :> PageN(par, r)) @@ [t EXCEPT ![par].kids = InsertAt(@, pos, <<x>>)]
    IN Bump(t1, Anc(t, par), 1)
RECURSIVE Prune(_, _)
Prune(t, x) ==
    IF x = Root THEN t
    ELSE LET par == t[x].parent
         IN IF t[x].count = 0 \/ t[x].kids = <<>>
            THEN LET t1 == [t EXCEPT ![par].kids = Without(@, x)]
                 IN Prune([y \in DOMAIN t1 \ {x} |-> t1[y]], par)
            ELSE Prune(t, par)
Take(t, x) ==
    LET par == t[x].parent
        t1 == [t EXCEPT ![par].kids = Without(@, x)]
        t2 == Bump(t1, Anc(t, par), -1)
    IN Prune([y \in DOMAIN t2 \ {x} |-> t2[y]], par)

Log(e) == h' = IF Emit THEN Append(h, e) ELSE h
MInit ==
    /\ docs = EmptyDocs /\ tr \in Trees /\ ab = Seqs(tr) /\ k = 0 /\ n = 0 /\ h = <<>>

Start(t) == <<[op |-> "none"]>>
DoCreate(i) ==
    LET x == "c" \o ToString(k + 1)
    IN /\ k < MaxNew /\ k' = k + 1
       /\ tr' = Put(tr, i, x, -1)
       /\ ab' = InsertAt(ab, Min(i, Len(ab)), <<[id |-> x, R |-> EffR(Put(tr, i, x, -1), x)]>>)
       /\ Log([op |-> "create", doc |-> "A", m |-> x, at |-> i, M |-> <<0, 0, 20000, 30000>>])
\* a page of another document with effective rotation r: explicit when inherited there, and never inherited here
DoImport(i, r) ==
    LET x == "s" \o ToString(k + 1)
        t1 == Put(tr, i, x, r)
        t2 == IF r = -1 /\ Eff(t1, x, "R", 10) # <<>> THEN Put(tr, i, x, 0) ELSE t1
    IN /\ k < MaxNew /\ k' = k + 1
       /\ tr' = t2
       /\ ab' = InsertAt(ab, Min(i, Len(ab)), <<[id |-> x, R |-> IF r = -1 THEN 0 ELSE r]>>)
       /\ Log([op |-> "insert", doc |-> "A", src |-> "S", at |-> i, i |-> IF r = -1 THEN 0 ELSE 1])
DoRemove(i) ==
    /\ i < Len(ab)
    /\ tr' = Take(tr, ab[i + 1].id) /\ ab' = RemoveAtIx(ab, i + 1) /\ UNCHANGED k
    /\ Log([op |-> "remove", doc |-> "A", i |-> i])
DoMove(i, j) ==
    /\ i < Len(ab)
    /\ LET x == ab[i + 1]
           e == Eff(tr, x.id, "R", 10)
           r == IF e = <<>> THEN -1 ELSE e[1]
           rest == RemoveAtIx(ab, i + 1)
           t1 == Take(tr, x.id)
           jj == Min(j, Len(rest))
           t2 == Put(t1, jj, x.id, r)
           t3 == IF r = -1 /\ Eff(t2, x.id, "R", 10) # <<>> THEN Put(t1, jj, x.id, 0) ELSE t2
       IN /\ tr' = IF i = jj THEN tr ELSE t3
          /\ ab' = InsertAt(rest, jj, <<x>>)
    /\ UNCHANGED k
    /\ Log([op |-> "move", doc |-> "A", i |-> i, j |-> j])
DoRotate(i, r) ==
    /\ i < Len(ab)
    /\ tr' = [tr EXCEPT ![ab[i + 1].id].at = [R |-> r]]
    /\ ab' = [ab EXCEPT ![i + 1].R = r]
    /\ UNCHANGED k /\ Log([op |-> "attr", doc |-> "A", i |-> i, k |-> "R", v |-> r])
Look == Emit /\ UNCHANGED <<tr, ab, k>> /\ \E z \in 0..1 : Log([op |-> "view", doc |-> "A", lazy |-> z])
Reload == Emit /\ UNCHANGED <<tr, ab, k>> /\ \E z \in {"full", "update"} : Log([op |-> "reload", doc |-> "A", how |-> z, opts |-> ""])

Ops == {"create", "import", "remove", "move", "rotate", "look", "reload"}
Kinds == IF Emit THEN RandomSubset(3, Ops) ELSE Ops
Edit ==
    LET K == Kinds IN
    \/ "create" \in K /\ \E i \in 0..Len(ab) : DoCreate(i)
    \/ "import" \in K /\ \E i \in 0..Len(ab), r \in R1 : DoImport(i, r)
    \/ "remove" \in K /\ \E i \in 0..(Len(ab) - 1) : DoRemove(i)
    \/ "move" \in K /\ \E i \in 0..(Len(ab) - 1), j \in 0..Len(ab) : DoMove(i, j)
    \/ "rotate" \in K /\ \E i \in 0..(Len(ab) - 1), r \in {0, 270} : DoRotate(i, r)
    \/ "look" \in K /\ Look
    \/ "reload" \in K /\ Reload
RECURSIVE Nest(_, _)
Nest(t, x) ==
    LET r == IF DOMAIN t[x].at = {} THEN NoAt ELSE t[x].at
    IN IF t[x].k = "page" THEN [m |-> x] @@ r
       ELSE [kids |-> [i \in 1..Len(t[x].kids) |-> Nest(t, t[x].kids[i])]] @@ r
            @@ (IF x = Root THEN [M |-> <<0, 0, 20000, 30000>>] ELSE NoAt)
Src == [kids |-> <<[m |-> "s0"], [kids |-> <<[m |-> "s90"]>>, R |-> 90]>>, M |-> <<0, 0, 10000, 10000>>]
\* the first step of a behaviour to be executed records how the documents are built
Prologue == h' = <<[op |-> "build", doc |-> "A", tree |-> Nest(tr, Root), reload |-> RandomElement(0..1)],
                   [op |-> "build", doc |-> "S", tree |-> Src, reload |-> 1]>>
            /\ UNCHANGED <<tr, ab, k>>
Done == n = Depth /\ Emit /\ UNCHANGED <<tr, ab, k, h>>
MNext == /\ n' = n + 1 /\ UNCHANGED docs
         /\ \/ Done
            \/ n < Depth /\ (IF Emit /\ n = 0 THEN Prologue ELSE Edit)
MSpec == MInit /\ [][MNext]_mvars
View0 == <<tr, ab, k, n>>
EmitDone == IF n > Depth THEN PrintT("GEN " \o ToJson(h \o <<[op |-> "view", doc |-> "A"]>>)) ELSE TRUE

(* --- properties of the design ---------------------------------------------- *)
Refines == Seqs(tr) = ab
Counts == \A x \in DOMAIN tr : tr[x].k = "node" => tr[x].count = Len(Leaves(tr, x, 10))
Links == \A x \in DOMAIN tr : \A i \in 1..Len(tr[x].kids) : tr[x].kids[i] \in DOMAIN tr /\ tr[tr[x].kids[i]].parent = x
NoDup == Cardinality(RangeOf(Leaves(tr, Root, 10))) = Len(Leaves(tr, Root, 10))
=============================================================================
