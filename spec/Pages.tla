-------------------------------- MODULE Pages --------------------------------
(* Documents as users see them: a sequence of pages with effective attributes  *)
(* and an outline.  The raw page tree and the raw outline links observed in a  *)
(* view have to represent exactly that (refinement mapping below).             *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES docs        \* name -> [pg: sequence of pages, ol: set of admissible outlines]
pvars == <<docs>>

EmptyDocs == [x \in {} |-> 0]
RangeOf(s) == {s[i] : i \in 1..Len(s)}
InsertAt(s, k, x) == SubSeq(s, 1, k) \o x \o SubSeq(s, k + 1, Len(s))   \* after the first k elements
RemoveAtIx(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Min(a, b) == IF a < b THEN a ELSE b
Abs(a) == IF a < 0 THEN -a ELSE a

----------------------------------------------------------------------------
(* The raw page tree *)
RECURSIVE Leaves(_, _, _)
RECURSIVE LeavesOf(_, _, _)
LeavesOf(tr, ks, fuel) == IF ks = <<>> THEN <<>> ELSE Leaves(tr, Head(ks), fuel) \o LeavesOf(tr, Tail(ks), fuel)
Leaves(tr, n, fuel) ==
    IF n \notin DOMAIN tr \/ fuel = 0 THEN <<"broken">>
    ELSE IF tr[n].k = "page" THEN <<n>>
    ELSE LeavesOf(tr, tr[n].kids, fuel - 1)

RECURSIVE Eff(_, _, _, _)
Eff(tr, n, a, fuel) ==
    IF n \notin DOMAIN tr \/ fuel = 0 THEN <<>>
    ELSE IF a \in DOMAIN tr[n].at THEN <<tr[n].at[a]>>
    ELSE Eff(tr, tr[n].parent, a, fuel - 1)
Own(tr, n, a) == IF a \in DOMAIN tr[n].at THEN <<tr[n].at[a]>> ELSE <<>>
Norm(q) == <<Min(q[1], q[3]), Min(q[2], q[4]), Abs(q[3] - q[1]), Abs(q[4] - q[2])>>
MediaOf(tr, n) == LET m == Eff(tr, n, "M", 40) IN IF m = <<>> THEN <<0, 0, 0, 0>> ELSE Norm(m[1])
CropOf(tr, n) == LET m == Eff(tr, n, "C", 40) IN IF m = <<>> THEN MediaOf(tr, n) ELSE Norm(m[1])
OwnBox(tr, n, a) == LET m == Own(tr, n, a) IN IF m = <<>> THEN CropOf(tr, n) ELSE Norm(m[1])
RotOf(tr, n) == LET m == Eff(tr, n, "R", 40) IN IF m = <<>> THEN 0 ELSE m[1] % 360
ResOf(tr, n) == LET m == Eff(tr, n, "res", 40) IN IF m = <<>> THEN "<>" ELSE m[1]

TreeOk(v) ==
    LET ls == Leaves(v.tree, v.root, 30)
    IN /\ ls = [i \in 1..Len(v.pages) |-> v.pages[i].ref]
       /\ Cardinality(RangeOf(ls)) = Len(ls)
       /\ v.count = Len(ls)
       /\ \A n \in DOMAIN v.tree : v.tree[n].k = "node" =>
             /\ v.tree[n].count = Len(Leaves(v.tree, n, 30))
             /\ \A i \in 1..Len(v.tree[n].kids) :
                   /\ v.tree[n].kids[i] \in DOMAIN v.tree
                   /\ v.tree[v.tree[n].kids[i]].parent = n

\* what the accessors of each page answer is what the tree says
PageOk(v, i) ==
    LET p == v.pages[i] n == p.ref tr == v.tree
    IN /\ p.idx = i - 1 /\ p.num = i /\ p.same
       /\ p.M = MediaOf(tr, n) /\ p.C = CropOf(tr, n)
       /\ p.T = OwnBox(tr, n, "T") /\ p.B = OwnBox(tr, n, "B") /\ p.A = OwnBox(tr, n, "A")
       /\ p.R = RotOf(tr, n) /\ p.teta = p.R
       /\ p.res = ResOf(tr, n) \/ (p.fresh /\ p.res = "<>")   \* a page just created has no resources of its own yet

(* The raw outline *)
RECURSIVE Chain(_, _, _)
Chain(raw, n, fuel) ==
    IF n = "none" THEN <<>>
    ELSE IF n \notin DOMAIN raw \/ fuel = 0 THEN <<"broken">>
    ELSE <<n>> \o Chain(raw, raw[n].Next, fuel - 1)
RECURSIVE Pre(_, _, _)
RECURSIVE PreAll(_, _, _)
PreAll(raw, ns, d) == IF ns = <<>> THEN <<>> ELSE
    (IF Head(ns) \in DOMAIN raw THEN <<<<d, raw[Head(ns)].t>>>> \o Pre(raw, Head(ns), d + 1) ELSE <<<<d, "?">>>>) \o PreAll(raw, Tail(ns), d)
Pre(raw, n, d) == IF d > 30 THEN <<<<d, "??">>>> ELSE PreAll(raw, Chain(raw, raw[n].First, 60), d)

RECURSIVE LinksOk(_, _)
LinksOk(raw, n) ==
    LET ks == Chain(raw, raw[n].First, 60)
    IN /\ \A i \in 1..Len(ks) :
            /\ ks[i] \in DOMAIN raw
            /\ raw[ks[i]].Parent = n
            /\ raw[ks[i]].Prev = IF i = 1 THEN "none" ELSE ks[i - 1]
       /\ raw[n].Last = IF ks = <<>> THEN "none" ELSE ks[Len(ks)]
       /\ \A i \in 1..Len(ks) : LinksOk(raw, ks[i])
OutlineOk(v) ==
    /\ \A i \in 1..Len(v.walk) : v.walk[i].d > 0 /\ v.walk[i].ok
    /\ IF v.oroot = "none" THEN v.walk = <<>>
       ELSE /\ v.oroot \in DOMAIN v.raw
            /\ Pre(v.raw, v.oroot, 1) = [i \in 1..Len(v.walk) |-> <<v.walk[i].d, v.walk[i].t>>]
            /\ LinksOk(v.raw, v.oroot)

----------------------------------------------------------------------------
(* Abstract pages: every attribute is the set of values it may have; the      *)
(* empty set stands for 'not known yet'.                                       *)
Keys == {"m", "sig", "M", "C", "T", "B", "A", "R", "res"}
Known(p) == [k \in Keys |-> IF k = "res" /\ p.fresh THEN {} ELSE {p[k]}]
Fits(a, p) == \A k \in Keys : a[k] = {} \/ p[k] \in a[k]
Unknown == [k \in Keys |-> {}]
Item(w) == [d |-> w.d, t |-> w.t, p |-> w.p, f |-> w.f, c |-> w.c]
OutlineOf(v) == [i \in 1..Len(v.walk) |-> Item(v.walk[i])]
DocOf(v) == [pg |-> [i \in 1..Len(v.pages) |-> Known(v.pages[i])], ol |-> {OutlineOf(v)}]

ViewOk(v) == TreeOk(v) /\ (\A i \in 1..Len(v.pages) : PageOk(v, i)) /\ OutlineOk(v)

\* the nested description a document was built from, flattened
RECURSIVE MarksOf(_)
RECURSIVE MarksOfAll(_)
MarksOfAll(ks) == IF ks = <<>> THEN <<>> ELSE MarksOf(Head(ks)) \o MarksOfAll(Tail(ks))
MarksOf(n) == IF "kids" \in DOMAIN n THEN MarksOfAll(n.kids) ELSE IF "m" \in DOMAIN n THEN <<n.m>> ELSE <<>>

Build(e, v) ==
    /\ ViewOk(v)
    /\ [i \in 1..Len(v.pages) |-> v.pages[i].m] = MarksOf(e.tree)
    /\ docs' = (e.doc :> DocOf(v)) @@ docs
View(e, v) ==
    LET d == docs[e.doc]
    IN /\ ViewOk(v)
       /\ Len(v.pages) = Len(d.pg)
       /\ \A i \in 1..Len(d.pg) : Fits(d.pg[i], v.pages[i])
       /\ OutlineOf(v) \in d.ol
       /\ docs' = [docs EXCEPT ![e.doc] = DocOf(v)]

SetPg(d, s) == docs' = [docs EXCEPT ![d].pg = s]
Pg(e) == docs[e.doc].pg
SetOl(d, S) == docs' = [docs EXCEPT ![d].ol = S]

Create(e, out) ==
    LET n == Len(Pg(e))
        k == IF "at" \in DOMAIN e THEN Min(e.at, n) ELSE n
    IN /\ out.idx = k
       /\ SetPg(e.doc, InsertAt(Pg(e), k, <<[Unknown EXCEPT !.m = {e.m}, !.sig = {out.sig}, !.M = {e.M}]>>))
Remove(e) == e.i < Len(Pg(e)) /\ SetPg(e.doc, RemoveAtIx(Pg(e), e.i + 1))
Move(e) ==
    /\ e.i < Len(Pg(e))
    /\ LET x == Pg(e)[e.i + 1] r == RemoveAtIx(Pg(e), e.i + 1)
       IN SetPg(e.doc, InsertAt(r, Min(e.j, Len(r)), <<x>>))
Import(e, k, ps, ols) ==
    docs' = [docs EXCEPT ![e.doc] = [pg |-> InsertAt(Pg(e), k, ps), ol |-> ols]]
Joined(e) == {a \o b : a \in docs[e.doc].ol, b \in docs[e.src].ol}
AppendAll(e) == Import(e, Len(Pg(e)), docs[e.src].pg, Joined(e))
AppendRange(e) ==
    /\ e.from + e.n <= Len(docs[e.src].pg)
    /\ Import(e, Len(Pg(e)), SubSeq(docs[e.src].pg, e.from + 1, e.from + e.n), Joined(e))
InsertFrom(e) ==
    /\ e.i < Len(docs[e.src].pg)
    /\ Import(e, Min(e.at, Len(Pg(e))), <<docs[e.src].pg[e.i + 1]>>, Joined(e) \cup docs[e.doc].ol)

WidthOf(q, w) == <<q[1], q[2], w, q[4]>>
HeightOf(q, h) == <<q[1], q[2], q[3], h>>
Attr(e) ==
    LET p == Pg(e)[e.i + 1]
        Chg(q) == SetPg(e.doc, [Pg(e) EXCEPT ![e.i + 1] = q])
        Dep(old, new) == IF old = {} THEN {} ELSE old \cup new   \* follows the crop box, unless explicit
    IN /\ e.i < Len(Pg(e))
       /\ CASE e.k = "R" -> Chg([p EXCEPT !.R = {e.v}])
            [] e.k = "T" -> Chg([p EXCEPT !.T = {e.v}])
            [] e.k = "M" -> LET c == Dep(p.C, {e.v})
                            IN Chg([p EXCEPT !.M = {e.v}, !.C = c, !.T = Dep(@, c), !.B = Dep(@, c), !.A = Dep(@, c)])
            [] e.k = "W" -> LET c == {WidthOf(q, e.v * 100) : q \in p.C}
                            IN Chg([p EXCEPT !.M = {WidthOf(q, e.v * 100) : q \in @}, !.C = c, !.T = Dep(@, c), !.B = Dep(@, c), !.A = Dep(@, c)])
            [] e.k = "H" -> LET c == {HeightOf(q, e.v * 100) : q \in p.C}
                            IN Chg([p EXCEPT !.M = {HeightOf(q, e.v * 100) : q \in @}, !.C = c, !.T = Dep(@, c), !.B = Dep(@, c), !.A = Dep(@, c)])

Handle(e, out) == out.idx = -1 \/
    (\E i \in 1..Len(Pg(e)) : Pg(e)[i].m = {e.m} /\ out.idx = i - 1 /\ out.num = i)
Get(e, out) == e.i < Len(Pg(e)) /\ out.idx = e.i /\ (Pg(e)[e.i + 1].m = {} \/ out.m \in Pg(e)[e.i + 1].m)

(* Outline operations on a preorder list with depths *)
Find(o, t) == IF \E i \in 1..Len(o) : o[i].t = t THEN CHOOSE i \in 1..Len(o) : o[i].t = t /\ \A j \in 1..(i - 1) : o[j].t # t ELSE 0
RECURSIVE SubEnd(_, _, _)
SubEnd(o, i, j) == IF j < Len(o) /\ o[j + 1].d > o[i].d THEN SubEnd(o, i, j + 1) ELSE j
NewItem(d, t, p) == [d |-> d, t |-> t, p |-> p, f |-> 0, c |-> <<0, 0, 0>>]
MarkAt(e, k) == CHOOSE m \in Pg(e)[k + 1].m : TRUE
OChild(o, e, p) ==
    IF e.at = "" THEN Append(o, NewItem(1, e.t, p))
    ELSE LET i == Find(o, e.at) IN InsertAt(o, SubEnd(o, i, i), <<NewItem(o[i].d + 1, e.t, p)>>)
ONext(o, e, p) == LET i == Find(o, e.at) IN InsertAt(o, SubEnd(o, i, i), <<NewItem(o[i].d, e.t, p)>>)
OErase(o, e) == LET i == Find(o, e.at) IN SubSeq(o, 1, i - 1) \o SubSeq(o, SubEnd(o, i, i) + 1, Len(o))
OSet(o, e) == LET i == Find(o, e.at) IN [o EXCEPT ![i] = [@ EXCEPT !.t = e.t, !.f = e.f, !.c = e.c]]
Has(e) == \A o \in docs[e.doc].ol : e.at = "" \/ Find(o, e.at) # 0

Do(e, out) ==
    CASE e.op = "build" -> Build(e, out)
      [] e.op = "view" -> View(e, out)
      [] e.op = "reload" \/ e.op = "gc" -> UNCHANGED docs
      [] e.op = "create" -> Create(e, out)
      [] e.op = "remove" -> Remove(e)
      [] e.op = "move" -> Move(e)
      [] e.op = "append" -> AppendAll(e)
      [] e.op = "range" -> AppendRange(e)
      [] e.op = "insert" -> InsertFrom(e)
      [] e.op = "handle" -> Handle(e, out) /\ UNCHANGED docs
      [] e.op = "get" -> Get(e, out) /\ UNCHANGED docs
      [] e.op = "attr" -> Attr(e)
      [] e.op = "content" -> e.i < Len(Pg(e)) /\ SetPg(e.doc, [Pg(e) EXCEPT ![e.i + 1].sig = {out}])
      [] e.op = "oroot" -> SetOl(e.doc, {Append(o, NewItem(1, e.t, "none")) : o \in docs[e.doc].ol})
      [] e.op = "ochild" -> Has(e) /\ SetOl(e.doc, {OChild(o, e, MarkAt(e, e.page)) : o \in docs[e.doc].ol})
      [] e.op = "onext" -> Has(e) /\ SetOl(e.doc, {ONext(o, e, MarkAt(e, e.page)) : o \in docs[e.doc].ol})
      [] e.op = "oerase" -> Has(e) /\ SetOl(e.doc, {OErase(o, e) : o \in docs[e.doc].ol})
      [] e.op = "oset" -> Has(e) /\ SetOl(e.doc, {OSet(o, e) : o \in docs[e.doc].ol})

(* Calls that have to fail, leaving everything as it was *)
MustFail(e) ==
    CASE e.op \in {"remove", "get", "move", "attr", "content"} ->
            e.i >= Len(Pg(e)) \/ (e.op = "attr" /\ e.k = "R" /\ e.v \notin {0, 90, 180, 270})
      [] e.op = "range" -> e.from + e.n > Len(docs[e.src].pg)
      [] e.op \in {"ochild", "onext"} -> ~Has(e) \/ e.page >= Len(Pg(e))
      [] e.op \in {"oerase", "oset"} -> ~Has(e)
      [] OTHER -> FALSE
Init == docs = EmptyDocs
=============================================================================
