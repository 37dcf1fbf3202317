------------------------------ MODULE FormsTrace ------------------------------
EXTENDS TraceBase, Forms
VARIABLE st
TraceInit == TBInit /\ st = Empty

AsSeen(x) == [x EXCEPT !.bits = Range(x.bits), !.on = Range(x.on), !.aa = Range(x.aa)]
RECURSIVE Flat(_, _)
Flat(d, ns) == IF ns = <<>> THEN <<>> ELSE IF ns[1] = 0 THEN Flat(d, Tail(ns)) ELSE <<ns[1]>> \o Flat(d, d[ns[1]].kids) \o Flat(d, Tail(ns))
\* everything the library shows of the form is what the state says
Shown(s, o) ==
    /\ o.roots = s.roots
    /\ LET f == Flat(s.d, s.roots) IN Len(o.fields) = Len(f) /\ \A i \in 1..Len(f) : AsSeen(o.fields[i]) = Seen(s.d, f[i])
    /\ \A p \in 1..2 : Len(o.widgets[p]) = Len(s.annots[p]) /\ \A i \in 1..Len(s.annots[p]) : AsSeen(o.widgets[p][i]) = Seen(s.d, s.annots[p][i])
    /\ o.need = s.need
    /\ o.sig = s.sig
InTree(s, n) == n \in Range(Flat(s.d, s.roots))
OnPage(s, n) == \E p \in 1..2 : n \in Range(s.annots[p])
Target(s, e) == IF e.via = 1 THEN OnPage(s, e.out.n) ELSE InTree(s, e.out.n)

\* the form of a file: nodes refer to each other by position
Built(ns, rs, ids) ==
    LET at(n) == CHOOSE i \in 1..Len(ids) : ids[i] = n
        kids(i) == SelectSeq([j \in 1..Len(ns) |-> j], LAMBDA j : ns[j].p = i)
        node(x, i) == [Blank EXCEPT !.parent = IF x.p = 0 THEN 0 ELSE ids[x.p], !.haskids = kids(i) # <<>>, !.kids = [k \in 1..Len(kids(i)) |-> ids[kids(i)[k]]],
                                    !.ft = x.ft, !.hasff = (x.hasff = 1), !.ff = Range(x.ff), !.t = x.t, !.tu = x.tu, !.tm = x.tm,
                                    !.v = IF x.v = None THEN NoV ELSE [k |-> "str", v |-> x.v], !.rv = x.rv, !.maxlen = x.maxlen, !.hasopt = (x.hasopt = 1), !.opt = x.opt]
        onpage(p) == SelectSeq([j \in 1..Len(ns) |-> j], LAMBDA j : ns[j].page = p)
    IN Reopened([Empty EXCEPT !.d = [n \in Range(ids) |-> node(ns[at(n)], at(n))],
                              !.roots = [i \in 1..Len(rs) |-> IF rs[i] = 0 THEN 0 ELSE ids[rs[i]]],
                              !.annots = [p \in 1..2 |-> [i \in 1..Len(onpage(p)) |-> ids[onpage(p)[i]]]]])

\* one operation: whether it fails, and the state after it
Does(e) ==
    LET o == e.out
        n == o.n
        ok(fails, new) == IF o.err # "" THEN fails /\ st' = st ELSE ~fails /\ st' = new
        new(k) == Len(o.ids) = k /\ Fresh(st, o.ids)
    IN CASE e.op = "start" -> o.err = "" /\ st' = Empty
         [] e.op = "build" -> o.err = "" /\ st' = Built(e.nodes, e.roots, o.ids)
         [] e.op = "form" -> IF o.err # "" THEN HasDot(e.name) /\ st' = st ELSE ~HasDot(e.name) /\ new(1) /\ st' = FormField(st, e.name, e.type, o.ids[1])
         [] e.op = "page" -> IF o.err # "" THEN PageFieldFails(st, e.name, e.type) /\ st' = st
                             ELSE ~PageFieldFails(st, e.name, e.type) /\ new(PageFieldNew(st, e.name)) /\ st' = PageField(st, e.page + 1, e.name, e.type, o.ids)
         [] e.op = "removeat" -> ok(e.i >= Len(st.roots), RemoveAt(st, e.i + 1))
         [] e.op = "need" -> ok(FALSE, [st EXCEPT !.need = (e.b = 1)])
         [] e.op = "reload" -> ok(FALSE, Reopened(st))
         [] o.skip = 1 -> o.err = "" /\ st' = st
         [] OTHER ->
            /\ Target(st, e)
            /\ CASE e.op = "child" -> o.err = "" /\ new(1) /\ st' = Child(st, n, o.ids[1])
                 [] e.op = "childw" -> o.err = "" /\ new(1) /\ st' = ChildWidget(st, n, e.page + 1, o.ids[1])
                 [] e.op = "flag" -> ok(FALSE, SetFlag(st, n, e.f, e.b = 1))
                 [] e.op = "name" -> ok(HasDot(e.v), [st EXCEPT !.d[n].t = e.v])
                 [] e.op = "rawname" -> ok(FALSE, [st EXCEPT !.d[n].t = e.v])
                 [] e.op = "alt" -> ok(FALSE, [st EXCEPT !.d[n].tu = e.v])
                 [] e.op = "map" -> ok(FALSE, [st EXCEPT !.d[n].tm = e.v])
                 [] e.op = "text" -> ok(SetTextFails(st.d, n, e.v), SetText(st, n, e.v))
                 [] e.op = "maxlen" -> ok(FALSE, [st EXCEPT !.d[n].maxlen = e.v])
                 [] e.op = "insert" -> ok(FALSE, InsertItem(st, n, e.v, e.disp))
                 [] e.op = "remove" -> ok(RemoveItemFails(st.d, n, e.i), RemoveItem(st, n, e.i))
                 [] e.op = "select" -> ok(SelectFails(st.d, n, e.i), Select(st, n, e.i))
                 [] e.op = "check" -> ok(FALSE, Check(st, n, e.b = 1))
                 [] e.op = "mode" -> ok(FALSE, [st EXCEPT !.d[n].h = e.v])
                 [] e.op = "action" -> o.err = "" /\ Len(o.ids) = 1 /\ o.ids[1] \notin DOMAIN st.d /\ st' = AddAction(st, n, e.key, o.ids[1])
                 [] e.op = "caption" ->
                    ok(~o.bound, CASE e.key = "CA" -> [st EXCEPT !.d[n].ca = e.v] [] e.key = "RC" -> [st EXCEPT !.d[n].rc = e.v] [] OTHER -> [st EXCEPT !.d[n].ac = e.v])
                 [] e.op = "removeref" -> ok(FALSE, RemoveRef(st, n))
                 [] e.op = "removekid" -> ok(FALSE, RemoveKidAt(st, n, o.i + 1))
                 [] OTHER -> FALSE

\* the conjunction is evaluated lazily: the state first
TraceNext == IsEv /\ Advance /\ Does(Ev) /\ Ev.out.oerr = "" /\ ("obs" \in DOMAIN Ev.out => Shown(st', Ev.out.obs))
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
