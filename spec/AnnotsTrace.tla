------------------------------ MODULE AnnotsTrace ------------------------------
EXTENDS Annots, TraceBase
VARIABLES st
TraceInit == TBInit /\ st = Empty
Range(s) == {s[i] : i \in 1..Len(s)}
Started(o) == [Empty EXCEPT !.pages = [i \in 1..Len(o.pages) |-> <<>>], !.pn = o.pages]

\* ------------------------------------------------------------ annotations of other programs
LookFrom(x, mode, xs) ==
    LET ys == {i \in 1..Len(x.ap) : x.ap[i][1] = mode} IN
    IF ys = {} THEN NoLook
    ELSE IF \E i \in ys : x.ap[i][2] = "" THEN [k |-> "one", x |-> xs[x.ap[CHOOSE i \in ys : TRUE][3] + 1], m |-> {}]
    ELSE [k |-> "map", x |-> 0, m |-> {<<x.ap[i][2], xs[x.ap[i][3] + 1]>> : i \in ys}]
Foreign(x, n, xs, base) ==
    [New(n, x.type, x.rect) EXCEPT !.flags = x.flags, !.title = x.title, !.contents = x.contents, !.color = x.color, !.open = x.open, !.as = x.as,
         !.ap = [m \in Modes |-> LookFrom(x, m, xs)], !.par = IF x.par < 0 THEN 0 ELSE base + x.par + 1]
\* items that are no annotations have a place in the objects too, so that parents are found by their places
RECURSIVE Items(_, _, _, _, _, _, _)
Items(s, p, items, ns, xs, base, i) ==
    IF i > Len(items) THEN s
    ELSE LET x == items[i]
             s2 == IF x.k \in {"annot", "direct"} THEN Add(s, p, ns[i], Foreign(x, ns[i], xs, base))
                  ELSE [s EXCEPT !.objs = Append(@, New(0, "", <<0, 0, 0, 0>>)), !.pages[p] = Append(@, [n |-> ns[i], a |-> 0])]
         IN Items(s2, p, items, ns, xs, base, i + 1)
RECURSIVE Build(_, _, _)
Build(s, e, p) ==
    IF p > Len(e.pages) THEN s
    ELSE Build(IF e.pages[p].arr = "none" THEN s ELSE Items(s, p, e.pages[p].items, e.out.ns[p], e.out.xs, Len(s.objs), 1), e, p + 1)

\* ------------------------------------------------------------ what is shown
MKView(m) == IF ~m.has THEN <<>> ELSE <<[BC |-> Shade(m.BC), BG |-> Shade(m.BG), RC |-> m.RC, AC |-> m.AC, CA |-> m.CA]>>
MKRaw(m) == IF ~m.has THEN <<>> ELSE <<[BC |-> m.BC, BG |-> m.BG, RC |-> m.RC, AC |-> m.AC, CA |-> m.CA]>>
ShownOne(s, a, g, w) ==
    /\ g.n = a.n /\ g.type = a.type /\ w.type = a.type /\ g.page = 1
    /\ g.rect = a.rect /\ Norm(w.rect) = a.rect
    /\ g.flags = (IF a.flags < 0 THEN 0 ELSE a.flags) /\ w.flags = a.flags
    /\ g.title = Title(s, a) /\ w.title = a.title
    /\ g.contents = Contents(s, a) /\ w.contents = a.contents
    /\ g.color = Color(s, a) /\ w.color = a.color
    /\ w.border = a.border
    /\ g.quad = a.quad /\ w.quad = a.quad
    /\ g.open = (IF ~HasOpen(a.type) THEN -1 ELSE IF a.open < 0 THEN 0 ELSE a.open) /\ w.open = a.open
    /\ g.dest = (IF a.dest = NoDest THEN <<>> ELSE <<DestView(a.dest)>>) /\ (w.dest = 1 <=> a.dest # NoDest)
    /\ g.action = (IF a.action = NoAction THEN <<>> ELSE <<[n |-> a.action.n, type |-> a.action.t, s |-> a.action.t, uri |-> a.action.uri, js |-> a.action.js]>>)
    /\ (w.action = 1 <=> a.action # NoAction)
    /\ g.file = (IF ~a.file.has THEN <<>> ELSE <<[name |-> a.file.name, data |-> a.file.data, size |-> Len(a.file.data)]>>) /\ (w.file = 1 <=> a.file.has)
    /\ Range(g.ap) = Looks(a) /\ Len(g.ap) = Cardinality(Looks(a))
    /\ \A i \in 1..Len(g.ap1) : g.ap1[i][3] = LookOf(a, g.ap1[i][1], g.ap1[i][2])
    /\ g.as = a.as
    /\ g.mk = MKView(a.mk) /\ w.mk = MKRaw(a.mk)
Shown(s, o) ==
    /\ Len(o) = Len(s.pages)
    /\ \A p \in 1..Len(o) :
          /\ o[p].n = s.pn[p] /\ o[p].cnt = Len(s.pages[p]) /\ Len(o[p].as) = Len(s.pages[p])
          /\ \A i \in 1..Len(s.pages[p]) :
                LET x == o[p].as[i] IN
                IF s.pages[p][i].a = 0 THEN x.bad = 1
                ELSE x.bad = 0 /\ ShownOne(s, s.objs[s.pages[p][i].a], x.g, x.w)

\* ------------------------------------------------------------ setting
Attr(s, a, e) ==
    CASE e.attr = "rect" -> [a EXCEPT !.rect = e.v]
      [] e.attr = "flags" -> [a EXCEPT !.flags = e.v]
      [] e.attr = "title" -> [a EXCEPT !.title = e.v]
      [] e.attr = "contents" -> [a EXCEPT !.contents = e.v]
      [] e.attr = "color" -> [a EXCEPT !.color = e.v]
      [] e.attr = "border" -> [a EXCEPT !.border = IF Len(e.v) = 3 THEN e.v ELSE SubSeq(e.v, 1, 3) \o <<-7>> \o SubSeq(e.v, 4, Len(e.v))]
      [] e.attr = "quad" -> [a EXCEPT !.quad = e.v]
      [] e.attr = "open" -> [a EXCEPT !.open = e.v]
      [] e.attr = "dest" -> [a EXCEPT !.dest = [t |-> e.t, page |-> s.pn[e.to + 1], v |-> e.v]]
      [] e.attr = "action" -> [a EXCEPT !.action = [t |-> e.t, n |-> e.out.n, uri |-> e.uri, js |-> e.js]]
      [] e.attr = "file" -> [a EXCEPT !.file = [has |-> TRUE, name |-> e.name, data |-> e.data]]
      [] e.attr = "ap" -> Look(a, e.t, e.state, e.out.x)
      [] e.attr = "mk" -> [a EXCEPT !.mk = [(IF @.has THEN @ ELSE [NoMK EXCEPT !.has = TRUE]) EXCEPT ![e.key] = e.v]]
      [] OTHER -> a
Applies(a, e) ==
    CASE e.attr = "quad" -> HasQuad(a.type)
      [] e.attr = "open" -> HasOpen(a.type)
      [] e.attr = "dest" -> a.type = "Link" /\ a.action = NoAction
      [] e.attr = "destaction" -> a.type = "Link" /\ a.action # NoAction
      [] e.attr = "action" -> HasAction(a.type) /\ a.dest = NoDest
      [] e.attr = "file" -> a.type = "FileAttachment"
      [] e.attr = "mk" -> HasMK(a.type)
      [] OTHER -> TRUE
Setting(s, e) ==
    LET p == e.page + 1
        i == e.out.i
    IN IF i = 0 THEN e.out.err = "" /\ st' = s /\ \A j \in 1..Len(s.pages[p]) : s.pages[p][j].a # 0 => ~Applies(s.objs[s.pages[p][j].a], e)
       ELSE LET x == s.pages[p][i].a IN
            /\ x # 0 /\ Applies(s.objs[x], e)
            /\ IF e.attr = "destaction" THEN e.out.err # "" /\ st' = s
               ELSE e.out.err = "" /\ st' = [s EXCEPT !.objs[x] = Attr(s, @, e)]
Does(e) ==
    LET o == e.out IN
    CASE e.op = "start" -> o.err = "" /\ st' = Started(o)
      [] e.op = "build" -> o.err = "" /\ st' = Build(Started(o), e, 1)
      [] e.op = "create" -> o.err = "" /\ (\A p \in 1..Len(st.pages) : Places(st, p, o.n) = {}) /\ st' = Add(st, e.page + 1, o.n, New(o.n, e.type, e.rect))
      [] e.op = "set" -> Setting(st, e)
      [] e.op = "remove" -> IF e.i < Len(st.pages[e.page + 1]) THEN o.err = "" /\ st' = RemoveAt(st, e.page + 1, e.i + 1) ELSE o.err # "" /\ st' = st
      [] e.op = "removeref" ->
            /\ o.err = ""
            /\ LET is == Places(st, e.page + 1, o.n) IN IF is = {} THEN st' = st ELSE st' = RemoveAt(st, e.page + 1, CHOOSE i \in is : TRUE)
      [] e.op = "getref" ->
            /\ st' = st
            /\ IF \E i \in Places(st, e.page + 1, o.n) : st.pages[e.page + 1][i].a # 0 THEN o.err = "" /\ o.got = o.n
               ELSE o.err # "" /\ o.err # "std"
      [] e.op = "reload" -> o.err = "" /\ st' = st
      [] OTHER -> FALSE
TraceNext == IsEv /\ Advance /\ Does(Ev) /\ Ev.out.oerr = "" /\ ("obs" \in DOMAIN Ev.out => Shown(st', Ev.out.obs))
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
