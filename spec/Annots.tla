-------------------------------- MODULE Annots --------------------------------
(* Annotations of pages: every page has a sequence of entries, some of which     *)
(* may be no annotations; an annotation is a set of attributes.                  *)
(* Numbers are thousandths; None: absent; a popup shows the texts and the color  *)
(* of its parent where it has none.                                             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == <<-1>>
Modes == {"N", "R", "D"}
Kinds == {"Text", "Link", "FreeText", "Line", "Square", "Circle", "Polygon", "PolyLine", "Highlight", "Underline", "Squiggly", "StrikeOut", "Stamp", "Caret", "Ink", "Popup",
    "FileAttachment", "Sound", "Movie", "Widget", "Screen", "PrinterMark", "TrapNet", "Watermark", "3D", "RichMedia", "WebMedia", "Redact", "Projection"}
HasQuad(t) == t \in {"Link", "Highlight", "Underline", "Squiggly", "StrikeOut", "Redact"}
HasOpen(t) == t \in {"Text", "Popup"}
HasAction(t) == t \in {"Link", "Widget", "Screen"}
HasMK(t) == t \in {"Widget", "Screen"}
NoLook == [k |-> "none", x |-> 0, m |-> {}]
NoDest == [t |-> "", page |-> 0, v |-> <<>>]
NoAction == [t |-> "", n |-> 0, uri |-> None, js |-> None]
NoFile == [has |-> FALSE, name |-> None, data |-> None]
NoMK == [has |-> FALSE, BC |-> None, BG |-> None, RC |-> None, AC |-> None, CA |-> None]
\* a created annotation is printed
New(n, type, rect) ==
    [n |-> n, type |-> type, rect |-> rect, flags |-> 4, title |-> None, contents |-> None, color |-> None, border |-> None, quad |-> None, open |-> -1,
     dest |-> NoDest, action |-> NoAction, file |-> NoFile, ap |-> [m \in Modes |-> NoLook], as |-> "", mk |-> NoMK, par |-> 0]
Empty == [objs |-> <<>>, pages |-> <<>>, pn |-> <<>>]

RemoveIdx(s, i) == [j \in 1..Len(s) - 1 |-> IF j < i THEN s[j] ELSE s[j + 1]]
\* entries: the number of the object (0: not indirect) and the annotation (0: it is none)
Add(s, p, n, a) == [s EXCEPT !.objs = Append(@, a), !.pages[p] = Append(@, [n |-> n, a |-> Len(s.objs) + 1])]
RemoveAt(s, p, i) == [s EXCEPT !.pages[p] = RemoveIdx(@, i)]
Places(s, p, n) == {i \in 1..Len(s.pages[p]) : s.pages[p][i].n = n /\ n # 0}

\* the appearance of a mode becomes x; with a state: that of the state, and the states of a mode come in place of its single appearance
Look(a, mode, state, x) ==
    LET o == a.ap[mode]
        m == IF o.k = "map" THEN {y \in o.m : y[1] # state} ELSE {}
    IN IF state = "" THEN [a EXCEPT !.ap[mode] = [k |-> "one", x |-> x, m |-> {}]]
       ELSE [a EXCEPT !.ap[mode] = [k |-> "map", x |-> 0, m |-> m \cup {<<state, x>>}], !.as = IF @ = "" THEN state ELSE @]
Looks(a) ==
    {<<m, "", a.ap[m].x>> : m \in {y \in Modes : a.ap[y].k = "one"}}
    \cup UNION {{<<m, z[1], z[2]>> : z \in a.ap[m].m} : m \in {y \in Modes : a.ap[y].k = "map"}}
\* the appearance of a mode and state: -1: there is none; 0: there are states
LookOf(a, mode, state) ==
    LET o == a.ap[mode] IN
    IF state = "" THEN (IF o.k = "none" THEN -1 ELSE o.x)
    ELSE IF \E z \in o.m : z[1] = state THEN (CHOOSE z \in o.m : z[1] = state)[2] ELSE -1

\* what a popup lacks it takes from its parent
Title(s, a) == IF a.title = None /\ a.par # 0 THEN s.objs[a.par].title ELSE a.title
Contents(s, a) == IF a.contents = None /\ a.par # 0 THEN s.objs[a.par].contents ELSE a.contents
OwnColor(s, a) == IF a.color = None /\ a.par # 0 THEN s.objs[a.par].color ELSE a.color
Shade(c) == IF c = None THEN <<0>> ELSE c
Color(s, a) == Shade(OwnColor(s, a))
Corners(r) == <<r[1], r[2], r[1] + r[3], r[2] + r[4]>>
Min(x, y) == IF x < y THEN x ELSE y
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Norm(c) == <<Min(c[1], c[3]), Min(c[2], c[4]), Abs(c[3] - c[1]), Abs(c[4] - c[2])>>

\* ------------------------------------------------------------ destinations
DestView(d) ==
    LET v == d.v
        One(ts, x) == IF d.t \in ts THEN <<x>> ELSE None
    IN [type |-> d.t, page |-> <<d.page>>,
        left |-> IF d.t \in {"XYZ", "FitV", "FitR"} THEN <<v[1]>> ELSE None,
        top |-> CASE d.t = "XYZ" -> <<v[2]>> [] d.t \in {"FitH", "FitBH"} -> <<v[1]>> [] d.t = "FitR" -> <<v[2] + v[4]>> [] OTHER -> None,
        zoom |-> IF d.t = "XYZ" THEN <<v[3]>> ELSE None,
        rect |-> IF d.t = "FitR" THEN v ELSE None,
        val |-> IF d.t \in {"FitH", "FitV", "FitBH"} THEN <<v[1]>> ELSE None]
=============================================================================
