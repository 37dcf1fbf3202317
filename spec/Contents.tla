------------------------------- MODULE Contents -------------------------------
(* Reading contents (ISO 32000 7.8, 8.9.7, 8.10): the contents of a page or a   *)
(* form are the concatenation of its streams, a sequence of operands and        *)
(* operators; inline images are their dictionary and their data; forms shown    *)
(* by Do are read in place, unless they are being read already.                 *)
(* The reader is a state machine, each step delivers one item:                  *)
(*   rd.inp   what is being read: <<page, form, form ...>>, bytes and position   *)
(*   rd.img   the data of an inline image follow                                 *)
(*   rd.bad   malformed contents were met: nothing more is claimed               *)
EXTENDS Syntax, Integers

\* operators and the number of their operands (Table 50), 99: any
OpTable == {
    <<<<119>>, 1>>, <<<<74>>, 1>>, <<<<106>>, 1>>, <<<<77>>, 1>>, <<<<100>>, 2>>, <<<<114, 105>>, 1>>,
    <<<<105>>, 1>>, <<<<103, 115>>, 1>>, <<<<113>>, 0>>, <<<<81>>, 0>>, <<<<99, 109>>, 6>>, <<<<109>>, 2>>,
    <<<<108>>, 2>>, <<<<99>>, 6>>, <<<<118>>, 4>>, <<<<121>>, 4>>, <<<<104>>, 0>>, <<<<114, 101>>, 4>>,
    <<<<83>>, 0>>, <<<<115>>, 0>>, <<<<102>>, 0>>, <<<<70>>, 0>>, <<<<102, 42>>, 0>>, <<<<66>>, 0>>,
    <<<<66, 42>>, 0>>, <<<<98>>, 0>>, <<<<98, 42>>, 0>>, <<<<110>>, 0>>, <<<<87>>, 0>>, <<<<87, 42>>, 0>>,
    <<<<66, 84>>, 0>>, <<<<69, 84>>, 0>>, <<<<84, 99>>, 1>>, <<<<84, 119>>, 1>>, <<<<84, 122>>, 1>>,
    <<<<84, 76>>, 1>>, <<<<84, 102>>, 2>>, <<<<84, 114>>, 1>>, <<<<84, 115>>, 1>>, <<<<84, 100>>, 2>>,
    <<<<84, 68>>, 2>>, <<<<84, 109>>, 6>>, <<<<84, 42>>, 0>>, <<<<84, 106>>, 1>>, <<<<84, 74>>, 1>>,
    <<<<39>>, 1>>, <<<<34>>, 3>>, <<<<100, 48>>, 2>>, <<<<100, 49>>, 6>>, <<<<67, 83>>, 1>>,
    <<<<99, 115>>, 1>>, <<<<83, 67>>, 99>>, <<<<83, 67, 78>>, 99>>, <<<<115, 99>>, 99>>,
    <<<<115, 99, 110>>, 99>>, <<<<71>>, 1>>, <<<<103>>, 1>>, <<<<82, 71>>, 3>>, <<<<114, 103>>, 3>>,
    <<<<75>>, 4>>, <<<<107>>, 4>>, <<<<115, 104>>, 1>>, <<<<66, 73>>, 0>>, <<<<73, 68>>, 0>>,
    <<<<69, 73>>, 0>>, <<<<68, 111>>, 1>>, <<<<77, 80>>, 1>>, <<<<68, 80>>, 2>>, <<<<66, 77, 67>>, 1>>,
    <<<<66, 68, 67>>, 2>>, <<<<69, 77, 67>>, 0>>, <<<<66, 88>>, 0>>, <<<<69, 88>>, 0>>}
AnyCount == 99
Operators == {x[1] : x \in OpTable}
CountOf == [k \in Operators |-> (CHOOSE x \in OpTable : x[1] = k)[2]]
kwBI == <<66, 73>>   kwID == <<73, 68>>   kwEI == <<69, 73>>   kwDo == <<68, 111>>

RECURSIVE Join(_)
Join(parts) ==
    LET ne == SelectSeq(parts, LAMBDA x : x # <<>>) IN
    IF ne = <<>> THEN <<>> ELSE IF Len(ne) = 1 THEN ne[1] ELSE ne[1] \o <<10>> \o Join(Tail(ne))

(* operands up to the next keyword, brace or the end *)
RECURSIVE Collect(_, _, _)
Collect(b, p, st) ==
    LET q == Skip(b, p) IN
    IF At(b, q) \in {123, 125} THEN [k |-> "brace", kw |-> <<>>, st |-> st, p |-> q + 1]
    ELSE LET o == Obj(b, q, FALSE) IN
         CASE IsErr(o.v) -> [k |-> "err", kw |-> <<>>, st |-> st, p |-> q]
           [] o.v.t = "eof" -> [k |-> "eof", kw |-> <<>>, st |-> st, p |-> q]
           [] o.v.t = "kw" -> [k |-> "kw", kw |-> o.v.k, st |-> st, p |-> o.p]
           [] OTHER -> Collect(b, o.p, Append(st, o.v))

(* the dictionary of an inline image, between BI and ID *)
RECURSIVE ImgDict(_, _, _, _)
ImgDict(b, p, d, warn) ==
    LET q == Skip(b, p)
        bad == [k |-> "err", d |-> d, warn |-> warn, p |-> q]
    IN IF At(b, q) \in {123, 125} THEN ImgDict(b, q + 1, d, warn \cup {"imgdict"})
       ELSE LET o == Obj(b, q, FALSE) IN
            CASE o.v.t \in {"err", "eof"} -> bad
              [] o.v.t = "kw" /\ o.v.k = kwID -> [k |-> "ok", d |-> d, warn |-> warn, p |-> o.p]
              [] o.v.t = "kw" /\ o.v.k # kwID -> ImgDict(b, o.p, d, warn \cup {"imgdict"})
              [] o.v.t = "name" ->
                    LET v == IF At(b, Skip(b, o.p)) \in {123, 125} THEN R(ErrV, o.p) ELSE Obj(b, o.p, FALSE) IN
                    IF v.v.t \in {"err", "eof", "kw"} THEN bad
                    ELSE ImgDict(b, v.p, LET rest == {x \in d : x[1] # o.v.n}
                                         IN IF v.v.t = "null" THEN rest ELSE rest \cup {<<o.v.n, v.v>>}, warn)
              [] OTHER -> ImgDict(b, o.p, d, warn \cup {"imgdict"})

(* the position of the EI that ends the data of an image starting at p; 0: none *)
IsEI(b, i) == b[i] = 69 /\ At(b, i + 1) = 73 /\ At(b, i + 2) \in WS \cup {256}
RECURSIVE FindEI(_, _)
FindEI(b, i) == IF i >= Len(b) THEN 0 ELSE IF IsEI(b, i) THEN i ELSE FindEI(b, i + 1)

Reader(b, c) == [inp |-> <<[b |-> b, p |-> 1, c |-> c]>>, img |-> FALSE, d |-> {}, bad |-> FALSE]
Top(rd) == rd.inp[Len(rd.inp)]
MoveTo(rd, p) == [rd EXCEPT !.inp[Len(rd.inp)].p = p]
Pop(rd) == [rd EXCEPT !.inp = SubSeq(@, 1, Len(@) - 1), !.img = FALSE]
Bad(rd) == [rd EXCEPT !.bad = TRUE]
Step(rd, o, h) == [rd |-> rd, o |-> o, h |-> h]
EofEv == [type |-> "eof"]

\* the end of what is being read
AtEnd(rd, st, warn, h) ==
    IF Len(rd.inp) = 1 THEN Step(Pop(rd), EofEv, h)
    ELSE Step(Pop(rd), [type |-> "end", stack |-> st, warn |-> warn \cup (IF st = <<>> THEN {} ELSE {"spurious"})], h)

CountWarn(kw, n) ==
    IF kw \notin Operators \/ CountOf[kw] = AnyCount \/ n = CountOf[kw] THEN {}
    ELSE IF n < CountOf[kw] THEN {"few"} ELSE {"spurious"}

(* world: objs: XObjects [k, b, res], res: the names of the page; a resource: {<<name, index>>} *)
ResOf(w, c) == IF c = 0 THEN w.res ELSE w.objs[c].res
Shown(w, c, st) ==        \* the XObject shown by Do, 0: none
    IF Len(st) # 1 \/ st[1].t # "name" THEN 0
    ELSE LET m == {x \in ResOf(w, c) : x[1] = st[1].n} IN
         IF m = {} THEN 0
         ELSE LET i == (CHOOSE x \in m : TRUE)[2] IN IF w.objs[i].k \in {"form", "image", "ps"} THEN i ELSE 0

(* the item at the position of the reader, h: what the handler of inline images saw *)
Item(rd, w, follow, h) ==
    LET t == Top(rd)
        c == Collect(t.b, t.p, <<>>)
        r2 == MoveTo(rd, c.p)
        warn == CountWarn(c.kw, Len(c.st))
    IN CASE c.k = "err" -> Step(Bad(rd), EofEv, h)
         [] c.k = "eof" -> AtEnd(r2, c.st, {}, h)
         [] c.k = "brace" \/ (c.k = "kw" /\ c.kw \notin Operators) ->
               Step(r2, [type |-> "unk", kw |-> c.kw, stack |-> c.st, warn |-> {}], h)
         [] c.k = "kw" /\ c.kw = kwBI ->
               LET i == ImgDict(t.b, c.p, {}, warn) IN
               IF i.k = "err" THEN Step(Bad(rd), EofEv, h)
               ELSE Step([MoveTo(rd, i.p) EXCEPT !.img = TRUE, !.d = i.d],
                         [type |-> "imgdict", d |-> i.d, stack |-> c.st, warn |-> i.warn], h)
         [] c.k = "kw" /\ c.kw = kwDo /\ t.c >= 0 ->
               LET i == Shown(w, t.c, c.st)
                   rec == i > 0 /\ \E j \in 1..Len(rd.inp) : rd.inp[j].c = i
                   ev == [type |-> "do", name |-> c.st[1].n, k |-> w.objs[i].k, xb |-> w.objs[i].b, stack |-> c.st,
                          warn |-> warn \cup (IF rec THEN {"recursive"} ELSE {})]
               IN IF i = 0 THEN Step(r2, [type |-> "op", kw |-> c.kw, stack |-> c.st, warn |-> warn \cup {"xobject"}], h)
                  ELSE IF w.objs[i].k = "form" /\ follow /\ ~rec
                       THEN Step([r2 EXCEPT !.inp = Append(@, [b |-> w.objs[i].b, p |-> 1, c |-> i])], ev, h)
                  ELSE Step(r2, ev, h)
         [] OTHER -> Step(r2, [type |-> "op", kw |-> c.kw, stack |-> c.st, warn |-> warn], h)

LenOf(d) == LET m == {x \in d : x[1] = <<76>> /\ x[2].t = "int"} IN
            IF m = {} THEN 0 ELSE
            LET RECURSIVE num(_, _)
                num(x, a) == IF x = <<>> THEN a ELSE num(Tail(x), 10 * a + (Head(x) - 48))
            IN num((CHOOSE x \in m : TRUE)[2].v, 0)

(* one step: the next item *)
Read(rd, w, follow, handler) ==
    IF rd.bad \/ rd.inp = <<>> THEN Step(rd, EofEv, <<>>)
    ELSE IF ~rd.img THEN Item(rd, w, follow, <<>>)
    ELSE LET t == Top(rd)
             r0 == [rd EXCEPT !.img = FALSE]
         IN IF ~handler
            THEN LET e == IF t.p > Len(t.b) THEN 0 ELSE FindEI(t.b, t.p + 1) IN
                 IF e = 0 THEN AtEnd(r0, <<>>, {"missingEI"}, <<>>)
                 ELSE Step(MoveTo(r0, e + 3), [type |-> "imgdata", b |-> SubSeq(t.b, t.p + 1, e - 1), stack |-> <<>>, warn |-> {}], <<>>)
            ELSE LET n == LenOf(rd.d)
                     e == t.p + n           \* the last byte of the data
                     q == IF e > Len(t.b) THEN Len(t.b) ELSE e
                     h == <<[d |-> rd.d, b |-> SubSeq(t.b, t.p + 1, q)]>>
                     c == Collect(t.b, e + 1, <<>>)
                 IN IF t.p > Len(t.b) THEN AtEnd(r0, <<>>, {"missingEI"}, <<>>)
                    ELSE IF e > Len(t.b) THEN AtEnd(r0, <<>>, {"missingEI"}, h)
                    ELSE IF c.k = "kw" /\ c.kw = kwEI /\ c.st = <<>> THEN Item(MoveTo(r0, c.p), w, follow, h)
                    ELSE Step(Bad(rd), EofEv, h)
=============================================================================
