-------------------------------- MODULE Forms --------------------------------
(* Interactive forms: fields as nodes of a tree, some attributes of which are   *)
(* inherited (FT, Ff, V, MaxLen, T, TU, TM as the API reads them), the list of   *)
(* fields of the form, the widgets of the pages.                                *)
(* Flags are the sets of the bit positions of ISO 32000.                        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
None == <<-1>>
Dot == 46
Types == {"PushButton", "CheckBox", "RadioButton", "TextBox", "ComboBox", "ListBox", "Signature"}
NoV == [k |-> "none", v |-> None]
Blank == [parent |-> 0, haskids |-> FALSE, kids |-> <<>>, ft |-> "", hasff |-> FALSE, ff |-> {}, t |-> None, tu |-> None, tm |-> None,
          v |-> NoV, rv |-> None, maxlen |-> -1, hasopt |-> FALSE, opt |-> <<>>, as |-> "", h |-> "", aa |-> {}, ca |-> None, rc |-> None, ac |-> None]
Empty == [d |-> [n \in {} |-> Blank], roots |-> <<>>, annots |-> <<<<>>, <<>>>>, need |-> FALSE, sig |-> FALSE]

Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, x) == SelectSeq(s, LAMBDA y : y # x)
RemoveIdx(s, i) == [j \in 1..Len(s) - 1 |-> IF j < i THEN s[j] ELSE s[j + 1]]
HasDot(name) == Dot \in Range(name)

\* ------------------------------------------------------------ inheritance
RECURSIVE Chain(_, _)
Chain(d, n) == IF n = 0 THEN <<>> ELSE <<n>> \o Chain(d, d[n].parent)
\* the nearest of the field and its ancestors where P holds; 0: none
Nearest(d, n, P(_)) == LET c == SelectSeq(Chain(d, n), P) IN IF c = <<>> THEN 0 ELSE c[1]
EffFF(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].hasff) IN IF m = 0 THEN {} ELSE d[m].ff
EffFT(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].ft # "") IN IF m = 0 THEN "" ELSE d[m].ft
EffT(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].t # None) IN IF m = 0 THEN None ELSE d[m].t
EffTU(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].tu # None) IN IF m = 0 THEN None ELSE d[m].tu
EffTM(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].tm # None) IN IF m = 0 THEN None ELSE d[m].tm
EffV(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].v # NoV) IN IF m = 0 THEN NoV ELSE d[m].v
EffRV(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].rv # None) IN IF m = 0 THEN None ELSE d[m].rv
EffMax(d, n) == LET m == Nearest(d, n, LAMBDA x : d[x].maxlen # -1) IN IF m = 0 THEN -1 ELSE d[m].maxlen

TypeOf(ft, ff) ==
    CASE ft = "Btn" -> IF 17 \in ff THEN "PushButton" ELSE IF 16 \in ff THEN "RadioButton" ELSE "CheckBox"
      [] ft = "Tx" -> "TextBox"
      [] ft = "Ch" -> IF 18 \in ff THEN "ComboBox" ELSE "ListBox"
      [] ft = "Sig" -> "Signature"
      [] OTHER -> "Unknown"
Type(d, n) == TypeOf(EffFT(d, n), EffFF(d, n))

\* the full name: the names of the ancestors, joined by dots; dots in names are doubled when asked
RECURSIVE Escaped(_)
Escaped(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = Dot THEN <<Dot, Dot>> ELSE <<s[1]>>) \o Escaped(Tail(s))
RECURSIVE FullOf(_, _, _)
FullOf(d, n, esc) ==
    LET up == IF d[n].parent = 0 THEN <<>> ELSE FullOf(d, d[n].parent, esc)
        own == IF d[n].t = None THEN <<>> ELSE IF esc THEN Escaped(d[n].t) ELSE d[n].t
    IN IF d[n].t = None THEN up ELSE IF up = <<>> THEN own ELSE up \o <<Dot>> \o own

\* ------------------------------------------------------------ flags
FlagTable == [ReadOnly |-> <<1, FALSE>>, Required |-> <<2, FALSE>>, NoExport |-> <<3, FALSE>>,
              MultiLine |-> <<13, FALSE>>, Password |-> <<14, FALSE>>, File |-> <<21, FALSE>>, Spell |-> <<23, TRUE>>, Scroll |-> <<24, TRUE>>,
              Comb |-> <<25, FALSE>>, Rich |-> <<26, FALSE>>, Sorted |-> <<20, FALSE>>, Multi |-> <<22, FALSE>>, Commit |-> <<27, FALSE>>, Edit |-> <<19, FALSE>>]
Common == {"ReadOnly", "Required", "NoExport"}
FlagsOf(type) ==
    CASE type = "TextBox" -> Common \cup {"MultiLine", "Password", "File", "Spell", "Scroll", "Comb", "Rich"}
      [] type = "ComboBox" -> Common \cup {"Spell", "Sorted", "Multi", "Commit", "Edit"}
      [] type = "ListBox" -> Common \cup {"Spell", "Sorted", "Multi", "Commit"}
      [] OTHER -> Common
GetFlag(d, n, f) == (FlagTable[f][1] \in EffFF(d, n)) # FlagTable[f][2]
SetFlagD(d, n, f, b) ==
    [d EXCEPT ![n].hasff = TRUE,
              ![n].ff = IF b # FlagTable[f][2] THEN EffFF(d, n) \cup {FlagTable[f][1]} ELSE EffFF(d, n) \ {FlagTable[f][1]}]
SetFlag(s, n, f, b) == [s EXCEPT !.d = SetFlagD(s.d, n, f, b)]

\* ------------------------------------------------------------ creation
FtOf(type) == CASE type \in {"PushButton", "CheckBox", "RadioButton"} -> "Btn" [] type = "TextBox" -> "Tx" [] type \in {"ComboBox", "ListBox"} -> "Ch" [] OTHER -> "Sig"
NewRoot(type) ==
    [Blank EXCEPT !.ft = FtOf(type), !.hasff = type \in {"PushButton", "RadioButton", "ComboBox", "ListBox"},
                  !.ff = CASE type = "PushButton" -> {17} [] type = "RadioButton" -> {15, 16} [] type = "ComboBox" -> {18} [] OTHER -> {}]
\* a child has the type of its parent
NewChild(d, p, type) ==
    LET e == EffFF(d, p)
    IN [Blank EXCEPT !.parent = p, !.hasff = type \in {"PushButton", "ComboBox", "ListBox"},
                     !.ff = CASE type = "PushButton" -> e \cup {17} [] type = "ComboBox" -> e \cup {18} [] type = "ListBox" -> e \ {18} [] OTHER -> {}]
Put(d, n, x) == [m \in DOMAIN d \cup {n} |-> IF m = n THEN x ELSE d[m]]
Sign(s, type) == IF type = "Signature" THEN [s EXCEPT !.sig = TRUE] ELSE s
Fresh(s, ids) == Range(ids) \cap DOMAIN s.d = {} /\ Cardinality(Range(ids)) = Len(ids)

FormField(s, name, type, n) ==
    Sign([s EXCEPT !.d = Put(s.d, n, [NewRoot(type) EXCEPT !.t = name]), !.roots = Append(s.roots, n)], type)

Candidates(s, name) == SelectSeq(s.roots, LAMBDA n : n # 0 /\ s.d[n].t = name)
\* a field for a widget of a page: a second widget of a field becomes its second child
PageFieldFails(s, name, type) == HasDot(name) \/ (Candidates(s, name) # <<>> /\ Type(s.d, Candidates(s, name)[1]) # type)
PageFieldNew(s, name) == IF Candidates(s, name) = <<>> \/ s.d[Candidates(s, name)[1]].haskids THEN 1 ELSE 2
AddKid(d, p, k) == [d EXCEPT ![p].haskids = TRUE, ![p].kids = Append(d[p].kids, k)]
PageField(s, page, name, type, ids) ==
    LET c == Candidates(s, name)
        a == [s EXCEPT !.annots[page] = Append(s.annots[page], ids[1])]
        w == ids[1]
    IN IF c = <<>>
       THEN Sign([a EXCEPT !.d = Put(s.d, w, [NewRoot(type) EXCEPT !.t = name]), !.roots = Append(s.roots, w)], type)
       ELSE LET old == s.d[c[1]]
                up == [NewRoot(type) EXCEPT !.ft = IF old.ft = "" THEN @ ELSE old.ft, !.hasff = IF old.hasff THEN TRUE ELSE @, !.ff = IF old.hasff THEN old.ff ELSE @,
                                            !.t = old.t, !.v = old.v]
                s1 == IF old.haskids THEN [a EXCEPT !.d = s.d]
                      ELSE [a EXCEPT !.d = AddKid([Put(s.d, ids[2], up) EXCEPT ![c[1]] = [old EXCEPT !.ft = "", !.hasff = FALSE, !.ff = {}, !.t = None, !.v = NoV, !.parent = ids[2]]], ids[2], c[1]),
                                     !.roots = Without(Append(s.roots, ids[2]), c[1])]
                p == IF old.haskids THEN c[1] ELSE ids[2]
            IN Sign([s1 EXCEPT !.d = AddKid(Put(s1.d, w, [Blank EXCEPT !.parent = p]), p, w)], type)
Child(s, p, n) ==
    LET ty == Type(s.d, p) IN Sign([s EXCEPT !.d = AddKid(Put(s.d, n, NewChild(s.d, p, ty)), p, n)], ty)
ChildWidget(s, p, page, n) == [Child(s, p, n) EXCEPT !.annots[page] = Append(s.annots[page], n)]

\* ------------------------------------------------------------ removal, saving
RemoveAt(s, i) == [s EXCEPT !.roots = RemoveIdx(s.roots, i)]
RemoveRef(s, n) == [s EXCEPT !.roots = Without(s.roots, n)]
RemoveKidAt(s, p, i) == [s EXCEPT !.d[p].kids = RemoveIdx(s.d[p].kids, i)]
RECURSIVE Reach(_, _)
Reach(d, R) == LET R2 == R \cup UNION {Range(d[n].kids) : n \in R} \cup ({d[n].parent : n \in R} \ {0}) IN IF R2 = R THEN R ELSE Reach(d, R2)
\* what a saved and reopened document still has
Reopened(s) ==
    LET K == Reach(s.d, (Range(s.roots) \ {0}) \cup UNION {Range(s.annots[p]) : p \in 1..Len(s.annots)})
    IN [s EXCEPT !.d = [n \in K |-> s.d[n]]]

\* ------------------------------------------------------------ values
Terminal(d, n) == ~d[n].haskids
Rich(d, n) == GetFlag(d, n, "Rich")
SetTextFails(d, n, v) == ~Terminal(d, n) \/ (v # None /\ EffMax(d, n) # -1 /\ Len(v) > EffMax(d, n))
SetText(s, n, v) == IF Rich(s.d, n) THEN [s EXCEPT !.d[n].rv = v] ELSE [s EXCEPT !.d[n].v = IF v = None THEN NoV ELSE [k |-> "str", v |-> v]]
TextOf(d, n) == IF Rich(d, n) THEN EffRV(d, n) ELSE LET v == EffV(d, n) IN IF v.k = "str" THEN v.v ELSE None
InsertItem(s, n, v, disp) == [s EXCEPT !.d[n].hasopt = TRUE, !.d[n].opt = Append(s.d[n].opt, <<v, disp>>)]
RemoveItemFails(d, n, i) == d[n].hasopt /\ i >= Len(d[n].opt)
RemoveItem(s, n, i) == IF s.d[n].hasopt THEN [s EXCEPT !.d[n].opt = RemoveIdx(s.d[n].opt, i + 1)] ELSE s
SelectFails(d, n, i) == ~Terminal(d, n) \/ ~d[n].hasopt \/ i < 0 \/ i >= Len(d[n].opt)
Select(s, n, i) == [s EXCEPT !.d[n].v = [k |-> "str", v |-> s.d[n].opt[i + 1][1]]]
SelectedOf(d, n) ==
    LET v == EffV(d, n)
        H == {i \in 1..Len(d[n].opt) : d[n].opt[i][1] = v.v}
    IN IF v.k # "str" \/ H = {} THEN -1 ELSE (CHOOSE i \in H : \A j \in H : i <= j) - 1
Check(s, n, b) == LET x == IF b THEN "Yes" ELSE "Off" IN [s EXCEPT !.d[n].v = [k |-> x, v |-> None], !.d[n].as = x]
CheckedOf(d, n) == IF d[n].v # NoV THEN d[n].v.k = "Yes" ELSE d[n].as = "Yes"
AddAction(s, n, key, a) == [s EXCEPT !.d[n].aa = {x \in @ : x[1] # key} \cup {<<key, a>>}]

\* ------------------------------------------------------------ what is seen of a field
Items(d, n) == [i \in 1..Len(d[n].opt) |-> <<d[n].opt[i][1], IF d[n].opt[i][2] = None THEN d[n].opt[i][1] ELSE d[n].opt[i][2]>>]
Seen(d, n) ==
    LET ty == Type(d, n)
        choice == ty \in {"ComboBox", "ListBox"}
    IN [n |-> n, type |-> ty, name |-> EffT(d, n), raw |-> d[n].t, full |-> FullOf(d, n, FALSE), esc |-> FullOf(d, n, TRUE),
        alt |-> EffTU(d, n), map |-> EffTM(d, n), bits |-> EffFF(d, n), on |-> {f \in FlagsOf(ty) : GetFlag(d, n, f)},
        h |-> IF d[n].h = "" THEN "I" ELSE d[n].h, aa |-> d[n].aa,
        text |-> IF ty = "TextBox" /\ Terminal(d, n) THEN TextOf(d, n) ELSE None,
        maxlen |-> IF ty = "TextBox" THEN EffMax(d, n) ELSE -1,
        items |-> IF choice THEN Items(d, n) ELSE <<>>,
        sel |-> IF choice /\ Terminal(d, n) THEN SelectedOf(d, n) ELSE -1,
        checked |-> ty = "CheckBox" /\ CheckedOf(d, n),
        ca |-> d[n].ca, rc |-> d[n].rc, ac |-> d[n].ac,
        parent |-> d[n].parent, kids |-> d[n].kids]
=============================================================================
