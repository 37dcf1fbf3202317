------------------------------ MODULE FormsModel ------------------------------
(* Closed model of Forms: all short histories of a form with two pages.          *)
EXTENDS Forms
CONSTANTS MaxFields, MaxOps
VARIABLES s, ops, last
vars == <<s, ops, last>>

Names == {<<65>>, <<66>>}
SomeTypes == {"RadioButton", "CheckBox", "TextBox", "ComboBox"}
Flags == {"Required", "Spell", "Multi"}
NextId == 1 + (IF DOMAIN s.d = {} THEN 0 ELSE CHOOSE m \in DOMAIN s.d : \A x \in DOMAIN s.d : x <= m)
Room(k) == Cardinality(DOMAIN s.d) + k <= MaxFields
Live == Reach(s.d, (Range(s.roots) \ {0}) \cup UNION {Range(s.annots[p]) : p \in 1..2})

Init == s = Empty /\ ops = 0 /\ last = "start"
Do(what, s2) == s' = s2 /\ last' = what /\ ops' = ops + 1
NewFields ==
    \/ \E nm \in Names, ty \in SomeTypes : Room(1) /\ Do("new", FormField(s, nm, ty, NextId))
    \/ \E nm \in Names, ty \in SomeTypes, p \in 1..2 :
          ~PageFieldFails(s, nm, ty) /\ Room(PageFieldNew(s, nm)) /\ Do("new", PageField(s, p, nm, ty, [i \in 1..PageFieldNew(s, nm) |-> NextId + i - 1]))
    \/ \E n \in Live : Room(1) /\ Do("new", Child(s, n, NextId))
    \/ \E n \in Live : Room(1) /\ Do("new", ChildWidget(s, n, 1, NextId))
Values ==
    \E n \in Live :
       \/ \E f \in Flags, b \in BOOLEAN : f \in FlagsOf(Type(s.d, n)) /\ Do("flag", SetFlag(s, n, f, b))
       \/ \E v \in {None, <<65>>, <<65, 65>>} : Type(s.d, n) = "TextBox" /\ ~SetTextFails(s.d, n, v) /\ Do("value", SetText(s, n, v))
       \/ Type(s.d, n) = "TextBox" /\ Do("value", [s EXCEPT !.d[n].maxlen = 1])
       \/ \E v \in {<<65>>, <<66>>} : Type(s.d, n) = "ComboBox" /\ Len(s.d[n].opt) < 2 /\ Do("value", InsertItem(s, n, v, None))
       \/ \E i \in 0..1 : Type(s.d, n) = "ComboBox" /\ ~SelectFails(s.d, n, i) /\ Do("value", Select(s, n, i))
       \/ \E i \in 0..1 : Type(s.d, n) = "ComboBox" /\ ~RemoveItemFails(s.d, n, i) /\ Do("value", RemoveItem(s, n, i))
       \/ \E b \in BOOLEAN : Type(s.d, n) = "CheckBox" /\ Do("value", Check(s, n, b))
       \/ Do("name", [s EXCEPT !.d[n].t = <<67>>])
Removals ==
    \/ \E i \in 1..Len(s.roots) : Do("remove", RemoveAt(s, i))
    \/ \E n \in Live : \E i \in 1..Len(s.d[n].kids) : Do("remove", RemoveKidAt(s, n, i))
    \/ Do("reload", Reopened(s))
Next == ops < MaxOps /\ (NewFields \/ Values \/ Removals)
Spec == Init /\ [][Next]_vars

\* parents and children agree, and no field is its own ancestor
RECURSIVE Depth(_, _, _)
Depth(d, n, k) == IF n = 0 THEN 0 ELSE IF k = 0 THEN 1000 ELSE 1 + Depth(d, d[n].parent, k - 1)
Tree ==
    /\ \A n \in DOMAIN s.d :
          /\ s.d[n].parent \in DOMAIN s.d \cup {0} /\ Depth(s.d, n, MaxFields) <= MaxFields
          /\ \A i, j \in 1..Len(s.d[n].kids) : s.d[n].kids[i] \in DOMAIN s.d /\ s.d[s.d[n].kids[i]].parent = n /\ (s.d[n].kids[i] = s.d[n].kids[j] => i = j)
          /\ ~s.d[n].haskids => s.d[n].kids = <<>>
    /\ \A i \in 1..Len(s.roots) : s.roots[i] \in DOMAIN s.d /\ s.d[s.roots[i]].parent = 0
\* every field has one of the types
Typed == \A n \in DOMAIN s.d : Type(s.d, n) # "Unknown"
\* what is set is what is read, and nothing else of the field changes
FlagsOk ==
    \A n \in DOMAIN s.d : \A f \in FlagsOf(Type(s.d, n)), b \in BOOLEAN :
       LET t == SetFlag(s, n, f, b) IN
       /\ GetFlag(t.d, n, f) = b
       /\ \A g \in FlagsOf(Type(s.d, n)) \ {f} : GetFlag(t.d, n, g) = GetFlag(s.d, n, g)
       /\ Type(t.d, n) = Type(s.d, n)
TextOk ==
    \A n \in DOMAIN s.d : Type(s.d, n) = "TextBox" /\ ~SetTextFails(s.d, n, <<66>>) => TextOf(SetText(s, n, <<66>>).d, n) = <<66>>
SelectOk ==
    \A n \in DOMAIN s.d : Type(s.d, n) = "ComboBox" => \A i \in 0..1 :
       ~SelectFails(s.d, n, i) => LET j == SelectedOf(Select(s, n, i).d, n) IN j # -1 /\ j <= i /\ s.d[n].opt[j + 1][1] = s.d[n].opt[i + 1][1]
\* saving loses nothing that can be seen, and saving again changes nothing
SaveKeeps ==
    LET r == Reopened(s) IN
    /\ Reopened(r) = r /\ r.roots = s.roots /\ r.annots = s.annots
    /\ \A n \in DOMAIN r.d : Seen(r.d, n) = Seen(s.d, n)
\* a new field changes neither the names, nor the types, nor the flags, nor the values of those there are
NewKeeps ==
    [][last' = "new" => \A n \in Live :
         /\ EffT(s'.d, n) = EffT(s.d, n) /\ FullOf(s'.d, n, TRUE) = FullOf(s.d, n, TRUE) /\ Type(s'.d, n) = Type(s.d, n)
         /\ EffFF(s'.d, n) = EffFF(s.d, n) /\ EffV(s'.d, n) = EffV(s.d, n)]_vars
\* no operation changes the type of a field
TypeKept == [][\A n \in Live \cap DOMAIN s'.d : Type(s'.d, n) = Type(s.d, n)]_vars
\* a widget stays on its page
WidgetsKept == [][\A p \in 1..2 : \A i \in 1..Len(s.annots[p]) : s'.annots[p][i] = s.annots[p][i]]_vars
=============================================================================
