-------------------------------- MODULE Names --------------------------------
(* Name trees: a tree is a mapping of names, which are strings of bytes, to       *)
(* values; in a document it is a tree of nodes.  The nodes are given in a list,    *)
(* the root first: kids are places in the list, names pairs of name and value,     *)
(* lim the least and the greatest name below a node other than the root.          *)
(* Further, the settings of a document for its viewing and its extensions.        *)
EXTENDS Naturals, Integers, Sequences, FiniteSets

\* names are ordered by their bytes
RECURSIVE LessFrom(_, _, _)
LessFrom(a, b, i) ==
    IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
    ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessFrom(a, b, i + 1)
Less(a, b) == LessFrom(a, b, 1)

Range(s) == {s[i] : i \in 1..Len(s)}
\* of several values for one name the last counts
Put(m, ks, vs) ==
    LET at == [k \in Range(ks) |-> CHOOSE i \in 1..Len(ks) : ks[i] = k /\ \A j \in i + 1..Len(ks) : ks[j] # k]
    IN [k \in DOMAIN m \cup DOMAIN at |-> IF k \in DOMAIN at THEN vs[at[k]] ELSE m[k]]
\* the same where names are given once only
PutOnce(m, ks, vs) ==
    LET n == {<<ks[i], vs[i]>> : i \in 1..Len(ks)}
        new == [i \in 1..Len(ks) |-> ks[i]]
        inv == [k \in Range(ks) |-> CHOOSE i \in DOMAIN new : new[i] = k]
    IN [k \in DOMAIN m \cup DOMAIN inv |-> IF k \in DOMAIN inv THEN vs[inv[k]] ELSE m[k]]
Get(m, k) == IF k \in DOMAIN m THEN <<m[k]>> ELSE <<>>

\* ------------------------------------------------------------ trees of nodes
Ascending(ns) == \A i \in 1..Len(ns) - 1 : Less(ns[i][1], ns[i + 1][1])
NodeOk(nodes, i) ==
    LET x == nodes[i] IN
    /\ IF i = 1 THEN x.lim = <<>> ELSE Len(x.lim) = 2
    /\ x.k \in {"k", "n"} \/ (i = 1 /\ x.k = "")
    /\ x.k = "n" => /\ Ascending(x.names) /\ (i # 1 => (Len(x.names) > 0 /\ x.lim = <<x.names[1][1], x.names[Len(x.names)][1]>>))
    /\ x.k = "k" =>
         /\ i # 1 => (Len(x.kids) > 0 /\ x.lim = <<nodes[x.kids[1]].lim[1], nodes[x.kids[Len(x.kids)]].lim[2]>>)
         /\ \A j \in 1..Len(x.kids) - 1 : Less(nodes[x.kids[j]].lim[2], nodes[x.kids[j + 1]].lim[1])
         /\ \A j \in 1..Len(x.kids) : x.kids[j] > i
WellFormed(nodes) == \A i \in 1..Len(nodes) : NodeOk(nodes, i)
Pairs(nodes) == UNION {Range(nodes[i].names) : i \in 1..Len(nodes)}
Count(nodes) == LET RECURSIVE Sum(_)
                    Sum(i) == IF i = 0 THEN 0 ELSE Len(nodes[i].names) + Sum(i - 1)
                IN Sum(Len(nodes))
Holds(nodes, m) == Pairs(nodes) = {<<k, m[k]>> : k \in DOMAIN m} /\ Count(nodes) = Cardinality(DOMAIN m)

\* ------------------------------------------------------------ settings
NewSettings == [mode |-> "", layout |-> "", prefs |-> [k \in {} |-> ""], lang |-> "none", base |-> "none", exts |-> [k \in {} |-> 0], version |-> 14, written |-> 0]
Mode(s) == IF s.mode = "" THEN "UseNone" ELSE s.mode
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
SetMode(s, v) == IF v = "DontCare" THEN s ELSE [s EXCEPT !.mode = v]
\* the mode there was becomes that after leaving the full screen
FullScreen(s) == IF Mode(s) = "FullScreen" THEN s ELSE [s EXCEPT !.prefs = With(@, "NonFullScreenPageMode", Mode(s)), !.mode = "FullScreen"]
SetLayout(s, v) == IF v = "Ignore" THEN s ELSE [s EXCEPT !.layout = IF v = "Default" THEN "" ELSE v]
HasExt(s, ns, level) == ns \in DOMAIN s.exts /\ s.exts[ns][2] = level
AddExt(s, ns, level) == IF HasExt(s, ns, level) THEN s ELSE [s EXCEPT !.exts = With(@, ns, <<s.version, level>>)]
\* an update does not lower the version of the file; without a file there is nothing to update
Reloaded(s, how) == LET v == IF how = "update" /\ s.written > s.version THEN s.written ELSE s.version IN [s EXCEPT !.version = v, !.written = v]
RemoveExt(s, ns, level) == IF HasExt(s, ns, level) THEN [s EXCEPT !.exts = Without(@, ns)] ELSE s
=============================================================================
