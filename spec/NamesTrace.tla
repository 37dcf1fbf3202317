------------------------------ MODULE NamesTrace ------------------------------
EXTENDS Names, TraceBase
VARIABLES st
\* the trees by their names, the destinations of old documents, and the names of attachments as they are registered
None == [k \in {} |-> 0]
TreeNames == {"Dests", "JavaScript", "EmbeddedFiles", "IDS"}
Empty == [trees |-> [x \in TreeNames |-> None], old |-> None]
TraceInit == TBInit /\ st = Empty
Keys(ks) == [i \in 1..Len(ks) |-> ks[i].b]
Vals(vs) == [i \in 1..Len(vs) |-> vs[i].v]

RECURSIVE AllNames(_)
AllNames(node) ==
    IF "kids" \in DOMAIN node
    THEN LET RECURSIVE Cat(_)
             Cat(i) == IF i > Len(node.kids) THEN <<>> ELSE AllNames(node.kids[i]) \o Cat(i + 1)
         IN Cat(1)
    ELSE IF "names" \in DOMAIN node THEN node.names ELSE <<>>
TreeOf(node) == LET ns == AllNames(node) IN Put(None, [i \in 1..Len(ns) |-> ns[i].key.b], [i \in 1..Len(ns) |-> ns[i].val.v])
Built(e) ==
    [trees |-> [x \in TreeNames |-> IF \E i \in 1..Len(e.trees) : e.trees[i].tree = x THEN TreeOf(e.trees[CHOOSE i \in 1..Len(e.trees) : e.trees[i].tree = x].root) ELSE None],
     old |-> Put(None, [i \in 1..Len(e.old) |-> e.old[i].key], [i \in 1..Len(e.old) |-> e.old[i].val.v])]

Does(e) ==
    CASE e.op = "start" -> e.out.err = "" /\ st' = Empty
      [] e.op = "build" -> e.out.err = "" /\ st' = Built(e)
      [] e.op = "addmany" -> e.out.err = "" /\ st' = [st EXCEPT !.trees[e.tree] = IF e.once = 1 THEN PutOnce(@, Keys(e.keys), Vals(e.vals)) ELSE Put(@, Keys(e.keys), Vals(e.vals))]
      [] e.op = "adddest" -> e.out.err = "" /\ st' = [st EXCEPT !.trees["Dests"] = Put(@, <<e.key.b>>, <<e.val.v>>)]
      [] e.op = "attach" -> e.out.err = "" /\ e.out.name = e.as /\ st' = [st EXCEPT !.trees["EmbeddedFiles"] = Put(@, <<e.as>>, <<e.val.v>>)]
      [] e.op = "getmany" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ \A i \in 1..Len(e.keys) :
                  /\ e.out.vals[i] = Get(st.trees[e.tree], e.keys[i].b)
                  /\ e.out.has[i] = (IF e.keys[i].b \in DOMAIN st.trees[e.tree] THEN 1 ELSE 0)
      [] e.op = "old" -> e.out.err = "" /\ UNCHANGED st /\ \A i \in 1..Len(e.keys) : e.out.vals[i] = Get(st.old, e.keys[i])
      [] e.op = "todict" ->
            /\ UNCHANGED st
            \* names which can not be those of dictionaries are refused
            /\ IF \E k \in DOMAIN st.trees[e.tree] : Len(k) > 1 /\ k[1] = 254 /\ k[2] = 255 THEN e.out.err # ""
               ELSE e.out.err = "" /\ Range(e.out.pairs) = {<<k, st.trees[e.tree][k]>> : k \in DOMAIN st.trees[e.tree]} /\ Len(e.out.pairs) = Cardinality(DOMAIN st.trees[e.tree])
      [] e.op = "nodes" -> e.out.err = "" /\ UNCHANGED st /\ WellFormed(e.out.nodes) /\ Holds(e.out.nodes, st.trees[e.tree])
      [] e.op = "node" -> e.out.err = "" /\ UNCHANGED st
      [] e.op = "reload" -> e.out.err = "" /\ UNCHANGED st
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
