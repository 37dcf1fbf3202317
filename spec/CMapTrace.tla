------------------------------ MODULE CMapTrace ------------------------------
(* CMaps read from streams: strings to texts and to identifiers, and back.    *)
EXTENDS Codes, TraceBase
VARIABLES st
\* the texts of codes, the identifiers of codes (one map for both, or two)
Nothing == [m |-> NoMap, min |-> 1, max |-> 1]
TraceInit == TBInit /\ st = [u |-> Nothing, c |-> Nothing]
Same(us, cids) == Len(us) = Len(cids) /\ \A i \in 1..Len(us) : (us[i].cps[1] = -1 \/ cids[i].id = us[i].cps[1]) /\ cids[i].code = us[i].c
Does(e) ==
    CASE e.op = "load" -> st' = [u |-> CMap(e.clauses), c |-> IF e.cidclauses = <<>> THEN CMap(e.clauses) ELSE CMap(e.cidclauses)] /\ e.out.err = "" /\ e.out.min = st'.u.min /\ e.out.max = st'.u.max
      [] e.op = "text" -> e.out.err = "" /\ UNCHANGED st /\ e.out.cps = Text(st.u, e.bytes) /\ e.out.ok = Whole(st.u, e.bytes) /\ e.out.same
      [] e.op = "cids" -> e.out.err = "" /\ UNCHANGED st /\ Same(Units(st.c, e.bytes, 1), e.out.cids) /\ e.out.ok = Whole(st.c, e.bytes)
      [] e.op = "scan" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ LET us == Units(st.c, e.bytes, 1) IN
               /\ Len(e.out.steps) = Len(us)
               /\ \A i \in 1..Len(us) :
                     /\ e.out.steps[i].code = us[i].c /\ e.out.steps[i].ok = (us[i].ok /\ us[i].c \in DOMAIN st.u.m)
                     /\ e.out.steps[i].cps = (IF us[i].c \in DOMAIN st.u.m THEN SelectSeq(st.u.m[us[i].c], Shown) ELSE <<>>)
      [] e.op = "encode" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ LET ps == Pieces(st.u.m, e.cps, 1) IN
               /\ Len(e.out.codes) = Len(ps)
               /\ \A i \in 1..Len(ps) : e.out.codes[i] \in CodesOf(st.u.m, ps[i])
               /\ e.out.ok = (Spent(ps) = Len(e.cps))
      [] e.op = "points" -> e.out.err = "" /\ UNCHANGED st /\ e.out.ok = (e.code \in DOMAIN st.u.m) /\ (e.out.ok => e.out.cps = st.u.m[e.code])
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
