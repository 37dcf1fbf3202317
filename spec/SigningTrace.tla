------------------------------ MODULE SigningTrace ------------------------------
EXTENDS Signing, TraceBase
\* dk: the state of the file
VARIABLES st, dk
TraceInit == TBInit /\ st = Empty /\ dk = Empty
Range(s) == {s[i] : i \in 1..Len(s)}
Sigs(o) == {Named(o.file.sigs[i]) : i \in 1..Len(o.file.sigs)}
\* an update: what was there is there, at its place
Appended(o) == o.file.err = "" /\ o.file.prefix = st.sha /\ o.file.len > st.len /\ st.sigs \subseteq Sigs(o)
OfFile(s, o) == [s EXCEPT !.len = o.file.len, !.sha = o.file.sha, !.sigs = Sigs(o)]
SigOf(f, n, e) == [f[n] EXCEPT !.val = TRUE, !.filter = IF e.filter = "" THEN "Adobe.PPKLite" ELSE e.filter, !.sub = e.sub, !.type = e.type, !.contents = e.out.sig]

Attr(s, e) ==
    LET p == s.fields[e.n]
        q == IF p.val THEN p ELSE [p EXCEPT !.val = TRUE, !.type = "Sig"]
        d == IF e.v = None THEN -1 ELSE e.s
    IN IF ~p.val /\ e.ensure = 0 THEN e.out.err # "" /\ st' = s
       ELSE /\ e.out.err = ""
            /\ st' = [s EXCEPT !.fields[e.n] =
                  CASE e.k = "name" -> [q EXCEPT !.name = e.v]
                    [] e.k = "reason" -> [q EXCEPT !.reason = e.v]
                    [] e.k = "location" -> [q EXCEPT !.location = e.v]
                    [] e.k = "date" -> [q EXCEPT !.date = d]
                    [] e.k = "creator" -> [q EXCEPT !.creator = e.v]
                    [] OTHER -> [q EXCEPT !.perm = e.perm]]
Signed(s, e) ==
    LET o == e.out
        n == e.n
        new == {g \in Range(o.file.sigs) : g.f = n}
    IN /\ o.err = ""
       /\ IF e.actual > e.reserved THEN o.serr # "" /\ st' = s
          ELSE /\ o.serr = ""
               /\ o.calls = <<"dry", "reset", "compute">>
               /\ o.file.err = "" /\ o.file.prefix = s.sha /\ o.file.len > s.len
               \* the signatures of other fields are what they were
               /\ {g \in s.sigs : g.f # n} = {g \in Sigs(o) : g.f # n}
               /\ \E g \in new :
                     /\ new = {g} /\ g.hex
                     /\ g.pos >= s.len /\ g.end - g.pos = Place(e.reserved)
                     /\ RangeOk(g.range, g.pos, g.end, o.file.len)
                     \* what was signed is what the range covers
                     /\ o.digest = g.covered /\ Sum(o.chunks) = o.file.len - Place(e.reserved)
                     /\ g.contents = o.sig
               /\ st' = [OfFile(s, o) EXCEPT !.fields = Put(s.fields, n, SigOf(s.fields, n, e)), !.sigflags = 3, !.need = FALSE]
Shown(s, o) ==
    /\ o.anchor = s.anchor /\ o.need = s.need /\ (DOMAIN s.fields # {} => o.sigflags = s.sigflags)
    /\ Len(o.fields) = Cardinality(DOMAIN s.fields)
    /\ \A i \in 1..Len(o.fields) :
          LET q == o.fields[i] IN
          q.n \in DOMAIN s.fields /\
          LET p == s.fields[q.n] IN
             [name |-> q.name, reason |-> q.reason, location |-> q.location, date |-> q.date, filter |-> q.filter, sub |-> q.sub, type |-> q.type, contents |-> q.contents, creator |-> q.creator, perm |-> q.perm]
             = [name |-> p.name, reason |-> p.reason, location |-> p.location, date |-> p.date, filter |-> p.filter, sub |-> p.sub, type |-> p.type, contents |-> p.contents, creator |-> p.creator, perm |-> p.perm]
Does(e) ==
    LET o == e.out IN
    CASE e.op = "start" -> o.err = "" /\ o.file.err = "" /\ st' = OfFile([Empty EXCEPT !.need = (e.need = 1)], o) /\ Shown(st', o.obs)
      [] e.op = "load" -> o.err = "" /\ st' = dk /\ Shown(dk, o.obs)
      [] e.op = "field" -> o.err = "" /\ o.n \notin DOMAIN st.fields /\ st' = [st EXCEPT !.fields = Put(st.fields, o.n, NoSig), !.sigflags = 3]
      [] e.op = "edit" -> o.err = "" /\ st' = [st EXCEPT !.anchor = e.v]
      [] e.op = "attr" -> Attr(st, e)
      [] e.op = "update" -> o.err = "" /\ Appended(o) /\ st.sigs = Sigs(o) /\ st' = OfFile(st, o)
      [] e.op = "sign" -> Signed(st, e)
      [] OTHER -> FALSE
Writes(e) == e.op \in {"start", "update"} \/ (e.op = "sign" /\ e.out.serr = "")
TraceNext == IsEv /\ Advance /\ Does(Ev) /\ dk' = IF Writes(Ev) THEN st' ELSE dk
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st, dk>>
=============================================================================
