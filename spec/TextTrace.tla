------------------------------ MODULE TextTrace ------------------------------
EXTENDS Text, TraceBase
TraceInit == TBInit
Obj1(b) == LET s == Parse(b, FALSE) IN IF Len(s) = 1 THEN s[1] ELSE ErrV
Written(b, txt) == LET o == Obj1(b) IN o.t = "str" /\ Decode(o.s) = txt
\* o: out of an operation on a string: text it gives before and after, bytes it writes
Str(o, txt) ==
    txt # None =>
      /\ o.err = ""
      /\ o.get = Utf8Text(txt)
      /\ Written(o.w1, txt) /\ Written(o.w2, txt)
Ops == {"mk", "raw", "name", "rawname", "doc", "eq"}
Ok(e) ==
    CASE e.op = "mk" -> Str(e.out, e.cp)
      [] e.op = "raw" -> Str(e.out, Decode(e.b))
      [] e.op = "name" ->
            IF InDoc(e.cp) /\ ~\E i \in 1..Len(e.cp) : e.cp[i] = 0
            THEN /\ e.out.err = "" /\ e.out.get = Utf8Text(e.cp) /\ e.out.raw = DocEnc(e.cp) /\ e.out.key
                 /\ Obj1(e.out.w) = [t |-> "name", n |-> DocEnc(e.cp)]
            ELSE TRUE
      [] e.op = "rawname" ->
            (\E i \in 1..Len(e.b) : e.b[i] = 0)
            \/ /\ e.out.err = "" /\ e.out.raw = e.b
               /\ Obj1(e.out.w) = [t |-> "name", n |-> e.b]
               /\ DecodeName(e.b) # None => e.out.get = Utf8Text(DecodeName(e.b))
      [] e.op = "doc" ->
            /\ e.out.err = ""
            /\ \A i \in 1..Len(e.items) :
                  LET x == e.items[i]
                      txt == IF x.k = "cp" THEN x.cp ELSE Decode(x.b)
                  IN txt # None => e.out.get[i] = Utf8Text(txt)
      [] e.op = "eq" ->
            e.out.err = "" /\ (e.out.eq <=> e.cp = e.cp2) /\ (e.out.ne <=> e.cp # e.cp2)
            /\ (e.out.veq <=> e.cp = e.cp2) /\ e.out.req
TraceNext == IsEv /\ Advance /\ Ev.op \in Ops /\ Ok(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
