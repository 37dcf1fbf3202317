---------------------------- MODULE FontTextTrace ----------------------------
(* Text written with fonts is the text which is read from their strings: at    *)
(* once, after more text, from the saved file by the library, and by the CMaps *)
(* in the file on their own.                                                   *)
EXTENDS Codes, TraceBase
\* of every font the texts which were written and their strings
VARIABLES st
TraceInit == TBInit /\ st = <<>>
Plain(x) == \A i \in 1..Len(x) : x[i] \in 32..126
ReadsAs(f, o) == Len(o) = Len(f) /\ \A i \in 1..Len(f) : o[i] = f[i].text
\* what the file says of a font
Filed(f, o) ==
    /\ o.uni # <<>> =>
          /\ \A i \in 1..Len(f) : Text(CMap(o.uni), f[i].bytes) = f[i].text /\ Whole(CMap(o.uni), f[i].bytes)
          /\ PrefixFree(DOMAIN MapOf(o.uni))
    /\ \A m \in {o.uni, o.cid} :
          LET spaces == {m[i] : i \in {j \in 1..Len(m) : m[j].k = "space"}} IN
          /\ m # <<>> => o.counts
          /\ \A c \in DOMAIN MapOf(m) : \E sp \in spaces : InSpace(c, sp)
    \* every code which is shown has an identifier. The font of a file which was
    \* read again has the glyphs of the text which the file had
    /\ (o.cid # <<>> => \A i \in 1..Len(f) : f[i].own => Whole(CMap(o.cid), f[i].bytes))
Does(e) ==
    CASE e.op = "start" -> e.out.err = "" /\ st' = [i \in 1..Len(e.fonts) |-> <<>>]
      [] e.op = "write" ->
            /\ e.out.err = ""
            /\ (Plain(e.cps) /\ e.must) => e.out.ok
            /\ st' = (IF e.out.ok THEN [st EXCEPT ![e.f + 1] = Append(@, [text |-> e.cps, bytes |-> e.out.bytes, own |-> e.must])] ELSE st)
            /\ e.out.ok => ReadsAs(st'[e.f + 1], e.out.all)
      [] e.op = "reload" ->
            /\ e.out.err = "" /\ UNCHANGED st /\ Len(e.out.fonts) = Len(st)
            /\ \A i \in 1..Len(st) : ReadsAs(st[i], e.out.fonts[i].all) /\ Filed(st[i], e.out.fonts[i])
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
