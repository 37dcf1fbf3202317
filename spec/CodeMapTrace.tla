---------------------------- MODULE CodeMapTrace ----------------------------
(* The table of codes on its own: written one by one, looked up both ways.    *)
EXTENDS Codes, TraceBase
VARIABLES st
TraceInit == TBInit /\ st = NoMap
Fits(e) == e.code # <<>> /\ e.cps # <<>>
Does(e) ==
    CASE e.op = "push" -> e.out.err = (IF Fits(e) THEN "" ELSE e.out.err) /\ (~Fits(e) => e.out.err # "") /\ st' = (IF Fits(e) THEN Lay(st, e.code, e.cps) ELSE st)
      [] e.op = "points" -> e.out.err = "" /\ UNCHANGED st /\ e.out.cps = (IF e.code \in DOMAIN st THEN st[e.code] ELSE <<>>) /\ e.out.ok = (e.code \in DOMAIN st)
      [] e.op = "code" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ IF CodesOf(st, e.cps) = {} THEN ~e.out.ok ELSE e.out.ok /\ e.out.code \in CodesOf(st, e.cps)
      [] e.op = "next" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ LET n == Longest(st, e.cps, 1) IN
               IF n = 0 THEN ~e.out.ok ELSE e.out.ok /\ e.out.used = n /\ e.out.code \in CodesOf(st, SubSeq(e.cps, 1, n))
      [] e.op = "move" -> e.out.err = "" /\ UNCHANGED st
      [] e.op = "all" ->
            /\ e.out.err = "" /\ UNCHANGED st
            /\ Len(e.out.codes) = Cardinality(DOMAIN st) /\ {e.out.codes[i] : i \in 1..Len(e.out.codes)} = DOMAIN st
            /\ DOMAIN st # {} =>
                  /\ e.out.min = Least({Len(c) : c \in DOMAIN st}) /\ e.out.max = Greatest({Len(c) : c \in DOMAIN st})
TraceNext == IsEv /\ Advance /\ Does(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
