---------------------------- MODULE SettingsTrace ----------------------------
EXTENDS Names, TraceBase
VARIABLES st
TraceInit == TBInit /\ st = NewSettings
Started(e) ==
    [NewSettings EXCEPT !.mode = e.mode, !.written = 14, !.prefs = IF e.prefs = 0 THEN @ ELSE With(@, "NumCopies", "Two"),
        !.exts = [k \in {e.exts[i][1] : i \in 1..Len(e.exts)} |-> <<17, e.exts[CHOOSE i \in 1..Len(e.exts) : e.exts[i][1] = k][2]>>]]
Does(e) ==
    /\ e.out.err = ""
    /\ st' = CASE e.op = "start" -> Started(e)
               [] e.op = "new" -> NewSettings
               [] e.op = "mode" -> SetMode(st, e.v)
               [] e.op = "full" -> FullScreen(st)
               [] e.op = "layout" -> SetLayout(st, e.v)
               [] e.op = "pref" -> [st EXCEPT !.prefs = With(@, e.key, e.v)]
               [] e.op = "lang" -> [st EXCEPT !.lang = e.v]
               [] e.op = "base" -> [st EXCEPT !.base = e.v]
               [] e.op = "version" -> [st EXCEPT !.version = e.v]
               [] e.op = "addext" -> AddExt(st, e.ns, e.level)
               [] e.op = "remext" -> RemoveExt(st, e.ns, e.level)
               [] e.op = "reload" -> Reloaded(st, e.how)
Shown(s, o) ==
    /\ o.version = s.version /\ o.mode = s.mode /\ o.got = Mode(s) /\ o.layout = s.layout /\ o.lang = s.lang /\ o.base = s.base
    /\ Range(o.prefs) = {<<k, s.prefs[k]>> : k \in DOMAIN s.prefs} /\ Len(o.prefs) = Cardinality(DOMAIN s.prefs)
    /\ Range(o.exts) = {<<k, s.exts[k][1], s.exts[k][2]>> : k \in DOMAIN s.exts} /\ Len(o.exts) = Cardinality(DOMAIN s.exts)
    /\ Range(o.raw) = DOMAIN s.exts
    /\ Range(o.has) = {<<k, s.exts[k][2]>> : k \in DOMAIN s.exts}
TraceNext == IsEv /\ Advance /\ Does(Ev) /\ Ev.out.oerr = "" /\ Shown(st', Ev.out.obs)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, st>>
=============================================================================
