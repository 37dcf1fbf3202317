------------------------------ MODULE PainterModel ------------------------------
(* Closed model of the painter: what it remembers decides what it leaves out, and *)
(* what is left out must not matter.  Each call is interpreted in full by the      *)
(* machine m (what was asked for) while the painter emits operators lazily: the    *)
(* graphics state is written when it differs from the remembered one, the text     *)
(* state with the next text, both follow Save and Restore; sessions are wrapped.   *)
EXTENDS Painter, TLC
CONSTANTS MaxCalls, MaxSessions
VARIABLES m, asked, g, txt, wr, stack, pats, tmp, file, n, sess, wrap
vars == <<m, asked, g, txt, wr, stack, pats, tmp, file, n, sess, wrap>>
\* asked: the marks of earlier sessions; g: line width and fill remembered; txt, wr: text state wanted and written; file: the contents so far
T0 == [font |-> 0, cs |-> 0]
Init == m = M0 /\ asked = <<>> /\ g = [lw |-> 1000, fill |-> Black] /\ txt = T0 /\ wr = T0 /\ stack = <<>> /\ pats = FALSE /\ tmp = <<>> /\ file = <<>> /\ n = 0 /\ sess = 0 /\ wrap = TRUE
Font(f) == [Op("Tf", <<1000>>) EXCEPT !.r = f]
Tc(v) == Op("Tc", <<v>>)
Do(ops) == m' = Steps(m, ops)
Emit(ops) == tmp' = tmp \o ops
Counted == n < MaxCalls /\ n' = n + 1 /\ UNCHANGED <<asked, file, sess, wrap>>
Width(v) == ~m.text /\ Do(<<Op("w", <<v>>)>>) /\ Emit(IF g.lw = v THEN <<>> ELSE <<Op("w", <<v>>)>>) /\ g' = [g EXCEPT !.lw = v] /\ UNCHANGED <<txt, wr, stack, pats>>
Fill(v) ==
    LET op == Op("g", <<v>>) IN
    Do(<<op>>) /\ Emit(IF g.fill.n = <<v>> /\ ~pats THEN <<>> ELSE <<op>>) /\ g' = [g EXCEPT !.fill = Color("gray", <<v>>, "")] /\ pats' = FALSE /\ UNCHANGED <<txt, wr, stack>>
Pattern ==
    LET ops == <<[Op("cs", <<>>) EXCEPT !.s = "Pattern"], [Op("scn", <<>>) EXCEPT !.s = "P"]>> IN
    Do(ops) /\ Emit(ops) /\ pats' = TRUE /\ UNCHANGED <<g, txt, wr, stack>>
\* the text state is asked for at once, written with the text
SetFont(f) == txt.font # f /\ Do(<<Font(f)>>) /\ txt' = [txt EXCEPT !.font = f] /\ Emit(IF m.text THEN <<Font(f)>> ELSE <<>>) /\ UNCHANGED <<g, wr, stack, pats>>
SetCs(v) == txt.cs # v /\ Do(<<Tc(v)>>) /\ txt' = [txt EXCEPT !.cs = v] /\ Emit(IF m.text THEN <<Tc(v)>> ELSE <<>>) /\ wr' = (IF m.text THEN [wr EXCEPT !.cs = v] ELSE wr) /\ UNCHANGED <<g, stack, pats>>
TextState == (IF txt.font # 0 THEN <<Font(txt.font)>> ELSE <<>>) \o (IF txt.cs # wr.cs THEN <<Tc(txt.cs)>> ELSE <<>>)
Begin == ~m.text /\ Do(<<Op("BT", <<>>), Op("Td", <<1, 1>>)>>) /\ Emit(<<Op("BT", <<>>)>> \o TextState \o <<Op("Td", <<1, 1>>)>>) /\ wr' = [wr EXCEPT !.cs = txt.cs] /\ UNCHANGED <<g, txt, stack, pats>>
Show == m.text /\ txt.font # 0 /\ LET op == [Op("Tj", <<>>) EXCEPT !.b = <<65>>] IN Do(<<op>>) /\ Emit(<<op>>) /\ UNCHANGED <<g, txt, wr, stack, pats>>
Draw ==
    /\ ~m.text /\ txt.font # 0
    /\ LET tj == [Op("Tj", <<>>) EXCEPT !.b = <<66>>]
           td == Op("Td", <<1, 1>>)
       IN Do(<<Op("BT", <<>>), td, tj, Op("ET", <<>>)>>) /\ Emit(<<Op("BT", <<>>)>> \o TextState \o <<td, tj, Op("ET", <<>>)>>)
    /\ wr' = [wr EXCEPT !.cs = txt.cs] /\ UNCHANGED <<g, txt, stack, pats>>
End == m.text /\ Do(<<Op("ET", <<>>)>>) /\ Emit(<<Op("ET", <<>>)>>) /\ UNCHANGED <<g, txt, wr, stack, pats>>
Rect == ~m.text /\ LET ops == <<Op("re", <<1, 1, 2, 2>>), Op("f", <<>>)>> IN Do(ops) /\ Emit(ops) /\ UNCHANGED <<g, txt, wr, stack, pats>>
Save == ~m.text /\ Len(stack) < 2 /\ Do(<<Op("q", <<>>)>>) /\ Emit(<<Op("q", <<>>)>>) /\ stack' = Append(stack, [g |-> g, txt |-> txt, wr |-> wr, pats |-> pats]) /\ UNCHANGED <<g, txt, wr, pats>>
Restore ==
    /\ ~m.text /\ stack # <<>>
    /\ LET s == Last(stack) IN g' = s.g /\ txt' = s.txt /\ wr' = s.wr /\ pats' = s.pats
    /\ Do(<<Op("Q", <<>>)>>) /\ Emit(<<Op("Q", <<>>)>>) /\ stack' = Front(stack)
\* a session ends: what was there is wrapped, unless that was not wanted and nothing leaks, what is new is wrapped if wanted
Finish(prior, own) ==
    /\ ~m.text /\ stack = <<>> /\ sess < MaxSessions /\ n > 0
    /\ ~prior => wrap
    /\ file' = (IF prior /\ file # <<>> THEN <<Op("q", <<>>)>> \o file \o <<Op("Q", <<>>)>> ELSE file) \o (IF own THEN <<Op("q", <<>>)>> \o tmp \o <<Op("Q", <<>>)>> ELSE tmp)
    /\ wrap' = own
    /\ asked' = asked \o m.marks /\ m' = [M0 EXCEPT !.g = WithText(m.g, G0)]
    /\ g' = [lw |-> 1000, fill |-> Black] /\ wr' = T0 /\ pats' = FALSE /\ tmp' = <<>> /\ sess' = sess + 1 /\ UNCHANGED <<txt, stack, n>>
Next ==
    \/ /\ Counted
       /\ \/ \E v \in {0, 1000} : Width(v)
          \/ \E v \in {0, 1} : Fill(v)
          \/ Pattern \/ SetFont(1)
          \/ \E v \in {0, 5} : SetCs(v)
          \/ Draw \/ Begin \/ Show \/ End \/ Rect \/ Save \/ Restore
    \/ \E prior, own \in BOOLEAN : Finish(prior, own)
Spec == Init /\ [][Next]_vars
\* what was written comes to what was asked for
Written == LET f == Steps(M0, file) IN Closed(f) /\ SameMarks(f.marks, asked)
Pending == LET f == Steps(M0, tmp) IN f.bad = "" /\ SameMarks(f.marks, m.marks)
=============================================================================
