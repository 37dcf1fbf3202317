---------------------------- MODULE ContentsModel ----------------------------
(* Every small page with forms that show each other: reading terminates, never  *)
(* enters a form twice, delivers every token of the page exactly once and in     *)
(* order, and delivers the same items of the page whether forms are followed.    *)
EXTENDS Contents
CONSTANTS MaxPage, MaxForm, Follow
Tok == {<<49>>, <<47, 65>>, <<113>>, <<68, 111>>, <<47, 65, 32, 68, 111>>, <<47, 66, 32, 68, 111>>, <<120>>, <<123>>,
        <<66, 73, 47, 76, 32, 50, 32, 73, 68, 32, 69, 69, 69, 73, 32>>}
FTok == {<<49>>, <<113>>, <<47, 65, 32, 68, 111>>, <<47, 66, 32, 68, 111>>, <<66, 73, 32, 73, 68, 32, 69, 73, 120>>}
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
VARIABLES w, page, rd, seen, out
vars == <<w, page, rd, seen, out>>
Txt(s) == Join(s)
Init ==
    /\ page \in Seqs(Tok, MaxPage)
    /\ \E a \in Seqs(FTok, MaxForm), b \in Seqs(FTok, MaxForm) :
         w = [res |-> {<<<<65>>, 1>>, <<<<66>>, 2>>},
              objs |-> <<[k |-> "form", b |-> Txt(a), res |-> {<<<<65>>, 1>>, <<<<66>>, 2>>}],
                         [k |-> "form", b |-> Txt(b), res |-> {<<<<66>>, 1>>}]>>]
    /\ rd = Reader(Txt(page), 0) /\ seen = <<>> /\ out = 0
Deliver(o) ==
    CASE o.type \in {"op", "unk"} -> o.stack \o <<[t |-> "kw", k |-> o.kw]>>
      [] o.type = "do" -> o.stack \o <<[t |-> "kw", k |-> kwDo]>>
      [] o.type = "imgdict" -> o.stack \o <<[t |-> "img", d |-> o.d]>>
      [] o.type = "imgdata" -> <<[t |-> "data", b |-> o.b]>>
      [] OTHER -> <<>>
Next ==
    /\ rd.inp # <<>>
    /\ LET s == Read(rd, w, Follow, FALSE) IN
       /\ rd' = s.rd
       /\ seen' = IF Len(rd.inp) = 1 THEN seen \o Deliver(s.o) ELSE seen
    /\ out' = out + 1
    /\ UNCHANGED <<w, page>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

NoReentry == \A i, j \in 1..Len(rd.inp) : i # j => rd.inp[i].c # rd.inp[j].c
NeverBad == ~rd.bad
\* what the page delivers, computed token by token
RECURSIVE Want(_, _)
Want(s, pend) ==
    IF s = <<>> THEN <<>>
    ELSE LET x == s[1] IN
    CASE x = <<49>> -> Want(Tail(s), Append(pend, [t |-> "int", v |-> <<49>>]))
      [] x = <<47, 65>> -> Want(Tail(s), Append(pend, [t |-> "name", n |-> <<65>>]))
      [] x \in {<<113>>, <<120>>, <<68, 111>>} -> pend \o <<[t |-> "kw", k |-> x]>> \o Want(Tail(s), <<>>)
      [] x \in {<<47, 65, 32, 68, 111>>, <<47, 66, 32, 68, 111>>} ->
            pend \o <<[t |-> "name", n |-> <<x[2]>>], [t |-> "kw", k |-> kwDo]>> \o Want(Tail(s), <<>>)
      [] x = <<123>> -> pend \o <<[t |-> "kw", k |-> <<>>]>> \o Want(Tail(s), <<>>)
      [] OTHER -> pend \o <<[t |-> "img", d |-> {<<<<76>>, [t |-> "int", v |-> <<50>>]>>}], [t |-> "data", b |-> <<69, 69>>]>> \o Want(Tail(s), <<>>)
Delivered == rd.inp = <<>> => seen = Want(page, <<>>)
Terminates == <>(rd.inp = <<>>)
=============================================================================
