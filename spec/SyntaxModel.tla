------------------------------ MODULE SyntaxModel ------------------------------
(* The grammar is unambiguous on what is spelled: reading what was written     *)
(* yields the same value, for every small value and in every neighbourhood.     *)
EXTENDS Syntax
CONSTANTS Bytes, MaxLen, Wide
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
VARIABLES v, w
Nums == {[t |-> "int", v |-> <<49, 50>>], [t |-> "int", v |-> <<45, 55>>], [t |-> "real", v |-> <<48, 46, 53, 48, 48, 48, 48, 48>>],
         [t |-> "ref", r |-> <<<<51>>, <<48>>>>], [t |-> "null"], [t |-> "true"], [t |-> "false"]}
Strs == {[t |-> "str", s |-> s, hex |-> h] : s \in Seqs(Bytes, MaxLen), h \in BOOLEAN}
Names == {[t |-> "name", n |-> s] : s \in Seqs(Bytes \ {0}, IF MaxLen > 3 THEN 3 ELSE MaxLen)}
Atoms == Nums \cup Strs \cup Names
Few == Nums \cup {[t |-> "str", s |-> <<>>, hex |-> TRUE], [t |-> "str", s |-> <<40>>, hex |-> FALSE], [t |-> "name", n |-> <<>>], [t |-> "name", n |-> <<65>>]}
Arrs == {[t |-> "arr", a |-> s] : s \in Seqs(Few, Wide)}
Init == v \in Atoms \cup Arrs /\ w \in Few
Next == UNCHANGED <<v, w>>
Spec == Init /\ [][Next]_<<v, w>>
RoundTrip == Parse(Spell(v), TRUE) = <<v>>
Separate == Parse(Spell(v) \o Spell(w), TRUE) = <<v, w>> /\ Parse(Spell(w) \o Spell(v), TRUE) = <<w, v>>
=============================================================================
