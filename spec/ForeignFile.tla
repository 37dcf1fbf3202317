----------------------------- MODULE ForeignFile -----------------------------
(* What a file of any producer defines (ISO 32000 7.5.4 to 7.5.8): the sections *)
(* newest first, each with a table and, if hybrid, a stream of further entries;  *)
(*   entry = <<number, 0 free | 1 in use | 2 compressed, generation, body>>      *)
(* the newest section that knows a number decides, the table before the stream;  *)
(* bodies that only carry the structure of the file are marked infra.            *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Infra == [s |-> "infra"]
FRef(n, g) == ToString(n) \o " " \o ToString(g)

EntriesOf(q) == {q[i] : i \in 1..Len(q)}
Numbers(E) == {x[1] : x \in E}
RECURSIVE Newest(_, _, _)
\* revs: newest first; acc: entries decided so far
Newest(revs, i, acc) ==
    IF i > Len(revs) THEN acc
    ELSE LET t == {x \in EntriesOf(revs[i].tab) : x[1] \notin Numbers(acc)}
             a == acc \cup t
             m == {x \in EntriesOf(revs[i].stm) : x[1] \notin Numbers(a)}
         IN Newest(revs, i + 1, a \cup m)

Content(revs, bodies) ==
    LET win  == Newest(revs, 1, {})
        live == {x \in win : x[2] # 0}
        user == {x \in live : bodies[x[4]] # Infra}
        pick(r) == CHOOSE x \in user : FRef(x[1], x[3]) = r
        all  == UNION {EntriesOf(revs[i].tab) \cup EntriesOf(revs[i].stm) : i \in 1..Len(revs)}
    IN [objs  |-> [r \in {FRef(x[1], x[3]) : x \in user} |-> bodies[pick(r)[4]]],
        infra |-> {FRef(x[1], x[3]) : x \in live \ user},
        \* a free entry carries the generation the number may have next
        used  |-> {<<x[1], x[3]>> : x \in {y \in all : y[2] # 0}} \cup {<<x[1], x[3] - 1>> : x \in {y \in all : y[2] = 0 /\ y[3] > 0}}]
=============================================================================
