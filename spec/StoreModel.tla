----------------------------- MODULE StoreModel -----------------------------
(* Closed system around Store: an arbitrary client, and a library that picks   *)
(* any admissible reference.  Explored exhaustively (MC_Store) and simulated   *)
(* to produce client behaviours, which are then executed by the real library.  *)
EXTENDS Store, Json, Randomization

CONSTANTS Nums, Gens, MaxSlots, Depth, Emit, SaveHows, LoadHows

VARIABLES slots, h, n, phase
mvars == <<svars, slots, h, n, phase>>

RECURSIVE SetToSeq(_)
SetToSeq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SetToSeq(S \ {x})

Rt == "1 0"
Sl(k) == "$" \o ToString(k)
SlotOf == [k \in DOMAIN slots |-> slots[k]]
LiveSlots == {k \in DOMAIN slots : slots[k] \in DOMAIN objs}

(* symbolic value (as the driver reads it) and actual value (as the state holds it) *)
Leafs == {[s |-> "1"], [s |-> "/41"], [s |-> "(00ff"]}
RefPairs == {<<[r |-> Sl(k)], [r |-> slots[k]]>> : k \in DOMAIN slots}
Vals ==
    {<<v, v>> : v \in Leafs} \cup RefPairs
    \cup {<<[a |-> <<p[1], [s |-> "1"]>>], [a |-> <<p[2], [s |-> "1"]>>]>> : p \in RefPairs}
    \cup {<<[d |-> "B" :> p[1]], [d |-> "B" :> p[2]]>> : p \in RefPairs}
NewVals == {<<[d |-> EmptyF], [d |-> EmptyF]>>, <<[s |-> "1"], [s |-> "1"]>>}
           \cup {<<[d |-> "A" :> p[1]], [d |-> "A" :> p[2]]>> : p \in RefPairs}

MInit ==
    /\ objs = (Rt :> [d |-> EmptyF]) /\ used = {<<1, 0>>}
    /\ root = [Root |-> [r |-> Rt]]
    /\ img = EmptyF /\ imgroot = EmptyF /\ imgused = {} /\ infra = {} /\ loaded = {}
    /\ enc = NoEnc /\ fenc = NoEnc
    /\ slots = <<>> /\ h = <<[op |-> "init"]>> /\ n = 0 /\ phase = "run"

Finish(x) == x \o <<[op |-> "dump"], [op |-> "save", how |-> "buffer", opts |-> "g", gc |-> FALSE],
                   [op |-> "load", how |-> "buffer"], [op |-> "dump"]>>
Log(e) == h' = IF Emit THEN Append(h, e) ELSE h

\* the number the library takes: lowest free number first, then the next one
Alloc == {<<x, g>> \in Nums \X Gens : FreshRef(x, g)}

New(v, g) ==
    /\ Len(slots) < MaxSlots
    /\ \E a \in Alloc :
        /\ DoNew([op |-> "new", v |-> v[2]], [n |-> a[1], g |-> a[2]])
        /\ slots' = Append(slots, RefStr(a[1], a[2]))
    /\ Log([op |-> "new", v |-> v[1], how |-> g, slot |-> Len(slots) + 1])
Clone(k) ==
    /\ Len(slots) < MaxSlots
    /\ \E a \in Alloc :
        /\ DoClone([ref |-> slots[k]], [n |-> a[1], g |-> a[2]])
        /\ slots' = Append(slots, RefStr(a[1], a[2]))
    /\ Log([op |-> "clone", ref |-> Sl(k), how |-> "copy", slot |-> Len(slots) + 1])
PutAt(ref, sym, key, v) ==
    /\ ref \in DOMAIN objs /\ IsDict(objs[ref])
    /\ DoPut([ref |-> ref, path |-> <<>>, k |-> key, v |-> v[2]], "")
    /\ Log([op |-> "put", ref |-> sym, path |-> <<>>, k |-> key, v |-> v[1], how |-> "copy"])
    /\ UNCHANGED slots
DelAt(ref, sym, key) ==
    /\ ref \in DOMAIN objs /\ IsDict(objs[ref])
    /\ key \in DOMAIN objs[ref].d
    /\ DoDel([ref |-> ref, path |-> <<>>, k |-> key], TRUE)
    /\ Log([op |-> "del", ref |-> sym, path |-> <<>>, k |-> key])
    /\ UNCHANGED slots
Strm(k, x) ==
    /\ slots[k] \in DOMAIN objs /\ IsDict(objs[slots[k]])
    /\ DoStream([ref |-> slots[k], xb |-> x], "")
    /\ Log([op |-> "stream", ref |-> Sl(k), x |-> x, xb |-> x, mode |-> "def"])
    /\ UNCHANGED slots
Drop(k) ==
    /\ slots[k] \in DOMAIN objs
    /\ DoRemove([ref |-> slots[k]], objs[slots[k]])
    /\ Log([op |-> "remove", ref |-> Sl(k)])
    /\ UNCHANGED slots
Gc == DoGc([op |-> "gc"], "") /\ Log([op |-> "gc"]) /\ UNCHANGED slots
\* the client reloads after writing (a document that wrote an update can not
\* write another one before it is reloaded)
Wr(o) == [err |-> "", objs |-> SavedObjs([gc |-> o]), root |-> root, alg |-> enc.alg, perm |-> enc.perm, permsok |-> TRUE, tried |-> <<>>, auth |-> <<>>]
SaveAs(how, o) ==
    /\ DoSave([op |-> "save", gc |-> o], [layout |-> [infra |-> <<>>, encs |-> <<>>], image |-> Wr(o)])
    /\ Log([op |-> "save", how |-> how, opts |-> IF o THEN "" ELSE "g", gc |-> o])
    /\ UNCHANGED slots
UpdateAs(o) ==
    /\ imgroot # EmptyF
    /\ DoUpdate([op |-> "update", gc |-> o], [prefix |-> TRUE, layout |-> [infra |-> <<>>, encs |-> <<>>], image |-> Wr(o)])
    /\ Log([op |-> "update", opts |-> IF o THEN "" ELSE "g", gc |-> o])
    /\ UNCHANGED slots
Load(how) ==
    /\ imgroot # EmptyF
    /\ DoLoad([op |-> "load"], [root |-> imgroot, enc |-> FALSE, perms |-> [i \in 1..8 |-> TRUE],
              refs |-> SetToSeq({u \in imgused : RefStr(u[1], u[2]) \in DOMAIN img})])
    /\ Log([op |-> "load", how |-> how])
    /\ UNCHANGED slots

AllKinds == {"new", "clone", "remove", "stream", "put", "putroot", "del", "gc", "write"}
\* a simulation looks at a few kinds of operations at each step, so that all are
\* equally frequent; the exhaustive exploration looks at all of them
Kinds == IF Emit THEN RandomSubset(4, AllKinds) ELSE AllKinds
Edit(K) ==
    \/ "new" \in K /\ \E v \in NewVals : New(v, "copy")
    \/ \E k \in LiveSlots : \/ "clone" \in K /\ Clone(k)
                            \/ "remove" \in K /\ Drop(k)
                            \/ "stream" \in K /\ (Strm(k, "ab") \/ Strm(k, ""))
    \/ "putroot" \in K /\ \E v \in Vals : PutAt(Rt, "$root", "X", v) \/ PutAt(Rt, "$root", "Y", v)
    \/ "put" \in K /\ \E k \in LiveSlots, v \in Vals : PutAt(slots[k], Sl(k), "A", v)
    \/ "del" \in K /\ \/ DelAt(Rt, "$root", "X") \/ DelAt(Rt, "$root", "Y")
                      \/ \E k \in LiveSlots : DelAt(slots[k], Sl(k), "A")
    \/ "gc" \in K /\ Gc
Done == n = Depth /\ Emit /\ n' = n + 1 /\ UNCHANGED <<svars, slots, h, phase>>
MNext == Done \/
    /\ n < Depth /\ n' = n + 1
    /\ IF phase = "run"
       THEN LET K == Kinds IN
            \/ Edit(K) /\ phase' = "run"
            \/ "write" \in K /\ (\E o \in BOOLEAN, w \in SaveHows : SaveAs(w, o) \/ (w = "buffer" /\ UpdateAs(o))) /\ phase' = "saved"
       ELSE (\E w \in LoadHows : Load(w)) /\ phase' = "run"
MSpec == MInit /\ [][MNext]_mvars

View == <<svars, slots, n, phase>>

(* --- properties of the design ---------------------------------------------- *)
\* what was written is what the document was
RoundTrip == phase = "saved" => img = objs /\ imgroot = root
\* nothing reachable is ever missing from a collected image, nothing else kept
ImageClosed == \A x \in Reachable(img, imgroot) : x \in DOMAIN img
\* a reference whose object is gone never designates another object
NeverReassigned ==
    [][phase = "run" =>
        \A u \in used : RefStr(u[1], u[2]) \notin DOMAIN objs => RefStr(u[1], u[2]) \notin DOMAIN objs']_mvars
\* collection removes exactly what can not be reached
CollectExact == DOMAIN Collected = {x \in DOMAIN objs : x \in Reachable(objs, root)}

EmitDone == IF (n > Depth) THEN PrintT("GEN " \o ToJson(Finish(h))) ELSE TRUE
=============================================================================