-------------------------------- MODULE Store --------------------------------
(* The document store of the library: indirect objects, their references, the *)
(* free list, garbage collection, and the file images a document goes through *)
(* (full save, incremental update, load).  Every public operation is one      *)
(* action Do(e, r): e is the operation with its arguments, r its response.    *)
EXTENDS Values, ForeignFile

VARIABLES
    objs,     \* [reference -> value]: the live objects of the document in memory
    used,     \* set of <<number, generation>> that were ever live (whole history)
    root,     \* what the trailer points at: [Root |-> value, Info |-> value]
    img,      \* [reference -> value]: what the newest revision of the file defines
    imgroot,
    imgused,  \* what the file knows of the history (its entries and free list)
    infra,    \* references in the file that only carry the file structure
    loaded,   \* infra of the file this document was loaded from
    enc,      \* protection of the document in memory (NoEnc: none)
    fenc      \* protection of the file

svars == <<objs, used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>

NoEnc == [alg |-> "none", user |-> <<>>, owner |-> <<>>, perm |-> 0, refs |-> <<>>]

EmptyF == [x \in {} |-> {}]

Init == /\ objs = EmptyF /\ used = {} /\ root = EmptyF
        /\ img = EmptyF /\ imgroot = EmptyF /\ imgused = {} /\ infra = {} /\ loaded = {}
        /\ enc = NoEnc /\ fenc = NoEnc

LiveNums == {u \in used : RefStr(u[1], u[2]) \in DOMAIN objs}

(* --- reachability -------------------------------------------------------- *)
RECURSIVE Closure(_, _, _)
Closure(S, todo, f) ==
    IF todo = {} THEN S
    ELSE LET new == (UNION {RefsIn(f[x]) : x \in todo}) \cap (DOMAIN f \ S)
         IN Closure(S \cup new, new, f)
Reachable(f, rt) ==
    LET s0 == (UNION {RefsIn(rt[k]) : k \in DOMAIN rt}) \cap DOMAIN f
    IN Closure(s0, s0, f)

Collected == Restrict(objs, Reachable(objs, root))

(* --- responses ------------------------------------------------------------ *)
Lookup(f, ref) == IF ref \in DOMAIN f THEN f[ref] ELSE NoneVal
(* values are compared over what a document means; the structure-only objects *)
(* of a loaded file are not part of it                                        *)
Visible(f) == Restrict(f, DOMAIN f \ loaded)
SameObjs(f, g) == LET h == Restrict(g, DOMAIN g \ loaded) IN Visible(f) = h

(* a reference may be handed out iff it never designated another object:      *)
(* its number has no live object and its generation is beyond any used one    *)
FreshRef(n, g) ==
    /\ n > 0
    /\ RefStr(n, g) \notin loaded
    /\ \A u \in used : u[1] = n => /\ u[2] < g
                                   /\ RefStr(u[1], u[2]) \notin DOMAIN objs

(* --- the operations ------------------------------------------------------- *)
DoInit(e, r) ==
    /\ objs' = r.objs /\ root' = r.root
    /\ used' = {<<r.refs[i][1], r.refs[i][2]>> : i \in 1..Len(r.refs)}
    /\ img' = EmptyF /\ imgroot' = EmptyF /\ imgused' = {} /\ infra' = {} /\ loaded' = {}
    /\ enc' = NoEnc /\ fenc' = NoEnc

DoNew(e, r) ==
    /\ FreshRef(r.n, r.g)
    /\ objs' = Put(objs, RefStr(r.n, r.g), e.v)
    /\ used' = used \cup {<<r.n, r.g>>}
    /\ UNCHANGED <<root, img, imgroot, imgused, infra, loaded, enc, fenc>>

DoClone(e, r) ==
    /\ e.ref \in DOMAIN objs
    /\ FreshRef(r.n, r.g)
    /\ objs' = Put(objs, RefStr(r.n, r.g), objs[e.ref])
    /\ used' = used \cup {<<r.n, r.g>>}
    /\ UNCHANGED <<root, img, imgroot, imgused, infra, loaded, enc, fenc>>

(* modification of the object e.ref at path e.path *)
Modify(e, w) ==
    /\ objs' = Put(objs, e.ref, SetPath(objs[e.ref], e.path, w))
    /\ UNCHANGED <<used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>
Target(e) == AtPath(objs[e.ref], e.path)
Mutable(e) == e.ref \in DOMAIN objs

DoPut(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN Modify(e, [v EXCEPT !.d = Put(@, e.k, e.v)])
DoDel(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN
         /\ r = (e.k \in DOMAIN v.d)
         /\ Modify(e, [v EXCEPT !.d = Del(@, e.k)])
DoClear(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN
         Modify(e, IF IsArr(v) THEN [v EXCEPT !.a = <<>>] ELSE [v EXCEPT !.d = EmptyF])
DoScalar(e, r) == Mutable(e) /\ Modify(e, e.v)
DoArrAdd(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN Modify(e, [v EXCEPT !.a = Append(@, e.v)])
DoArrIns(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN Modify(e, [v EXCEPT !.a = InsertSeq(@, e.i + 1, e.v)])
DoArrSet(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN Modify(e, [v EXCEPT !.a = [@ EXCEPT ![e.i + 1] = e.v]])
DoArrDel(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN Modify(e, [v EXCEPT !.a = DeleteSeq(@, e.i + 1)])
DoSetContent(e, r) ==
    /\ Mutable(e)
    /\ LET v == Target(e) IN
         Modify(e, IF IsArr(v) THEN [v EXCEPT !.a = e.v.a] ELSE [v EXCEPT !.d = e.v.d])
DoStream(e, r) ==
    /\ Mutable(e)
    /\ objs' = Put(objs, e.ref, [d |-> objs[e.ref].d, x |-> e.xb])
    /\ UNCHANGED <<used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>

DoGet(e, r) ==
    /\ (e.ref \in loaded \/ r = Lookup(objs, e.ref))
    /\ UNCHANGED svars
DoRemove(e, r) ==
    /\ r = Lookup(objs, e.ref)
    /\ objs' = Restrict(objs, DOMAIN objs \ {e.ref})
    /\ UNCHANGED <<used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>
DoReplace(e, r) ==
    /\ e.ref \in DOMAIN objs
    /\ r = objs[e.ref]
    /\ objs' = Put(objs, e.ref, e.v)
    /\ UNCHANGED <<used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>
DoGc(e, r) ==
    /\ objs' = Collected
    /\ UNCHANGED <<used, root, img, imgroot, imgused, infra, loaded, enc, fenc>>
DoCount(e, r) ==
    /\ r + 0 >= Cardinality(DOMAIN objs)
    /\ r <= Cardinality(DOMAIN objs) + Cardinality(loaded)
    /\ UNCHANGED svars
DoDump(e, r) ==
    /\ SameObjs(objs, r.objs)
    /\ r.root = root
    /\ UNCHANGED svars
DoFree(e, r) == UNCHANGED svars

(* --- protection ------------------------------------------------------------ *)
(* What the two passwords amount to is a function of the algorithm: 32 bytes,   *)
(* or 127 bytes of UTF-8 (the preparation of international text is done by the  *)
(* environment: e.user and e.owner are prepared, not yet cut).                  *)
Cut(alg, p) == LET m == IF alg \in {"AESV3", "AESV3R6"} THEN 127 ELSE 32
               IN SubSeq(p, 1, IF Len(p) < m THEN Len(p) ELSE m)
\* without an owner password the user password takes its place
OwnerOf(e) == IF e.owner = <<>> THEN e.user ELSE e.owner
Opens(c, pw) == c.alg = "none" \/ Cut(c.alg, pw) \in {Cut(c.alg, c.user), Cut(c.alg, c.owner)}
Bit(p, k) == (p \div (2 ^ k)) % 2 = 1
\* print edit copy notes fill access assembly highprint (bits 3 4 5 6 9 10 11 12)
PermBits(c) == [i \in 1..8 |-> c.alg = "none" \/ Bit(c.perm, <<2, 3, 4, 5, 8, 9, 10, 11>>[i])]

DoSetEnc(e, r) ==
    /\ enc' = IF e.alg = "none" THEN NoEnc ELSE [alg |-> e.alg, user |-> e.user, owner |-> OwnerOf(e), perm |-> e.perm, refs |-> <<>>]
    /\ UNCHANGED <<objs, used, root, img, imgroot, imgused, infra, loaded, fenc>>

(* what an independent reader makes of the written file *)
ImageOk(im, f, rt, c) ==
    /\ im.err = ""
    /\ Restrict(im.objs, DOMAIN im.objs \ loaded) = f
    /\ im.root = rt
    /\ im.alg = c.alg
    /\ c.alg # "none" =>
          /\ \A i \in (3..6) \cup (9..12) : Bit(im.perm, i - 1) = Bit(c.perm, i - 1)
          /\ im.permsok
          /\ \A i \in 1..Len(im.tried) : (im.auth[i] # "no") <=> Opens(c, im.tried[i])

(* saving collects garbage unless told otherwise *)
SavedObjs(e) == IF e.gc THEN Collected ELSE objs
Written(e, r) ==
    /\ objs' = SavedObjs(e)
    /\ img' = Visible(SavedObjs(e)) /\ imgroot' = root /\ imgused' = used /\ fenc' = Put(enc, "refs", r.layout.encs)
    /\ infra' = Range(r.layout.infra) \cup (IF e.op = "update" THEN loaded ELSE loaded \cap DOMAIN r.image.objs)
    /\ infra' \cap DOMAIN img' = {}
    /\ loaded' = loaded \cup (infra' \ Range(r.layout.encs))
    /\ ImageOk(r.image, img', imgroot', enc)
    /\ UNCHANGED <<used, root, enc>>
DoSave(e, r) == Written(e, r)
(* the update appends to the file this document was loaded from *)
DoUpdate(e, r) == r.prefix = TRUE /\ Written(e, r)
(* a file of foreign origin, whose content is known *)
DoFile(e, r) ==
    /\ LET c == Content(e.revs, e.bodies)
       IN /\ img' = c.objs /\ infra' = c.infra \cup Range(e.enc.refs)
          /\ imgused' = c.used
    /\ imgroot' = e.root /\ fenc' = e.enc
    /\ UNCHANGED <<objs, used, root, loaded, enc>>
Password(e) == IF "pw" \in DOMAIN e THEN e.pw ELSE <<>>
DoLoad(e, r) ==
    /\ Opens(fenc, Password(e))
    /\ enc' = fenc
    /\ r.enc = (fenc.alg # "none")
    /\ r.perms = PermBits(fenc)
    /\ objs' = img /\ root' = imgroot
    /\ r.root = imgroot
    /\ {RefStr(r.refs[i][1], r.refs[i][2]) : i \in 1..Len(r.refs)} \ infra = DOMAIN img
    /\ used' = imgused \cup {<<r.refs[i][1], r.refs[i][2]>> : i \in 1..Len(r.refs)}
    /\ loaded' = infra \ Range(fenc.refs)     \* the encryption dictionary is not kept
    /\ UNCHANGED <<img, imgroot, imgused, infra, fenc>>

Do(e, r) ==
    \/ e.op = "init"    /\ DoInit(e, r)
    \/ e.op = "new"     /\ DoNew(e, r)
    \/ e.op = "clone"   /\ DoClone(e, r)
    \/ e.op = "put"     /\ DoPut(e, r)
    \/ e.op = "del"     /\ DoDel(e, r)
    \/ e.op = "clear"   /\ DoClear(e, r)
    \/ e.op = "scalar"  /\ DoScalar(e, r)
    \/ e.op = "aadd"    /\ DoArrAdd(e, r)
    \/ e.op = "ains"    /\ DoArrIns(e, r)
    \/ e.op = "aset"    /\ DoArrSet(e, r)
    \/ e.op = "adel"    /\ DoArrDel(e, r)
    \/ e.op = "setc"    /\ DoSetContent(e, r)
    \/ e.op = "stream"  /\ DoStream(e, r)
    \/ e.op = "get"     /\ DoGet(e, r)
    \/ e.op = "remove"  /\ DoRemove(e, r)
    \/ e.op = "replace" /\ DoReplace(e, r)
    \/ e.op = "gc"      /\ DoGc(e, r)
    \/ e.op = "count"   /\ DoCount(e, r)
    \/ e.op = "dump"    /\ DoDump(e, r)
    \/ e.op = "free"    /\ DoFree(e, r)
    \/ e.op = "save"    /\ DoSave(e, r)
    \/ e.op = "update"  /\ DoUpdate(e, r)
    \/ e.op = "load"    /\ DoLoad(e, r)
    \/ e.op = "setenc"  /\ DoSetEnc(e, r)
    \/ e.op = "file"    /\ DoFile(e, r)

(* --- design-level properties (checked exhaustively in MCStore) ------------- *)
OneObjectPerNumber ==
    \A u, w \in LiveNums : u[1] = w[1] => u = w
LiveWereUsed == \A x \in DOMAIN objs : \E u \in used : x = RefStr(u[1], u[2])
=============================================================================
