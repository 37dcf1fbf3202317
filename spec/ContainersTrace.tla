-------------------------- MODULE ContainersTrace --------------------------
EXTENDS Containers, TraceBase
VARIABLE m
TraceInit == TBInit /\ m = <<>>

Start == /\ Ev.op = "init" /\ Ev.out.err = "" /\ Ev.out.sound /\ Ev.out.st = Saved(Ev.st) /\ m' = Saved(Ev.st)

Mutate ==
    /\ Ev.op \in Mutators
    /\ Ev.out.sound
    /\ \E r \in Results(m, Ev) :
          IF r.err THEN Ev.out.err # "" /\ Ev.out.st = m /\ m' = m
          ELSE Ev.out.err = "" /\ Ev.out.ret /\ Ev.out.st = r.m /\ m' = r.m

\* what a location holds after an incremental save and loading the result is what it held before
Reload == Ev.op = "reload" /\ Ev.out.err = "" /\ Ev.out.sound /\ Ev.out.st = Saved(m) /\ m' = Saved(m)

\* x: what an accessor gave: [v |-> value] or Nothing or Error
Says(x, f) == IF IsV(f) THEN "v" \in DOMAIN x /\ x.v = Bare(f.v) ELSE x = f
Must(x, f) == IF IsV(f) THEN "v" \in DOMAIN x /\ x.v = Bare(f.v) ELSE x = Error
GetOf(v, k) == IF Has(v, k) THEN [v |-> Sub(v, k)] ELSE IF IsDict(v) THEN Nothing ELSE Error
Find ==
    /\ Ev.op = "find"
    /\ Ev.out.err = ""
    /\ LET c == Val(m, Ev.t)
           f == Found(m, Ev.t, Ev.k)
       IN /\ Says(Ev.out.get, GetOf(c, Ev.k)) /\ Must(Ev.out.mget, GetOf(c, Ev.k))
          /\ Says(Ev.out.find, f) /\ Must(Ev.out.mfind, f)
          /\ Ev.out.has = Has(c, Ev.k)
          /\ IsDict(c) => Says(Ev.out.up, Lookup(m, Ev.t, Ev.k)) /\ Must(Ev.out.mup, Lookup(m, Ev.t, Ev.k))
    /\ m' = m

\* typed access; strict: a value of another type is an error, safe: the default given
AsOr(T, f, miss, other) == IF f = Error THEN "E" ELSE IF f = Nothing THEN miss ELSE IF As(T, f.v) = "E" THEN other ELSE As(T, f.v)
TypedGet ==
    /\ Ev.op = "typed"
    /\ Ev.out.err = ""
    /\ LET c == Val(m, Ev.t)
           f == Found(m, Ev.t, Ev.k)
           g == GetOf(c, Ev.k)
       IN \A T \in Types :
             LET x == Ev.out.as[T] IN
             /\ x.find = AsOr(T, f, "def", "E") /\ x.findsafe = AsOr(T, f, "def", "def") /\ x.tryfind = AsOr(T, f, "no", "no")
             /\ x.get = AsOr(T, g, "def", "E")
             /\ IsArr(c) => x.getsafe = AsOr(T, g, "def", "def") /\ x.tryget = AsOr(T, g, "no", "no")
             /\ IsDict(c) => LET u == Lookup(m, Ev.t, Ev.k) IN
                   x.up = AsOr(T, u, "def", "E") /\ x.upsafe = AsOr(T, u, "def", "def") /\ x.tryup = AsOr(T, u, "no", "no")
    /\ m' = m
Scalar ==
    /\ Ev.op = "scalar" /\ Ev.out.err = ""
    /\ \A T \in Types \cup {"lenient", "strict"} : Ev.out.as[T] = As(T, Val(m, Ev.t)) /\ Ev.out.tries[T] = As(T, Val(m, Ev.t))
    /\ Ev.out.kind = Kind(Val(m, Ev.t))
    /\ m' = m

\* all the elements, with references followed where they can be
Resolved(L, v) == IF IsRef(v) /\ InDoc(L) /\ v.r \in DocSlots THEN Bare(m[v.r]) ELSE v
Iterate ==
    /\ Ev.op = "iter" /\ Ev.out.err = ""
    /\ LET c == Val(m, Ev.t) IN
       IF IsArr(c) THEN /\ Ev.out.all = [i \in 1..Len(c.a) |-> Resolved(Ev.t, c.a[i])]
                        /\ Ev.out.call = Ev.out.all
                        /\ Ev.out.back = [i \in 1..Len(c.a) |-> c.a[Len(c.a) + 1 - i]]
                        /\ Ev.out.n = Len(c.a) /\ Ev.out.ends
       ELSE /\ DOMAIN Ev.out.all = DOMAIN c.d /\ \A k \in DOMAIN c.d : Ev.out.all[k] = Resolved(Ev.t, c.d[k])
            /\ Ev.out.call = Ev.out.all
            /\ Ev.out.n = Cardinality(DOMAIN c.d)
    /\ m' = m
Equal ==
    /\ Ev.op = "eq" /\ Ev.out.err = ""
    /\ LET va == Val(m, Ev.t) vb == Val(m, Ev.t2) IN
       /\ Ev.out.eq = Same(m, Ev.t, Ev.t2) /\ Ev.out.ne = ~Ev.out.eq
       /\ Ev.out.veq = (va = vb) /\ Ev.out.vne = ~Ev.out.veq
       /\ Ev.out.ceq = (va = vb) /\ Ev.out.cne = ~Ev.out.ceq
    /\ m' = m

TraceNext == IsEv /\ Advance /\ (Start \/ Mutate \/ Reload \/ Find \/ TypedGet \/ Scalar \/ Iterate \/ Equal)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, m>>
=============================================================================
