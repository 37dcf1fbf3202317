----------------------------- MODULE CipherTrace -----------------------------
(* Data sealed for an object of any number and generation: the reader of the   *)
(* standard opens it with the key that belongs to this number and generation,  *)
(* the library opens it itself, whole and as a stream, and its length is the    *)
(* one that is announced.                                                       *)
EXTENDS TraceBase
VARIABLE alg
TraceInit == TBInit /\ alg = ""
Aes(a) == a \notin {"RC4V1", "RC4V2"}
Sealed(a, n) == IF Aes(a) THEN 16 + 16 * (n \div 16 + 1) ELSE n
Ok(e) ==
    CASE e.op = "make" ->
            /\ e.out.err = "" /\ e.out.auth
            /\ e.out.role = "user" /\ e.out.alg = e.alg
            /\ e.out.bits = (IF e.alg = "RC4V1" THEN 40 ELSE IF e.alg = "RC4V2" THEN e.len ELSE IF e.alg = "AESV2" THEN 128 ELSE 256)
            /\ alg' = e.alg
      [] e.op = "seal" ->
            /\ e.out.err = ""
            /\ e.out.read = e.x
            /\ e.out.back = e.x
            /\ e.out.streamed = e.x
            /\ e.out.len = e.out.size
            /\ (Len(e.x) > 0 => e.out.len = Sealed(alg, Len(e.x) \div 2))
            /\ UNCHANGED alg
      [] OTHER -> FALSE
TraceNext == IsEv /\ Advance /\ Ok(Ev)
TraceSpec == TraceInit /\ [][TraceNext]_<<tvars, alg>>
=============================================================================
