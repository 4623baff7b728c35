---------------------------- MODULE TraceAlgebra ----------------------------
EXTENDS Algebra, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<iv, pt, rc, sg, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ iv = <<>> /\ pt = <<>> /\ rc = <<>> /\ sg = <<>>
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Load" /\ iv' = e.iv /\ pt' = e.pt /\ rc' = e.rc /\ sg' = e.sg
     \/ e.a = "IA" /\ (IAsk(e.op, iv[e.i], iv[e.j], e.v, e.t, e.d, e.r) = TRUE) /\ UNCHANGED avars
     \/ e.a = "ID" /\ (IDo(e.op, iv[e.i], iv[e.j], e.v, e.w, e.t, e.d, e.n, e.r) = TRUE)
                   /\ iv' = [iv EXCEPT ![e.i] = e.n] /\ UNCHANGED <<pt, rc, sg>>
     \/ e.a = "PA" /\ (PAsk(e.op, pt[e.i], pt[e.j], e.o, e.k, e.r) = TRUE) /\ UNCHANGED avars
     \/ e.a = "PD" /\ (PDo(e.op, pt[e.i], pt[e.j], e.v, e.w, e.o, e.n) = TRUE)
                   /\ pt' = [pt EXCEPT ![e.i] = e.n] /\ UNCHANGED <<iv, rc, sg>>
     \/ e.a = "RA" /\ (RAsk(e.op, rc[e.i], rc[e.j], pt[e.p], e.o, e.d, e.t, e.k, e.r) = TRUE) /\ UNCHANGED avars
     \/ e.a = "RD" /\ (RDo(e.op, rc[e.i], rc[e.j], iv[e.q], pt[e.p], pt[e.q], e.v, e.w, e.o, e.d, e.t, e.n, e.r) = TRUE)
                   /\ rc' = [rc EXCEPT ![e.i] = e.n] /\ UNCHANGED <<iv, pt, sg>>
     \/ e.a = "SA" /\ (SAsk(e.op, sg[e.i], sg[e.j], pt[e.p], e.d, e.t, e.k, e.r) = TRUE) /\ UNCHANGED avars
     \/ e.a = "SD" /\ (SDo(e.op, sg[e.i], sg[e.j], pt[e.p], pt[e.q], e.v, e.o, e.d, e.x, e.n) = TRUE)
                   /\ sg' = [sg EXCEPT ![e.i] = e.n] /\ UNCHANGED <<iv, pt, rc>>
     \/ e.a = "Dir" /\ (DirOK(e.f) = TRUE) /\ UNCHANGED avars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
