------------------------------ MODULE TraceNum ------------------------------
EXTENDS Num, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<reg, flt, dif, rf, tid, l>>
Z4(z) == [i \in 1..4 |-> z]
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ reg = Z4(BZero) /\ flt = Z4(<<BZero, 0>>) /\ dif = Z4(BZero) /\ rf = Z4(<<BZero, <<1, 1>>>>)
Ev == Traces[tid].ev[l]
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "ISet" /\ (Words(e.v, e.c) = TRUE) /\ e.r = e.v /\ reg' = [reg EXCEPT ![e.k] = e.v] /\ UNCHANGED <<flt, dif, rf>>
     \/ e.a = "IOp" /\ (e.r = IOp(e.op, reg[e.i], reg[e.j])) /\ (Words(e.r, e.c) = TRUE)
                    /\ reg' = [reg EXCEPT ![e.k] = e.r] /\ UNCHANGED <<flt, dif, rf>>
     \/ e.a = "ICmp" /\ (e.r = ICmp(reg[e.i], reg[e.j])) /\ (e.s = ISgn(reg[e.i])) /\ UNCHANGED nvars
     \/ e.a = "IFp" /\ (FOfInt(reg[e.i], <<e.m, e.x>>) = TRUE) /\ UNCHANGED nvars
     \/ e.a = "FSet" /\ (FSame(<<e.m, e.x>>, <<e.vm, e.vx>>) = TRUE) /\ flt' = [flt EXCEPT ![e.k] = <<e.m, e.x>>] /\ UNCHANGED <<reg, dif, rf>>
     \/ e.a = "FOp" /\ (FOp(e.op, flt[e.i], flt[e.j], <<e.m, e.x>>) = TRUE)
                    /\ flt' = [flt EXCEPT ![e.k] = <<e.m, e.x>>] /\ UNCHANGED <<reg, dif, rf>>
     \/ e.a = "FAsk" /\ (e.s = ISgn(flt[e.i][1])) /\ (FSame(<<e.m, e.x>>, flt[e.i]) = TRUE) /\ UNCHANGED nvars
     \/ e.a = "Ulp" /\ (Ulp(e.x, e.y, e.u, e.r) = TRUE) /\ UNCHANGED nvars
     \/ e.a = "DOp" /\ LET v == DOp(e.op, dif[e.i], IF e.j = 0 THEN e.v ELSE dif[e.j]) IN
                       (DOK(v, e.p, e.n) = TRUE) /\ e.d = v /\ dif' = [dif EXCEPT ![e.k] = v] /\ UNCHANGED <<reg, flt, rf>>
     \/ e.a = "DDiv" /\ (DDiv(dif[e.i], e.v, e.p, e.n) = TRUE) /\ dif' = [dif EXCEPT ![e.k] = BSub(e.p, e.n)] /\ UNCHANGED <<reg, flt, rf>>
     \/ e.a = "Sqrt" /\ (SqrtSum(e.A, e.B, e.R, e.w, <<e.m, e.x>>, e.z = 1) = TRUE) /\ UNCHANGED nvars
     \/ e.a = "RSet" /\ (QOK(e.q, <<e.m, e.x>>, <<e.rm, e.rx>>) = TRUE) /\ rf' = [rf EXCEPT ![e.k] = e.q] /\ UNCHANGED <<reg, flt, dif>>
     \/ e.a = "ROp" /\ LET q == TLCEval(QOp(e.op, rf[e.i], rf[e.j])) IN
                       (QOK(q, <<e.m, e.x>>, <<e.rm, e.rx>>) = TRUE) /\ rf' = [rf EXCEPT ![e.k] = q] /\ UNCHANGED <<reg, flt, dif>>
     \/ e.a = "RSqrt" /\ (QOK(rf[e.i], <<BSq(e.m), 2 * e.x>>, <<e.rm, e.rx + 1>>) = TRUE) /\ UNCHANGED nvars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
