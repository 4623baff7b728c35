---------------------------- MODULE TraceVoroPred ----------------------------
EXTENDS VoroPred, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<sites, now, tid, l>>
Init == tid \in 1..Len(Traces) /\ l = 1 /\ sites = <<>> /\ now = <<>>
Ev == Traces[tid].ev[l]
Bool(b) == IF b THEN 1 ELSE 0
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED <<tid, sites>>
  /\ now' = (IF Ev.a # "SiteFirst" THEN now ELSE IF Ev.r = 1 THEN <<Ev.s.p[1], 0>> ELSE Ev.l)
  /\ LET e == Ev IN
     \/ e.a = "Turn" /\ e.r = Turn(e.s[1], e.s[2], e.s[3])
     \/ e.a = "Cross" /\ (CrossOK(e.s[1], e.s[2], e.v, e.r) = TRUE)
     \/ e.a = "SiteLess" /\ e.r = Bool(SiteLess(e.s, e.t))
     \/ e.a = "SiteFirst" /\ (SiteFirstOK(e.s, e.l, e.r) = TRUE) /\ (NotPast(now') = TRUE)
     \/ e.a = "CircleLess" /\ e.r = Bool(CircleLess(e.c, e.d))
     \/ e.a = "Above" /\ (AboveOK(e.s, e.t, e.z, e.r) = TRUE)
     \/ e.a = "Circle" /\ (CircleOK(e.s, e.t, e.u, e.r, e.c, e.b = 1) = TRUE) /\ ((e.b = 1 /\ e.r = 1) => NotPast(<<e.c[5], e.c[6]>>) = TRUE)
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
