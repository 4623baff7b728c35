------------------------------- MODULE TraceIso -------------------------------
EXTENDS Iso, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<ax, tr, sc, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ ax = [r \in 1..3 |-> Id] /\ tr = [r \in 1..3 |-> [m |-> Id, p |-> <<0, 0>>]] /\ sc = [r \in 1..3 |-> <<One, One>>]
Ev == Traces[tid].ev[l]
Q(p) == (p = TRUE) /\ UNCHANGED mvars
CmpOK(c, a, b) == c = <<B(a < b), B(a <= b), B(a > b), B(a >= b), B(a = b), B(a # b)>>
EqOK(q, a, b) == q = <<B(a = b), B(a # b), 1>>
D1OK(e) == e.r = <<e.d, 2 * e.d - 1, 1 - e.d, 1, 0>> /\ EqOK(e.eq, e.d, e.b)
O2OK(e) == e.r = <<e.d, 1 - e.d, 1 - e.d, DirOn(e.d, -1), DirOn(e.d, 1), 0>> /\ EqOK(e.eq, e.d, e.b)
D2OK(e) == LET v == Vec[e.d + 1] IN
  /\ e.r = <<e.d, DirOf(Neg(v)), DirOf(RightOf(v)), DirOf(LeftOf(v)), DirOf(LeftOf(v)), DirOf(RightOf(v)), B(SignOf(e.d) > 0), B(SignOf(e.d) < 0),
             SignOf(e.d), AxisOf(e.d), B(SignOf(e.d) > 0), 0, AxisOf(e.d), e.d, e.d>>
  /\ CmpOK(e.c, e.d, e.b)
O3OK(e) == e.r = <<e.d, DirOn(e.d, -1), DirOn(e.d, 1), 0>> /\ EqOK(e.eq, e.d, e.b)
D3OK(e) == e.r = <<e.d, DirOf(Neg(Vec[e.d + 1])), B(SignOf(e.d) > 0), B(SignOf(e.d) < 0), SignOf(e.d), AxisOf(e.d), B(SignOf(e.d) > 0), 0, e.d>>
           /\ CmpOK(e.c, e.d, e.b)
AxOf(e) ==
  CASE e.op = "make" -> Named[e.v + 1]
    [] e.op = "id" -> Id
    [] e.op = "copy" -> ax[e.i]
    [] e.op = "comp" -> Comp(ax[e.i], ax[e.j])
    [] e.op = "inv" -> Inv(ax[e.i])
    [] e.op = "dirs" -> ByDirs(e.dh, e.dv)
    [] e.op = "get" -> tr[e.i].m
AxSeen(e, m) == /\ e.m = m /\ e.hd = DirOf(<<m[1], m[2], 0>>) /\ e.vd = DirOf(<<m[3], m[4], 0>>)
                /\ e.ia = <<AxisCode(<<m[1], m[2]>>), AxisCode(<<m[3], m[4]>>)>> /\ e.rt = 1
TrOf(e) ==
  CASE e.op = "id" -> [m |-> Id, p |-> <<0, 0>>]
    [] e.op = "axis" -> [m |-> ax[e.x], p |-> <<0, 0>>]
    [] e.op = "move" -> [m |-> Id, p |-> e.p]
    [] e.op = "both" -> [m |-> ax[e.x], p |-> e.p]
    [] e.op = "about" -> About(ax[e.x], e.p, e.q)
    [] e.op = "copy" -> tr[e.i]
    [] e.op = "comp" -> TComp(tr[e.i], tr[e.j])
    [] e.op = "inv" -> TInv(tr[e.i])
    [] e.op = "setax" -> [m |-> ax[e.x], p |-> tr[e.r].p]
    [] e.op = "setp" -> [m |-> tr[e.r].m, p |-> e.p]
TrSeen(e, t) == /\ e.z = Map(t, <<0, 0>>) /\ e.m = t.m /\ e.t = t.p
                /\ e.hd = DirOf(<<t.m[1], t.m[2], 0>>) /\ e.vd = DirOf(<<t.m[3], t.m[4], 0>>)
ScOf(e) ==
  CASE e.op = "make" -> <<e.u, e.w>>
    [] e.op = "one" -> <<One, One>>
    [] e.op = "copy" -> sc[e.i]
    [] e.op = "comp" -> <<Mul(sc[e.i][1], sc[e.j][1]), Mul(sc[e.i][2], sc[e.j][2])>>
    [] e.op = "inv" -> <<RDiv(sc[e.i][1]), RDiv(sc[e.i][2])>>
    [] e.op = "axis" -> (IF ax[e.x][1] = 0 THEN <<sc[e.i][2], sc[e.i][1]>> ELSE sc[e.i])   \* follows its axis
    [] e.op = "set" -> (IF e.o = 0 THEN <<e.u, sc[e.i][2]>> ELSE <<sc[e.i][1], e.u>>)
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "D1" /\ Q(D1OK(e))
     \/ e.a = "O2" /\ Q(O2OK(e))
     \/ e.a = "D2" /\ Q(D2OK(e))
     \/ e.a = "O3" /\ Q(O3OK(e))
     \/ e.a = "D3" /\ Q(D3OK(e))
     \/ e.a = "Ax" /\ AxPut(e.r, AxOf(e)) /\ (AxSeen(e, ax'[e.r]) = TRUE)
     \/ e.a = "AxCmp" /\ Q(LET s == B(ax[e.i] = ax[e.j]) IN e.res = <<s, 1 - s, 1 - s>>)
     \/ e.a = "Tr" /\ TrPut(e.r, TrOf(e)) /\ (TrSeen(e, tr'[e.r]) = TRUE)
     \/ e.a = "Img" /\ Q(e.q = Map(tr[e.i], e.p))
     \/ e.a = "TrCmp" /\ Q(LET s == B(tr[e.i] = tr[e.j]) IN e.res = <<s, 1 - s, 1 - s>>)
     \/ e.a = "Sc" /\ ScPut(e.r, ScOf(e)) /\ (e.s = <<sc'[e.r][1], sc'[e.r][2], sc'[e.r][1], sc'[e.r][2]>>) = TRUE
     \/ e.a = "Scaled" /\ Q(e.q = <<Scale(sc[e.i][1], e.p[1]), Scale(sc[e.i][2], e.p[2])>>)
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
