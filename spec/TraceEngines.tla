----------------------------- MODULE TraceEngines -----------------------------
(* One machine, three engines: the registers of a trace are held by the       *)
(* Manhattan, 45-degree or arbitrary-angle containers, and the specification  *)
(* does not know which.  Also Minkowski sums of such regions.                 *)
EXTENDS Set45, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<n, cnt, grid, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ n = Traces[tid].n /\ grid = Traces[tid].grid
        /\ cnt = [r \in 1..Traces[tid].K |-> TZero(Traces[tid].n)]
Ev == Traces[tid].ev[l]
Observed(e, r) == Seen(e.o, Bit(cnt'[r])) = TRUE

(* ------------------------------------------------------- Minkowski sums --- *)
(* The summands are unions of triangles of squares of side 2 (coarse          *)
(* triangles), so that every sum is a union of triangles of the machine: the  *)
(* sum of two coarse triangles of kinds k1, k2 at the origin is the octagon   *)
(* bounded by the sums of their support functions.                            *)
Dirs == {<<1, 0>>, <<0, 1>>, <<-1, 0>>, <<0, -1>>, <<1, 1>>, <<-1, 1>>, <<-1, -1>>, <<1, -1>>}
Vert(k, x, y) ==
  {<<2 * x + 1, 2 * y + 1>>} \cup
  (CASE k = 0 -> {<<2 * x, 2 * y>>, <<2 * x + 2, 2 * y>>} [] k = 1 -> {<<2 * x + 2, 2 * y>>, <<2 * x + 2, 2 * y + 2>>}
     [] k = 2 -> {<<2 * x, 2 * y + 2>>, <<2 * x + 2, 2 * y + 2>>} [] k = 3 -> {<<2 * x, 2 * y>>, <<2 * x, 2 * y + 2>>})
Dot(d, v) == d[1] * v[1] + d[2] * v[2]
Support(k, d) == SetMax({Dot(d, v) : v \in Vert(k, 0, 0)})
MinkTab == [k1 \in 0..3 |-> [k2 \in 0..3 |->
  {c \in (0..3) \X (0..3) \X (0..3) : \A d \in Dirs : \A v \in Vert(c[3], c[1], c[2]) : Dot(d, v) <= 2 * (Support(k1, d) + Support(k2, d))}]]
(* the coarse triangles of a region, by one of the triangles they consist of *)
Coarse(f) ==
  {t \in (0..(n \div 2 - 1)) \X (0..(n \div 2 - 1)) \X (0..3) :
     f[4 * ((2 * t[2] + (IF t[3] = 2 THEN 1 ELSE 0)) * n + 2 * t[1] + (IF t[3] = 1 THEN 1 ELSE 0)) + t[3]] = 1}
Sum(f, g) ==
  LET cf == TLCEval(Coarse(f)) cg == TLCEval(Coarse(g))
      \* the pairs of triangles by where their sum lies and by their kinds
      at == {<<p[1][1] + p[2][1], p[1][2] + p[2][2], p[1][3], p[2][3]>> : p \in cf \X cg}
      on == UNION {{4 * ((2 * a[2] + c[2]) * n + 2 * a[1] + c[1]) + c[3] : c \in MinkTab[a[3]][a[4]]} : a \in at}
  IN [c \in TCells(n) |-> IF c \in on THEN 1 ELSE 0]

Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Ins"     /\ Insert(e.r, e.s, IF e.h = 1 THEN -1 ELSE 1) /\ Observed(e, e.r)
     \/ e.a = "Bin"     /\ Boolean(e.r, e.op, e.x, e.y)  /\ Observed(e, e.r)
     \/ e.a = "BinA"    /\ BoolAssign(e.r, e.op, e.y)    /\ Observed(e, e.r)
     \/ e.a = "Set"     /\ SetTo(e.r, e.x)               /\ Observed(e, e.r)
     \/ e.a = "Asg"     /\ Evaluate(e.r, e.x)            /\ Observed(e, e.r)
     \/ e.a = "Copy"    /\ Copy(e.r, e.s)                /\ Observed(e, e.r)
     \/ e.a = "Clean"   /\ Clean(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "Mink"    /\ Put(e.r, Sum(RegionOf(e.x), RegionOf(e.y))) /\ Observed(e, e.r)
     \/ e.a = "Eq"      /\ ((e.res = 1) = (RegionOf(e.x) = RegionOf(e.y)) /\ e.res + e.neg = 1) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Empty"   /\ ((e.res = 1) = IsEmpty(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Area"    /\ (e.res = CellArea(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
