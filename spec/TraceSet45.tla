------------------------------ MODULE TraceSet45 ------------------------------
EXTENDS Set45Metric, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l
tvars == <<n, cnt, grid, tid, l>>
Init == /\ tid \in 1..Len(Traces) /\ l = 1
        /\ n = Traces[tid].n /\ grid = Traces[tid].grid
        /\ cnt = [r \in 1..Traces[tid].K |-> TZero(Traces[tid].n)]
Ev == Traces[tid].ev[l]
Observed(e, r) == Seen(e.o, Bit(cnt'[r])) = TRUE
Edges(e) == {<<e.g[i][1], e.g[i][2]>> : i \in 1..Len(e.g)}
Step ==
  /\ l <= Len(Traces[tid].ev) /\ l' = l + 1 /\ UNCHANGED tid
  /\ LET e == Ev IN
     \/ e.a = "Ins"     /\ Insert(e.r, e.s, IF e.h = 1 THEN -1 ELSE 1) /\ Observed(e, e.r)
     \/ e.a = "Bin"     /\ Boolean(e.r, e.op, e.x, e.y)  /\ Observed(e, e.r)
     \/ e.a = "BinA"    /\ BoolAssign(e.r, e.op, e.y)    /\ Observed(e, e.r)
     \/ e.a = "Set"     /\ SetTo(e.r, e.x)                /\ Observed(e, e.r)
     \/ e.a = "Asg"     /\ Evaluate(e.r, e.x)             /\ Observed(e, e.r)
     \/ e.a = "Copy"    /\ Copy(e.r, e.s)                /\ Observed(e, e.r)
     \/ e.a = "Clear"   /\ Clear(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "Clean"   /\ Clean(e.r)                    /\ Observed(e, e.r)
     \/ e.a = "SelfInt" /\ SelfIntersect(e.r)            /\ Observed(e, e.r)
     \/ e.a = "SelfXor" /\ SelfXor(e.r)                  /\ Observed(e, e.r)
     \/ e.a = "Err"     /\ ((e.res = 1) = OffGrid(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Form"    /\ FormOK(e.o, RegionOf(e.x)) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Traps"   /\ TrapOK(e.o, RegionOf(e.x), e.ori = 1) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Eq"      /\ ((e.res = 1) = (RegionOf(e.x) = RegionOf(e.y)) /\ e.res + e.neg = 1) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Empty"   /\ ((e.res = 1) = IsEmpty(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Ext"     /\ (LET f == RegionOf(e.x) IN IF IsEmpty(f) THEN e.res = 0 ELSE (e.res = 1 /\ e.v = Extents(f))) = TRUE
                        /\ UNCHANGED mvars
     \/ e.a = "Area"    /\ (e.res = CellArea(RegionOf(e.x))) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Interact" /\ Put(e.r, Interact(Region(e.r), RegionOf(e.y))) /\ Observed(e, e.r)
     \/ e.a = "Conn"    /\ (Edges(e) = ConnGraph([i \in 1..Len(e.s) |-> Bit(TShape(n, e.s[i], cnt))])) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Merge"   /\ MergeOK(e.ins, e.out) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Resize"  /\ (SourceOK(e.src, Region(e.r)) = TRUE) /\ (\E all \in BOOLEAN : Resize(e.r, e.src, e.d, e.rnd, e.cor, all)) /\ Observed(e, e.r)
     \/ e.a = "InsSz"   /\ (SourceOK(e.src, RegionOf(e.s)) = TRUE) /\ (\E all \in BOOLEAN : InsertSized(e.r, e.src.v, e.d, e.rnd, e.cor, e.h, all)) /\ Observed(e, e.r)
     \/ e.a = "GrowAnd" /\ (SourceOK(e.src, Region(e.r)) = TRUE) /\ GrowAnd(e.r, e.src, e.d) /\ Observed(e, e.r)
     \/ e.a = "Map"     /\ Image(e.r, e.v) /\ Observed(e, e.r)
     \/ e.a = "Keep"    /\ Keep(e.r, e.q) /\ Observed(e, e.r)
     \/ e.a = "See"     /\ Seen(e.o, Region(e.r)) = TRUE /\ UNCHANGED mvars
     \/ e.a = "Manh"    /\ ((e.res = 1) => Rectilinear(Region(e.r))) = TRUE /\ UNCHANGED mvars
Done == l > Len(Traces[tid].ev) /\ UNCHANGED tvars
Next == Step \/ Done
Spec == Init /\ [][Next]_tvars
View == <<tid, l>>
=============================================================================
