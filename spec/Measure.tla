------------------------------ MODULE Measure ------------------------------
(* Polygons with holes as point sets of the plane: measures, containment and
   images.  shape is a sequence of rings, the outer boundary first, then the
   holes; a ring is a sequence of points (numbers of module Big), traversed in
   either direction from any vertex.  Rings are simple and holes lie inside the
   outer boundary, apart from it and from each other. *)
EXTENDS Big
VARIABLES shape
E01(b) == IF b THEN 1 ELSE 0
MNext(r, i) == r[(i % Len(r)) + 1]
MSub(p, q) == <<BSub(p[1], q[1]), BSub(p[2], q[2])>>
MCross(u, w) == BSub(BMul(u[1], w[2]), BMul(u[2], w[1]))
RECURSIVE MSum(_, _)
MSum(s, i) == IF i > Len(s) THEN BZero ELSE BAdd(s[i], MSum(s, i + 1))
\* twice the signed area (positive: counterclockwise), measured from the first vertex
Area2(r) == MSum(TLCEval([i \in 1..Len(r) |-> MCross(MSub(r[i], r[1]), MSub(MNext(r, i), r[1]))]), 1)
ShapeArea2 == LET a == TLCEval([k \in 1..Len(shape) |-> BAbs(Area2(shape[k]))]) IN
              BSub(a[1], MSum(SubSeq(a, 2, Len(a)), 1))
Between(a, v, b) == (BLe(a, v) /\ BLe(v, b)) \/ (BLe(b, v) /\ BLe(v, a))
OnEdge(a, b, p) == /\ Between(a[1], p[1], b[1]) /\ Between(a[2], p[2], b[2])
                   /\ BSgn(MCross(MSub(b, a), MSub(p, a))) = 0
OnRing(r, p) == \E i \in 1..Len(r) : OnEdge(r[i], MNext(r, i), p)
\* a ray to the right of p crosses the edge: it passes p's level (upper end excluded) to the right of p
Crosses(a, b, p) ==
  LET lo == BLe(a[2], p[2])  hi == BLe(b[2], p[2]) IN
  lo # hi /\ BSgn(MCross(MSub(b, a), MSub(p, a))) = (IF lo THEN 1 ELSE -1)
InRing(r, p) == Len(SelectSeq([i \in 1..Len(r) |-> i], LAMBDA i : Crosses(r[i], MNext(r, i), p))) % 2 = 1
\* with the boundary (t) or without it
Has(p, t) ==
  IF \E k \in 1..Len(shape) : OnRing(shape[k], p) THEN t
  ELSE InRing(shape[1], p) /\ \A k \in 2..Len(shape) : ~InRing(shape[k], p)
RECURSIVE MLow(_, _, _, _)
MLow(r, o, i, v) == IF i > Len(r) THEN v ELSE MLow(r, o, i + 1, BMin2(v, r[i][o]))
RECURSIVE MHigh(_, _, _, _)
MHigh(r, o, i, v) == IF i > Len(r) THEN v ELSE MHigh(r, o, i + 1, BMax2(v, r[i][o]))
Low(o) == MLow(shape[1], o, 2, shape[1][1][o])
High(o) == MHigh(shape[1], o, 2, shape[1][1][o])
Box == <<<<Low(1), High(1)>>, <<Low(2), High(2)>>>>
Is45(r) == \A i \in 1..Len(r) : LET d == MSub(MNext(r, i), r[i]) IN BSgn(d[1]) = 0 \/ BSgn(d[2]) = 0 \/ BAbs(d[1]) = BAbs(d[2])
\* the edge lengths in 1/2^10 units, w[k][i] each within one unit: a checked witness for the sum of square roots
Lengths(w) == /\ Len(w) = Len(shape)
              /\ \A k \in 1..Len(w) : /\ Len(w[k]) = Len(shape[k])
                   /\ \A i \in 1..Len(w[k]) : LET d == MSub(MNext(shape[k], i), shape[k][i]) IN BIsSqrt(BAdd(BSq(d[1]), BSq(d[2])), <<1, 1>>, w[k][i], 10)
RECURSIVE MCount(_, _)
MCount(s, i) == IF i > Len(s) THEN 0 ELSE Len(s[i]) + MCount(s, i + 1)
PerimOK(r, w) == /\ Lengths(w)
                 /\ BLe(BAbs(BSub(r, MSum(TLCEval([k \in 1..Len(w) |-> MSum(w[k], 1)]), 1))), BInt(2 + MCount(w, 1)))
\* the same closed chain of points, started elsewhere
Cyclic(a, b) == Len(a) = Len(b) /\ \E k \in 0..(Len(a) - 1) : \A i \in 1..Len(a) : a[i] = b[((i - 1 + k) % Len(a)) + 1]
SameShape(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Cyclic(a[k], b[k])
Image(F(_)) == [k \in 1..Len(shape) |-> [i \in 1..Len(shape[k]) |-> F(shape[k][i])]]
MAxis(x, p) == LET q == IF x[1] = 1 THEN <<p[2], p[1]>> ELSE p IN
               <<IF x[2] = 1 THEN BNeg(q[1]) ELSE q[1], IF x[3] = 1 THEN BNeg(q[2]) ELSE q[2]>>
\* scaled by f[1]/f[2] with rounding: 45-degree again, no vertex further than SnapTol units from where it belongs
SnapTol == 4
Near(f, v, n) == \A o \in 1..2 : BLe(BAbs(BSub(BMul(n[o], BInt(f[2])), BMul(v[o], BInt(f[1])))), BInt(SnapTol * f[2]))
SnapRing(f, r, n) ==
  IF Len(n) < 3 THEN \A i \in 1..Len(r) : \A o \in 1..2 : BLe(BAbs(BMul(BSub(r[i][o], r[1][o]), BInt(f[1]))), BInt(SnapTol * f[2]))
  ELSE /\ Is45(n)
       /\ \A i \in 1..Len(n) : \E k \in 1..Len(r) : Near(f, r[k], n[i])
       /\ \A k \in 1..Len(r) : \E i \in 1..Len(n) : Near(f, r[k], n[i])
Snap(f, n) == Len(n) = Len(shape) /\ \A k \in 1..Len(n) : SnapRing(f, shape[k], n[k])
Ask(op, p, t, w, r) ==
  CASE op = "area"   -> r = ShapeArea2           \* reported area, doubled
    [] op = "perim"  -> PerimOK(r, w)            \* reported perimeter, in 1/2^10 units
    [] op = "wind"   -> r = BSgn(Area2(shape[1]))
    [] op = "box"    -> r = Box
    [] op = "center" -> \A o \in 1..2 : BIsTruncQuot(BAdd(Box[o][1], Box[o][2]), <<1, 2>>, r[o])
    [] op = "has"    -> r = E01(Has(p, t = 1))
    [] op = "is45"   -> r = E01(\A k \in 1..Len(shape) : Is45(shape[k]))
    [] op = "size"   -> r = <<Len(shape[1]), Len(shape) - 1>>
    [] op = "pts"    -> SameShape(shape, r)
Do(op, v, o, x, n) ==
  CASE op = "move" -> SameShape(Image(LAMBDA p : [p EXCEPT ![o] = BAdd(p[o], v[o])]), n)
    [] op = "conv" -> SameShape(Image(LAMBDA p : <<BAdd(p[1], v[1]), BAdd(p[2], v[2])>>), n)
    [] op = "up"   -> SameShape(Image(LAMBDA p : <<BMul(p[1], v[1]), BMul(p[2], v[1])>>), n)
    [] op = "down" -> SameShape([k \in 1..Len(n) |-> [i \in 1..Len(n[k]) |-> <<BMul(n[k][i][1], v[1]), BMul(n[k][i][2], v[1])>>]], shape)
    [] op = "axis" -> SameShape(Image(LAMBDA p : MAxis(x, p)), n)
    [] op = "copy" -> SameShape(shape, n)
=============================================================================
