----------------------------- MODULE ManhMetric -----------------------------
(* Morphology, axis transforms, scaling and size filtering of Manhattan sets. *)
(* The grid is n x n cells with the coordinate origin at rank M = n \div 2,   *)
(* so coordinate x has rank x + M and cell (x, y) is [x-M, x-M+1] x ...       *)
EXTENDS Manh

M == n \div 2
XY == [c \in Cells(n) |-> <<c % n, c \div n>>]

(* ------------------------------------------------------------ morphology --- *)
ColMax(f, lo, hi) == [c \in Cells(n) |-> IF \E d \in lo..hi : At(f, (c % n) + d, c \div n) = 1 THEN 1 ELSE 0]
RowMax(f, lo, hi) == [c \in Cells(n) |-> IF \E d \in lo..hi : At(f, c % n, (c \div n) + d) = 1 THEN 1 ELSE 0]
ColMin(f, lo, hi) == [c \in Cells(n) |-> IF \A d \in lo..hi : At(f, (c % n) + d, c \div n) = 1 THEN 1 ELSE 0]
RowMin(f, lo, hi) == [c \in Cells(n) |-> IF \A d \in lo..hi : At(f, c % n, (c \div n) + d) = 1 THEN 1 ELSE 0]
(* the region swept by the box [-w, e] x [-s, t]; the largest region whose    *)
(* sweep by the reflected box stays inside, i.e. the complement of the swept  *)
(* complement                                                                 *)
Dilate(f, w, e, s, t) == RowMax(ColMax(f, -e, w), -t, s)
Erode(f, w, e, s, t)  == RowMin(ColMin(f, -w, e), -s, t)
Shift(f, dx, dy) == [c \in Cells(n) |-> At(f, (c % n) - dx, (c \div n) - dy)]
(* The west side of every part moves out by w, the east by e, the south by s, *)
(* the north by t, negative distances moving in.  An axis whose total is      *)
(* negative shrinks, and shrinking comes first.                               *)
Resize(f, w, e, s, t) ==
  LET xs == w + e < 0  ys == s + t < 0
      a == IF xs THEN ColMin(f, w, -e) ELSE f
      b == IF ys THEN RowMin(a, s, -t) ELSE a
      c == IF xs THEN b ELSE ColMax(b, -e, w)
  IN IF ys THEN c ELSE RowMax(c, -t, s)

RECURSIVE SumDil(_, _, _, _, _)
SumDil(K, w, e, s, t) ==
  IF K = {} THEN ZeroCnt(n)
  ELSE LET k == CHOOSE x \in K : TRUE
           f == [c \in Cells(n) |-> IF c \in k THEN 1 ELSE 0]
       IN AddCnt(Dilate(f, w, e, s, t), 1, SumDil(K \ {k}, w, e, s, t))
(* every connected region grown on its own: what two or more of them cover.   *)
(* Only used for regions without corner touches.                              *)
GrowAnd(f, w, e, s, t) == [c \in Cells(n) |-> IF SumDil(Comps(On(f), FALSE), w, e, s, t)[c] > 1 THEN 1 ELSE 0]

(* ------------------------------------------------------------ transforms --- *)
(* An axis transformation is coded 0..7: bit 0 mirrors x, bit 1 mirrors y and *)
(* then bit 2 exchanges them.                                                 *)
B0(v) == v % 2 = 1
B1(v) == (v \div 2) % 2 = 1
B2(v) == (v \div 4) % 2 = 1
MapPt(v, p) == LET q == <<IF B0(v) THEN -p[1] ELSE p[1], IF B1(v) THEN -p[2] ELSE p[2]>>
               IN IF B2(v) THEN <<q[2], q[1]>> ELSE q
(* A step is <<0, v>> (axis transformation v), <<1, a, b>> (the origin of the *)
(* new system is at (a, b) of the old: p -> p - (a, b)), <<2, k>> (times k),  *)
(* <<3, v>> (inverse of axis transformation v), <<4, a, b>> (p -> p + (a,b))  *)
InvAxis(v) == CHOOSE u \in 0..7 : \A p \in {<<1, 2>>, <<0, 1>>, <<1, 0>>} : MapPt(u, MapPt(v, p)) = p
StepPt(st, p) ==
  CASE st[1] = 0 -> MapPt(st[2], p)
    [] st[1] = 1 -> <<p[1] - st[2], p[2] - st[3]>>
    [] st[1] = 2 -> <<p[1] * st[2], p[2] * st[2]>>
    [] st[1] = 3 -> MapPt(InvAxis(st[2]), p)
    [] st[1] = 4 -> <<p[1] + st[2], p[2] + st[3]>>
RECURSIVE PathPt(_, _)
PathPt(q, p) == IF q = <<>> THEN p ELSE PathPt(Tail(q), StepPt(Head(q), p))

(* image of a cell function under one step; cells that leave the grid are lost *)
(* (the driver keeps results inside)                                          *)
MirX(f) == [c \in Cells(n) |-> f[(c \div n) * n + (n - 1 - (c % n))]]
MirY(f) == [c \in Cells(n) |-> f[(n - 1 - (c \div n)) * n + (c % n)]]
AxisMap(v, f) == LET a == IF B0(v) THEN MirX(f) ELSE f
                     b == IF B1(v) THEN MirY(a) ELSE a
                 IN IF B2(v) THEN Transpose(b) ELSE b
ScaleUp(f, k) == [c \in Cells(n) |-> At(f, ((c % n) - M) \div k + M, ((c \div n) - M) \div k + M)]
StepMap(st, f) ==
  CASE st[1] = 0 -> AxisMap(st[2], f)
    [] st[1] = 1 -> Shift(f, -st[2], -st[3])
    [] st[1] = 2 -> ScaleUp(f, st[2])
    [] st[1] = 3 -> AxisMap(InvAxis(st[2]), f)
    [] st[1] = 4 -> Shift(f, st[2], st[3])
RECURSIVE PathMap(_, _)
PathMap(q, f) == IF q = <<>> THEN f ELSE PathMap(Tail(q), StepMap(Head(q), f))

(* scaling by num/den with every coordinate rounded to the nearest integer,   *)
(* halves upwards                                                             *)
RoundTo(c, num, den) == (2 * c * num + den) \div (2 * den)
Squeeze(f, nx, dx, ny, dy) ==
  LET gx == [i \in 0..n |-> RoundTo(i - M, nx, dx) + M]
      gy == [i \in 0..n |-> RoundTo(i - M, ny, dy) + M]
  IN [c \in Cells(n) |-> LET x == c % n  y == c \div n IN
        IF \E i \in 0..(n - 1) : gx[i] <= x /\ x < gx[i + 1] /\
             \E j \in 0..(n - 1) : gy[j] <= y /\ y < gy[j + 1] /\ f[j * n + i] = 1
        THEN 1 ELSE 0]

(* ------------------------------------------------------------- filtering --- *)
(* connected regions with area in [a0, a1], width in (w0, w1], height (h0, h1] *)
CompExt(K) == LET xs == {c % n : c \in K}  ys == {c \div n : c \in K}
              IN <<SetMax(xs) + 1 - SetMin(xs), SetMax(ys) + 1 - SetMin(ys)>>
Keep(f, a0, a1, w0, w1, h0, h1) ==
  LET kept == UNION {k \in Comps(On(f), FALSE) : LET d == CompExt(k) a == Cardinality(k) IN
                 a0 <= a /\ a <= a1 /\ w0 < d[1] /\ d[1] <= w1 /\ h0 < d[2] /\ d[2] <= h1}
  IN [c \in Cells(n) |-> IF c \in kept THEN 1 ELSE 0]

(* --------------------------------------------------------------- actions --- *)
DoBloat(r, d)  == Put(r, Dilate(Region(r), d[1], d[2], d[3], d[4]))
DoShrink(r, d) == Put(r, Erode(Region(r), d[1], d[2], d[3], d[4]))
DoResize(r, d) == Put(r, Resize(Region(r), d[1], d[2], d[3], d[4]))
DoGrowAnd(r, d) == Put(r, GrowAnd(Region(r), d[1], d[2], d[3], d[4]))
DoMap(r, q)    == Put(r, PathMap(q, Region(r)))
DoSqueeze(r, v) == Put(r, Squeeze(Region(r), v[1], v[2], v[3], v[4]))
DoKeep(r, v)   == Put(r, Keep(Region(r), v[1], v[2], v[3], v[4], v[5], v[6]))
=============================================================================
