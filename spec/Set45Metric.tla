----------------------------- MODULE Set45Metric -----------------------------
(* Resizing, filtering and mapping of 45-degree regions.  All lengths are in  *)
(* the doubled coordinates of Tri; resizing distances are even.               *)
EXTENDS Set45

(* how far a sloped edge moves in x and in y *)
Nearest(d) == CHOOSE u \in 0..d : (2 * u - 1) * (2 * u - 1) <= 2 * d * d /\ 2 * d * d <= (2 * u + 1) * (2 * u + 1)
Below(d) == CHOOSE u \in 0..d : 2 * u * u <= d * d /\ 2 * (u + 1) * (u + 1) > d * d
Slant(d, rnd) == CASE rnd = 0 -> Nearest(d) [] rnd = 1 -> Below(d) + 1 [] rnd = 2 -> Below(d) [] rnd = 3 -> d

RevP(v) == [i \in 1..Len(v) |-> IF i % 2 = 1 THEN v[Len(v) - i] ELSE v[Len(v) - i + 2]]
Left(v) == IF Area2(v) < 0 THEN RevP(v) ELSE v          \* region on the left
Vtx(v, i) == <<PX(v, i), PY(v, i)>>
Stp(v, i) == LET j == Nxt(v, i) IN <<Sgn(PX(v, j) - PX(v, i)), Sgn(PY(v, j) - PY(v, i))>>
Crs(a, b) == a[1] * b[2] - a[2] * b[1]
(* displacement of an edge of direction s to its right *)
Nrm(s, d, u) == LET k == IF s[1] = 0 \/ s[2] = 0 THEN d ELSE u IN <<k * s[2], -k * s[1]>>
Sum2(a, b) == <<a[1] + b[1], a[2] + b[2]>>
Dif2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Neg2(a) == <<-a[1], -a[2]>>
Band(v, i, d, u) == LET a == Vtx(v, i) b == Vtx(v, Nxt(v, i)) m == Nrm(Stp(v, i), d, u)
                        p == Sum2(a, m) q == Sum2(b, m) r == Dif2(b, m) s == Dif2(a, m)
                    IN <<p[1], p[2], q[1], q[2], r[1], r[2], s[1], s[2]>>
(* the corner between edge i and the next one, on side e (1 right, -1 left) *)
Cap(v, i, e, d, u, cor) ==
  LET j == Nxt(v, i) b == Vtx(v, j) s == Stp(v, i) t == Stp(v, j)
      m1 == Nrm(s, d, u) m2 == Nrm(t, d, u)
      p == IF e = 1 THEN Sum2(b, m1) ELSE Dif2(b, m1)
      q == IF e = 1 THEN Sum2(b, m2) ELSE Dif2(b, m2)
      k == Crs(Dif2(q, p), t) \div Crs(s, t)
      sharp == s[1] * t[1] + s[2] * t[2] < 0
  IN IF cor = 1 /\ sharp THEN <<p[1], p[2], q[1], p[2], q[1], q[2], p[1], q[2]>>
     ELSE <<p[1], p[2], b[1], b[2], q[1], q[2], p[1] + k * s[1], p[2] + k * s[2]>>
Turn(v, i) == Sgn(Crs(Stp(v, i), Stp(v, Nxt(v, i))))
RECURSIVE Pieces(_, _, _, _, _, _, _)
(* growing covers the outer corners, shrinking the inner ones (and, with all, *)
(* also the outside of the outer ones) *)
Pieces(v, i, w, d, u, cor, all) ==
  IF i > NV(v) THEN <<>>
  ELSE <<Band(v, i, d, u)>>
       \o (IF cor # 2 /\ Turn(v, i) = 1 /\ (w = 1 \/ all) THEN <<Cap(v, i, 1, d, u, cor)>> ELSE <<>>)
       \o (IF cor # 2 /\ Turn(v, i) = -1 /\ w = -1 THEN <<Cap(v, i, -1, d, u, cor)>> ELSE <<>>)
       \o Pieces(v, i + 1, w, d, u, cor, all)
RECURSIVE PosEdges(_, _)
PosEdges(ps, i) == IF i > Len(ps) THEN <<>> ELSE PathEdges(ps[i], Sgn(Area2(ps[i]))) \o PosEdges(ps, i + 1)
(* a simple polygon grown (k > 0) or shrunk (k < 0) by |k| *)
SizedLoop(v0, k, rnd, cor, all) ==
  LET v == TLCEval(Left(v0)) d == Abs(k) u == Slant(d, rnd)
      in == EdgeCnt(n, PathEdges(v, 1), 0)
      sz == EdgeCnt(n, PosEdges(TLCEval(Pieces(v, 1, Sgn(k), d, u, cor, all)), 1), 0)
  IN IF k = 0 THEN in
     ELSE TLCEval([c \in TCells(n) |-> IF k > 0 THEN (IF in[c] > 0 \/ sz[c] > 0 THEN 1 ELSE 0)
                                               ELSE (IF in[c] > 0 /\ sz[c] = 0 THEN 1 ELSE 0)])
RECURSIVE SizedHoles(_, _, _, _, _, _), SizedSum(_, _, _, _, _, _)
SizedHoles(hs, i, k, rnd, cor, all) ==
  IF i > Len(hs) THEN TZero(n) ELSE AddCnt(SizedHoles(hs, i + 1, k, rnd, cor, all), 1, SizedLoop(hs[i], -k, rnd, cor, all))
(* counts of a sequence of polygons with holes, each sized *)
SizedSum(ps, i, k, rnd, cor, all) ==
  IF i > Len(ps) THEN TZero(n)
  ELSE AddCnt(AddCnt(SizedSum(ps, i + 1, k, rnd, cor, all), 1, SizedLoop(ps[i].v, k, rnd, cor, all)), -1, SizedHoles(ps[i].h, 1, k, rnd, cor, all))
(* src is an extraction of the region with holes, its loops not touching *)
Loops(src) == ObsPaths(src)
Simple(src) == \A p, q \in UNION {{<<i, k>> : k \in 1..NV(Loops(src)[i])} : i \in 1..Len(Loops(src))} :
                 p # q => Vtx(Loops(src)[p[1]], p[2]) # Vtx(Loops(src)[q[1]], q[2])
Straight(src) == \A i \in 1..Len(Loops(src)) : \A k \in 1..NV(Loops(src)[i]) : ~Colinear(Loops(src)[i], k)
SourceOK(src, f) == src.k = "H" /\ ObsOK(n, src, f) /\ Simple(src) /\ Straight(src)
Resize(r, src, k, rnd, cor, all) ==
  Put(r, IF k = 0 THEN cnt[r] ELSE Bit(SizedSum(src.v, 1, k, rnd, cor, all)))
(* insertion of one sized polygon (or list of them), as a hole: every loop the other way *)
InsertSized(r, ps, k, rnd, cor, h, all) ==
  Put(r, AddCnt(cnt[r], IF h = 1 THEN -1 ELSE 1, SizedSum(ps, 1, IF h = 1 THEN -k ELSE k, rnd, cor, all)))
RECURSIVE GrowSum(_, _, _)
GrowSum(ps, i, k) == IF i > Len(ps) THEN TZero(n) ELSE AddCnt(GrowSum(ps, i + 1, k), 1, SizedLoop(ps[i].v, k, 0, 0, FALSE))
GrowAnd(r, src, k) ==
  Put(r, LET f == GrowSum(src.v, 1, k) IN TLCEval([c \in TCells(n) |-> IF f[c] > 1 THEN 1 ELSE 0]))

(* ------------------------------------------------------------- images ----- *)
(* v: 1 mirror x, 2 mirror y, then 4 swap the axes, within the grid *)
ImgK(k, v) == LET a == IF v % 2 = 1 THEN (CASE k = 1 -> 3 [] k = 3 -> 1 [] OTHER -> k) ELSE k
                  b == IF (v \div 2) % 2 = 1 THEN (CASE a = 0 -> 2 [] a = 2 -> 0 [] OTHER -> a) ELSE a
              IN IF v > 3 THEN 3 - b ELSE b
(* the cell whose image is c *)
Pre(c, v) == LET x == IF v > 3 THEN CY(n, c) ELSE CX(n, c)
                 y == IF v > 3 THEN CX(n, c) ELSE CY(n, c)
                 k == IF v > 3 THEN 3 - CK(c) ELSE CK(c)
                 xx == IF v % 2 = 1 THEN n - 1 - x ELSE x
                 yy == IF (v \div 2) % 2 = 1 THEN n - 1 - y ELSE y
             IN 4 * (yy * n + xx) + ImgK(k, v % 4)
Image(r, v) == Put(r, TLCEval([c \in TCells(n) |-> Bit(cnt[r])[Pre(c, v)]]))
Rectilinear(f) == \A q \in Squares : Quad(f, q) \in {0, 4}
(* limits: area in quarters of a square, width and height in doubled coordinates *)
Keep(r, q) ==
  LET f == Bit(cnt[r])
      ok(k) == LET g == TLCEval([c \in TCells(n) |-> IF c \in k THEN 1 ELSE 0]) e == Extents(g) w == e[3] - e[1] h == e[4] - e[2]
               IN q[1] <= Cardinality(k) /\ Cardinality(k) <= q[2] /\ q[3] < w /\ w <= q[4] /\ q[5] < h /\ h <= q[6]
      kept == TLCEval(UNION {k \in Comps(On(f)) : ok(k)})
  IN Put(r, TLCEval([c \in TCells(n) |-> IF c \in kept THEN 1 ELSE 0]))
=============================================================================
