-------------------------------- MODULE Manh --------------------------------
(* The Manhattan polygon-set machine.  A set is an integer count per cell:    *)
(* what has been inserted minus what has been inserted as a hole.  Its region *)
(* is where the count is positive.  Scanning ("clean") replaces the counts by *)
(* the region's indicator, and is invisible except to the self_* operations.  *)
EXTENDS Cells

VARIABLES n, cnt
mvars == <<n, cnt>>

Region(r) == Bit(cnt[r])
Put(r, f) == cnt' = [cnt EXCEPT ![r] = f] /\ UNCHANGED n

Insert(r, s, sgn) == Put(r, AddCnt(cnt[r], sgn, ShapeCnt(n, s, cnt)))
SetTo(r, s)       == Put(r, ShapeCnt(n, s, cnt))
Boolean(r, op, a, b) == Put(r, OpCnt(op, ShapeCnt(n, a, cnt), ShapeCnt(n, b, cnt)))
BoolAssign(r, op, b) == Put(r, OpCnt(op, cnt[r], ShapeCnt(n, b, cnt)))
Copy(r, s)  == Put(r, cnt[s])
Clear(r)    == Put(r, ZeroCnt(n))
Clean(r)    == Put(r, Bit(cnt[r]))
SelfIntersect(r) == Put(r, [c \in Cells(n) |-> IF cnt[r][c] > 1 THEN 1 ELSE 0])
SelfXor(r)       == Put(r, [c \in Cells(n) |-> IF cnt[r][c] > 0 /\ cnt[r][c] % 2 = 1 THEN 1 ELSE 0])

(* ------------------------------------------------------------- queries --- *)
RegionOf(s) == Bit(ShapeCnt(n, s, cnt))
On(f) == {c \in DOMAIN f : f[c] = 1}
IsEmpty(f) == \A c \in DOMAIN f : f[c] = 0
CellArea(f) == Cardinality(On(f))
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Extents(f) == LET xs == {c % n : c \in On(f)}  ys == {c \div n : c \in On(f)}
              IN <<SetMin(xs), SetMin(ys), SetMax(xs) + 1, SetMax(ys) + 1>>

(* value of region f at cell (x, y), 0 outside the grid *)
At(f, x, y) == IF x < 0 \/ y < 0 \/ x >= n \/ y >= n THEN 0 ELSE f[y * n + x]
GridPts == (0..n) \X (0..n)
(* grid points where the boundary turns once / where two corners touch *)
Turns(f) == Cardinality({p \in GridPts : LET x == p[1] y == p[2] IN
              (At(f, x-1, y-1) + At(f, x, y-1) + At(f, x-1, y) + At(f, x, y)) % 2 = 1})
Touches(f) == Cardinality({p \in GridPts : LET x == p[1] y == p[2] IN
              /\ At(f, x-1, y-1) = At(f, x, y) /\ At(f, x, y-1) = At(f, x-1, y)
              /\ At(f, x, y) # At(f, x-1, y)})
CanonSize(f) == Turns(f) + 2 * Touches(f)

(* connected components of a region: edge adjacency (4) or corner adjacency (8) *)
Nbr4(c) == {d \in {c - 1, c + 1, c - n, c + n} : d \in Cells(n) /\ (d \div n = c \div n \/ d % n = c % n)}
Nbr8(c) == {d \in {c - n - 1, c - n, c - n + 1, c - 1, c + 1, c + n - 1, c + n, c + n + 1} :
              d \in Cells(n) /\ Abs((d % n) - (c % n)) <= 1}
RECURSIVE Grow(_, _, _, _)
Grow(S, front, eight, done) ==
  IF front = {} THEN done
  ELSE LET nxt == (UNION {IF eight THEN Nbr8(c) ELSE Nbr4(c) : c \in front} \cap S) \ done
       IN Grow(S, nxt, eight, done \cup nxt)
RECURSIVE Comps(_, _)
Comps(S, eight) == IF S = {} THEN {}
                   ELSE LET c == CHOOSE x \in S : TRUE
                            k == Grow(S, {c}, eight, {c})
                        IN {k} \cup Comps(S \ k, eight)

(* ---------------------------------------------- rectangle decomposition --- *)
(* maximal runs of row y along x *)
RowRuns(f, y) == {<<a, b>> \in (0..n) \X (0..n) :
                    /\ a < b /\ \A x \in a..(b - 1) : At(f, x, y) = 1
                    /\ At(f, a - 1, y) = 0 /\ At(f, b, y) = 0}
(* slabs: a run kept as long as it stays maximal and identical on successive rows *)
HSlabs(f) == LET runs == [y \in -1..n |-> IF y < 0 \/ y = n THEN {} ELSE RowRuns(f, y)] IN
  UNION {{<<r[1], y0, r[2], y1 + 1>> : y1 \in {q \in y0..(n - 1) :
              (\A z \in y0..q : r \in runs[z]) /\ r \notin runs[q + 1]}}
         : <<y0, r>> \in {<<y, s>> \in (0..(n - 1)) \X UNION {runs[y] : y \in 0..(n - 1)} :
                              s \in runs[y] /\ s \notin runs[y - 1]}}
Transpose(f) == [c \in Cells(n) |-> f[(c % n) * n + (c \div n)]]
VSlabs(f) == {<<r[2], r[1], r[4], r[3]>> : r \in HSlabs(Transpose(f))}
Slabs(f, vertical) == IF vertical THEN VSlabs(f) ELSE HSlabs(f)

(* all rectangles inside f that cannot be grown in any direction *)
Full(f, a, b, c, d) == \A x \in a..(c - 1) : \A y \in b..(d - 1) : f[y * n + x] = 1
MaxRects(f) ==
  UNION {LET runsIn == {<<a, c>> \in (0..n) \X (0..n) : a < c /\ (\A x \in a..(c - 1) : \A y \in b..(d - 1) : f[y * n + x] = 1)
                            /\ (\E y \in b..(d - 1) : At(f, a - 1, y) = 0) /\ (\E y \in b..(d - 1) : At(f, c, y) = 0)}
         IN {<<r[1], b, r[2], d>> : r \in {q \in runsIn :
               /\ (\E x \in q[1]..(q[2] - 1) : At(f, x, b - 1) = 0)
               /\ (\E x \in q[1]..(q[2] - 1) : At(f, x, d) = 0)}}
         : <<b, d>> \in {p \in (0..n) \X (0..n) : p[1] < p[2]}}

SeqSet(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(SeqSet(q)) = Len(q)
(* a "Rects" observation: exactly the slabs, each once *)
RectsOK(o, f, vertical) == ValidRects(n, o.v) /\ NoDup(o.v) /\ SeqSet(o.v) = Slabs(f, vertical)
MaxRectsOK(o, f) == NoDup(o.v) /\ SeqSet(o.v) = MaxRects(f)

(* --------------------------------------------------- polygon extraction --- *)
Ccw(v) == \A c \in Cells(n) : WindCnt(n, v)[c] >= 0
AllIn(f, vals) == \A c \in DOMAIN f : f[c] \in vals
NonZero(f) == \E c \in DOMAIN f : f[c] # 0
(* no point is colinear with its two neighbours *)
NoColinear(v) == \A i \in 1..NV(v) :
   LET j == Nxt(v, i) k == Nxt(v, j) IN
     ~ (PX(v, i) = PX(v, j) /\ PX(v, j) = PX(v, k)) /\ ~ (PY(v, i) = PY(v, j) /\ PY(v, j) = PY(v, k))
RECURSIVE HoleVerts(_)
HoleVerts(hs) == IF hs = <<>> THEN 0 ELSE NV(Head(hs)) + HoleVerts(Tail(hs))
OuterOK(v) == LET w == WindCnt(n, v) IN AllIn(w, {0, 1}) /\ NonZero(w)
HoleOK(v)  == LET w == WindCnt(n, v) IN AllIn(w, {0, -1}) /\ NonZero(w)
(* k = 0: no vertex limit *)
FormOK(o, f, k) ==
  IF k > 0
  THEN (* slicing under a vertex limit: cover, winding and the limit only *)
    /\ \A i \in 1..Len(o.v) : LET v == o.v[i] IN
          InGrid(n, v) /\ IsManhattanWalk(v) /\ OuterOK(v) /\ NV(v) <= k
    /\ PathsCnt(n, o.v) = f
  ELSE
    /\ ObsOK(n, o, f)
    /\ IF o.k = "P"
       THEN \A i \in 1..Len(o.v) : OuterOK(o.v[i]) /\ NoColinear(o.v[i])
       ELSE \A i \in 1..Len(o.v) :
            /\ OuterOK(o.v[i].v) /\ NoColinear(o.v[i].v)
            /\ \A j \in 1..Len(o.v[i].h) : HoleOK(o.v[i].h[j]) /\ NoColinear(o.v[i].h[j])
            /\ LET w == AddCnt(WindCnt(n, o.v[i].v), 1, PathsCnt(n, o.v[i].h)) IN AllIn(w, {0, 1})
  (* without a limit, one polygon per connected region *)
    /\ Cardinality(Comps(On(f), TRUE)) <= Len(o.v)
    /\ Len(o.v) <= Cardinality(Comps(On(f), FALSE))
=============================================================================
