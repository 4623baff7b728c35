-------------------------------- MODULE Set45 --------------------------------
(* The 45-degree polygon-set machine: as Manh, over triangles.  A set is an   *)
(* integer count per triangle, its region where the count is positive.        *)
(* grid = 1: every coordinate of the machine is representable in the code;    *)
(* grid = 0: only the grid points are (the centres of the squares are not).   *)
EXTENDS Tri
VARIABLES n, cnt, grid
mvars == <<n, cnt, grid>>

Region(r) == Bit(cnt[r])
Put(r, f) == cnt' = [cnt EXCEPT ![r] = f] /\ UNCHANGED <<n, grid>>

Insert(r, s, sgn) == Put(r, AddCnt(cnt[r], sgn, TShape(n, s, cnt)))
SetTo(r, s)       == Put(r, TShape(n, s, cnt))
Evaluate(r, s)    == Put(r, Bit(TShape(n, s, cnt)))
Boolean(r, op, a, b) == Put(r, Bit(OpCnt(op, TShape(n, a, cnt), TShape(n, b, cnt))))
BoolAssign(r, op, b) == Put(r, Bit(OpCnt(op, Bit(cnt[r]), TShape(n, b, cnt))))
Copy(r, s)  == Put(r, cnt[s])
Clear(r)    == Put(r, TZero(n))
Clean(r)    == Put(r, Bit(cnt[r]))
SelfIntersect(r) == Put(r, [c \in TCells(n) |-> IF cnt[r][c] > 1 THEN 1 ELSE 0])
SelfXor(r)       == Put(r, [c \in TCells(n) |-> IF cnt[r][c] % 2 = 1 THEN 1 ELSE 0])

RegionOf(s) == Bit(TShape(n, s, cnt))
On(f) == {c \in DOMAIN f : f[c] = 1}
IsEmpty(f) == \A c \in DOMAIN f : f[c] = 0

(* ------------------------------------------------ unrepresentable corners *)
(* Where the exact region has a corner at the centre of a square that the     *)
(* coordinate type cannot hold, the code empties that square if the corner is *)
(* convex and fills it if it is reflex; elsewhere the region is exact.        *)
Quad(f, q) == f[4 * q] + f[4 * q + 1] + f[4 * q + 2] + f[4 * q + 3]
Opposite(f, q) == Quad(f, q) = 2 /\ f[4 * q] = f[4 * q + 2]
Corner(f, q) == Quad(f, q) \in {1, 3} \/ Opposite(f, q)
Squares == 0..(n * n - 1)
SnapTo(f, b) == [c \in TCells(n) |-> LET q == c \div 4 IN
                  IF Quad(f, q) = 1 THEN 0 ELSE IF Quad(f, q) = 3 THEN 1 ELSE IF Opposite(f, q) THEN b ELSE f[c]]
OffGrid(f) == \E q \in Squares : Corner(f, q)

(* an observed extraction of region f *)
Seen(o, f) == IF grid = 1 \/ ~OffGrid(f) THEN ObsOK(n, o, f) ELSE ObsOK(n, o, SnapTo(f, 0)) \/ ObsOK(n, o, SnapTo(f, 1))

(* --------------------------------------------------------- adjacencies --- *)
CellAt(x, y, k) == IF x < 0 \/ y < 0 \/ x >= n \/ y >= n THEN -1 ELSE 4 * (y * n + x) + k
(* triangles sharing an edge *)
Nbr3(c) == LET x == CX(n, c) y == CY(n, c) k == CK(c) q == 4 * (c \div 4) IN
  {q + ((k + 1) % 4), q + ((k + 3) % 4),
   CASE k = 0 -> CellAt(x, y - 1, 2) [] k = 1 -> CellAt(x + 1, y, 3)
     [] k = 2 -> CellAt(x, y + 1, 0) [] k = 3 -> CellAt(x - 1, y, 1)} \ {-1}
(* grid points of a triangle, in doubled coordinates *)
Corners(c) == LET x == 2 * CX(n, c) y == 2 * CY(n, c) k == CK(c) IN
  {<<x + 1, y + 1>>} \cup
  (CASE k = 0 -> {<<x, y>>, <<x + 2, y>>} [] k = 1 -> {<<x + 2, y>>, <<x + 2, y + 2>>}
    [] k = 2 -> {<<x, y + 2>>, <<x + 2, y + 2>>} [] k = 3 -> {<<x, y>>, <<x, y + 2>>})
Points(S) == UNION {Corners(c) : c \in S}
RECURSIVE Grow(_, _, _)
Grow(S, front, done) ==
  IF front = {} THEN done
  ELSE LET nxt == (UNION {Nbr3(c) : c \in front} \cap S) \ done IN Grow(S, nxt, done \cup nxt)
RECURSIVE Comps(_)
Comps(S) == IF S = {} THEN {} ELSE LET c == CHOOSE x \in S : TRUE
                                       k == Grow(S, {c}, {c}) IN {k} \cup Comps(S \ k)
(* components when touching at a point counts as connected *)
RECURSIVE Merge8(_)
Merge8(ks) == IF \E a, b \in ks : a # b /\ Points(a) \cap Points(b) # {}
              THEN LET p == CHOOSE p \in ks \X ks : p[1] # p[2] /\ Points(p[1]) \cap Points(p[2]) # {}
                   IN Merge8((ks \ {p[1], p[2]}) \cup {p[1] \cup p[2]})
              ELSE ks

(* --------------------------------------------------- polygon extraction --- *)
Colinear(v, i) == LET j == Nxt(v, i) k == Nxt(v, j) IN
  (PX(v, j) - PX(v, i)) * (PY(v, k) - PY(v, j)) = (PX(v, k) - PX(v, j)) * (PY(v, j) - PY(v, i))
(* a straight corner only where the boundary touches itself *)
Shared(ps, x, y) == Cardinality({p \in UNION {{<<i, k>> : k \in 1..NV(ps[i])} : i \in 1..Len(ps)} :
                                  PX(ps[p[1]], p[2]) = x /\ PY(ps[p[1]], p[2]) = y}) > 1
NoColinear(v, ps) == \A i \in 1..NV(v) : Colinear(v, i) => Shared(ps, PX(v, Nxt(v, i)), PY(v, Nxt(v, i)))
AllIn(f, vals) == \A c \in DOMAIN f : f[c] \in vals
One(v) == EdgeCnt(n, PathEdges(v, 1), 0)
OuterOK(v) == Area2(v) > 0 /\ AllIn(One(v), {0, 1})
HoleOK(v) == Area2(v) < 0 /\ AllIn(One(v), {0, -1})
FormOK(o, f) ==
  /\ IF o.k = "H" THEN ObsOK(n, o, f) ELSE ObsFineOK(n, o, f)
  /\ IF o.k = "P"
     THEN \A i \in 1..Len(o.v) : OuterOK(o.v[i])
     ELSE \A i \in 1..Len(o.v) :
            /\ OuterOK(o.v[i].v) /\ NoColinear(o.v[i].v, ObsPaths(o))
            /\ \A j \in 1..Len(o.v[i].h) : HoleOK(o.v[i].h[j]) /\ NoColinear(o.v[i].h[j], ObsPaths(o))
            /\ Len(o.v[i].h) > 0 => AllIn(EdgeCnt(n, SignedEdges(<<o.v[i].v>> \o o.v[i].h, 1), 0), {0, 1})
  /\ LET ks == Comps(On(f)) IN Len(o.v) <= Cardinality(ks) /\ (Len(o.v) < Cardinality(ks) => Cardinality(Merge8(ks)) <= Len(o.v))
(* three or four corners, the (at most two) cut sides parallel to the cuts *)
IsTrap(v, vert) ==
  /\ NV(v) \in {3, 4}
  /\ Cardinality({i \in 1..NV(v) : IF vert THEN PX(v, i) = PX(v, Nxt(v, i)) ELSE PY(v, i) = PY(v, Nxt(v, i))}) \in {NV(v) - 2, 2}
(* trapezoids may come in either direction *)
Reversed(v) == [i \in 1..Len(v) |-> IF i % 2 = 1 THEN v[Len(v) - i] ELSE v[Len(v) - i + 2]]
Ccw(v) == IF Area2(v) < 0 THEN Reversed(v) ELSE v
TrapOK(o, f, vert) ==
  LET c == [k |-> "P", v |-> [i \in 1..Len(o.v) |-> Ccw(o.v[i])]] IN
  /\ ObsFineOK(n, c, f)
  /\ \A i \in 1..Len(c.v) : OuterOK(c.v[i]) /\ IsTrap(c.v[i], vert)

(* -------------------------------------------------------------- queries --- *)
SetMin(S) == CHOOSE a \in S : \A b \in S : a <= b
SetMax(S) == CHOOSE a \in S : \A b \in S : a >= b
Extents(f) == LET ps == Points(On(f)) xs == {p[1] : p \in ps} ys == {p[2] : p \in ps}
              IN <<SetMin(xs), SetMin(ys), SetMax(xs), SetMax(ys)>>
CellArea(f) == Cardinality(On(f))      (* in quarters of a square *)

(* ------------------------------------------------------------ relations --- *)
Meet(f, g) == Points(On(f)) \cap Points(On(g)) # {}
ConnGraph(fs) ==
  LET ps == TLCEval([i \in 1..Len(fs) |-> Points(On(fs[i]))])
  IN {p \in (1..Len(fs)) \X (1..Len(fs)) : p[1] # p[2] /\ ps[p[1]] \cap ps[p[2]] # {}}
Interact(f, g) == LET pg == Points(On(g))
                      kept == UNION {k \in Comps(On(f)) : Points(k) \cap pg # {}}
                  IN [c \in TCells(n) |-> IF c \in kept THEN 1 ELSE 0]
PropsOf(ins) == {ins[i].p : i \in 1..Len(ins)}
(* each insertion of a property contributes the region of what was inserted *)
Labels(ins) ==
  LET reg == TLCEval([i \in 1..Len(ins) |-> TLCEval(Bit(TShape(n, ins[i].s, cnt)))])
  IN TLCEval([c \in TCells(n) |-> {ins[i].p : i \in {j \in 1..Len(ins) : reg[j][c] = 1}}])
MergeOK(ins, out) ==
  LET lab == Labels(ins)
      keys == {lab[c] : c \in TCells(n)} \ {{}}
      key(i) == {out[i].ps[j] : j \in 1..Len(out[i].ps)}
  IN /\ \A i, j \in 1..Len(out) : i # j => key(i) # key(j)
     /\ \A i \in 1..Len(out) : Cardinality(key(i)) = Len(out[i].ps)
     /\ \A k \in keys : \E i \in 1..Len(out) : key(i) = k
     /\ \A i \in 1..Len(out) : key(i) # {} =>
          Seen(out[i].o, [c \in TCells(n) |-> IF lab[c] = key(i) THEN 1 ELSE 0])
=============================================================================
