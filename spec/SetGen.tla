------------------------------- MODULE SetGen -------------------------------
(* The arbitrary-angle polygon-set machine: a set is an integer count per     *)
(* face of the history's arrangement, its region where the count is positive. *)
(* grid = 1: every crossing of the history's edges is an integer point, the   *)
(* machine is exact; grid = 0: crossings are rounded, and the machine is      *)
(* determined at samples farther than a few units from all lines only (the    *)
(* history then has only such samples).                                       *)
EXTENDS Arr
VARIABLES F, M, S, L, far, grid, cnt
mvars == <<F, M, S, L, far, grid, cnt>>

Zero == TLCEval([k \in 1..Len(S) |-> 0])
RECURSIVE ShapeCnt(_)
ShapeCnt(s) ==
  CASE s.t = "S" -> cnt[s.r]
    [] s.t = "E" -> OpCnt(s.op, ShapeCnt(s.x), ShapeCnt(s.y))
    [] OTHER -> Winding(S, F, PureEdges(s, 1))
Region(r) == Bit(cnt[r])
RegionOf(s) == Bit(ShapeCnt(s))
IsEmpty(f) == \A c \in DOMAIN f : f[c] = 0
Put(r, f) == cnt' = [cnt EXCEPT ![r] = f] /\ UNCHANGED <<F, M, S, L, far, grid>>

Insert(r, s, sgn) == Put(r, AddCnt(cnt[r], sgn, ShapeCnt(s)))
SetTo(r, s)       == Put(r, ShapeCnt(s))
Evaluate(r, s)    == Put(r, Bit(ShapeCnt(s)))
Boolean(r, op, a, b) == Put(r, OpCnt(op, ShapeCnt(a), ShapeCnt(b)))
BoolAssign(r, op, b) == Put(r, OpCnt(op, cnt[r], ShapeCnt(b)))
Copy(r, s) == Put(r, cnt[s])
Clear(r)   == Put(r, Zero)
Clean(r)   == Put(r, Bit(cnt[r]))

(* -------------------------------------------------------- observations --- *)
AllIn(f, vals) == \A c \in DOMAIN f : f[c] \in vals
Wind(ps) == Winding(S, F, SignedEdges(ps, 1))
SameAt(K, f, g) == \A k \in K : f[k] = g[k]
(* polygons without holes are cut open to the holes; the cuts may end off the *)
(* grid, so they are compared away from the lines                             *)
Cut(o) == o.k = "P"
Seen(o, f) ==
  LET ps == ObsPaths(o) IN
  /\ \A i \in 1..Len(ps) : InBox(M, ps[i]) /\ IsPath(ps[i])
  /\ LET w == Wind(ps) IN
     IF grid = 1 /\ ~Cut(o) THEN w = f ELSE SameAt(far, w, f)
  /\ grid = 1 /\ ~Cut(o) => \A i \in 1..Len(ps) : OnLines(L, ps[i])

(* --------------------------------------------------- polygon formation --- *)
OuterOK(v) == Area2(v) > 0 /\ AllIn(Wind(<<v>>), {0, 1})
HoleOK(v)  == Area2(v) < 0 /\ AllIn(Wind(<<v>>), {0, -1})
NoOpposed(ps) ==
  LET es == TLCEval(PathsSegs(ps, 1))
  IN \A i, j \in 1..Len(es) : i < j => ~Opposed(es[i], es[j])
FormOK(o, f) ==
  /\ Seen(o, f)
  /\ IF Cut(o)
     THEN \A i \in 1..Len(o.v) : Area2(o.v[i]) > 0 /\ LET w == Wind(<<o.v[i]>>) IN \A k \in far : w[k] \in {0, 1}
     ELSE /\ \A i \in 1..Len(o.v) :
               /\ OuterOK(o.v[i].v)
               /\ \A j \in 1..Len(o.v[i].h) : HoleOK(o.v[i].h[j])
               /\ AllIn(Wind(<<o.v[i].v>> \o o.v[i].h), {0, 1})
          /\ grid = 1 => LET ps == ObsPaths(o) IN NoOpposed(ps)
Reversed(v) == [i \in 1..Len(v) |-> IF i % 2 = 1 THEN v[Len(v) - i] ELSE v[Len(v) - i + 2]]
Ccw(v) == IF Area2(v) < 0 THEN Reversed(v) ELSE v
(* corners: vertices that do not lie between their neighbours *)
Corners(v) ==
  LET prev(i) == IF i = 1 THEN NV(v) ELSE i - 1
      cs == SelectSeq([i \in 1..NV(v) |-> i], LAMBDA i : Cross(PX(v, prev(i)), PY(v, prev(i)), PX(v, i), PY(v, i), PX(v, Nxt(v, i)), PY(v, Nxt(v, i))) # 0)
  IN [k \in 1..2 * Len(cs) |-> IF k % 2 = 1 THEN PX(v, cs[(k + 1) \div 2]) ELSE PY(v, cs[k \div 2])]
IsTrap(v0, vert) ==
  LET v == TLCEval(Corners(v0)) IN
  /\ NV(v) \in {3, 4}
  /\ Cardinality({i \in 1..NV(v) : IF vert THEN PX(v, i) = PX(v, Nxt(v, i)) ELSE PY(v, i) = PY(v, Nxt(v, i))}) >= NV(v) - 2
(* disjoint pieces with three or four corners and sides along the cuts *)
TrapOK(o, f, vert) ==
  LET c == TLCEval([i \in 1..Len(o.v) |-> Ccw(o.v[i])]) IN
  /\ \A i \in 1..Len(c) : InBox(M, c[i]) /\ IsPath(c[i]) /\ (grid = 1 => IsTrap(c[i], vert))
  /\ SameAt(far, Wind(c), f)

(* -------------------------------------------------------------- queries --- *)
SetMin(T) == CHOOSE a \in T : \A b \in T : a <= b
SetMax(T) == CHOOSE a \in T : \A b \in T : a >= b
Xs(ps) == UNION {{PX(ps[i], k) : k \in 1..NV(ps[i])} : i \in 1..Len(ps)}
Ys(ps) == UNION {{PY(ps[i], k) : k \in 1..NV(ps[i])} : i \in 1..Len(ps)}
(* o is an extraction of the region, seen to be right first *)
ExtOK(o, f, res, v) ==
  /\ Seen(o, f)
  /\ IF Len(o.v) = 0 THEN res = 0
     ELSE LET ps == ObsPaths(o) IN res = 1 /\ v = <<SetMin(Xs(ps)), SetMin(Ys(ps)), SetMax(Xs(ps)), SetMax(Ys(ps))>>
RECURSIVE SumArea(_, _)
SumArea(ps, i) == IF i > Len(ps) THEN 0 ELSE Area2(ps[i]) + SumArea(ps, i + 1)
AreaOK(o, f, res2) == Seen(o, f) /\ res2 = SumArea(ObsPaths(o), 1)

(* an observation of the image of the region under axis map v (0..7: bit 0    *)
(* mirrors x, bit 1 y, then bit 2 exchanges them) times m, taken back          *)
B(v, i) == (v \div i) % 2 = 1
Back(v, m, x, y) ==
  LET a == IF B(v, 4) THEN <<y, x>> ELSE <<x, y>>
  IN <<(IF B(v, 1) THEN -a[1] ELSE a[1]) \div m, (IF B(v, 2) THEN -a[2] ELSE a[2]) \div m>>
Exact(m, v) == \A i \in 1..Len(v) : v[i] % m = 0
BackPath(a, m, v) ==
  LET w == [i \in 1..Len(v) |-> LET k == (i + 1) \div 2 IN Back(a, m, v[2 * k - 1], v[2 * k])[IF i % 2 = 1 THEN 1 ELSE 2]]
  IN IF B(a, 1) # (B(a, 2) # B(a, 4)) THEN Reversed(w) ELSE w
ImageOK(o, f, a, m) ==
  LET bp(v) == TLCEval(BackPath(a, m, v)) IN
  /\ \A i \in 1..Len(o.v) : Exact(m, o.v[i].v) /\ \A j \in 1..Len(o.v[i].h) : Exact(m, o.v[i].h[j])
  /\ Seen([k |-> "H", v |-> [i \in 1..Len(o.v) |-> [v |-> bp(o.v[i].v), h |-> [j \in 1..Len(o.v[i].h) |-> bp(o.v[i].h[j])]]]], f)
(* the polygons (as extracted in oa) whose bounding box and area are in range *)
KeepOf(oa, q) ==
  LET piece(i) == <<oa.v[i].v>> \o oa.v[i].h
      w == TLCEval([i \in 1..Len(oa.v) |-> Wind(piece(i))])
      wid(i) == SetMax(Xs(piece(i))) - SetMin(Xs(piece(i)))
      hgt(i) == SetMax(Ys(piece(i))) - SetMin(Ys(piece(i)))
      ar(i) == SumArea(piece(i), 1)
      kept == TLCEval({i \in 1..Len(oa.v) : q[1] <= ar(i) /\ ar(i) <= q[2] /\ q[3] < wid(i) /\ wid(i) <= q[4] /\ q[5] < hgt(i) /\ hgt(i) <= q[6]})
  IN TLCEval([k \in 1..Len(S) |-> IF \E i \in kept : w[i][k] > 0 THEN 1 ELSE 0])

(* ------------------------------------------------------------ relations --- *)
RECURSIVE ShapePaths(_)
ShapePaths(s) == CASE s.t = "P" -> <<s.v>> [] s.t = "H" -> <<s.v>> \o s.h
(* two regions given by extractions meet: a common face or meeting boundaries *)
RegMeet(f, ef, g, eg) ==
  \/ \E k \in DOMAIN f : f[k] = 1 /\ g[k] = 1
  \/ \E i \in 1..Len(ef) : \E j \in 1..Len(eg) : SegMeet(ef[i], eg[j])
ConnOK(fs, os, edges) ==
  LET es == TLCEval([i \in 1..Len(os) |-> PathsSegs(ObsPaths(os[i]), 1)])
  IN /\ \A i \in 1..Len(os) : Seen(os[i], fs[i])
     /\ edges = {p \in (1..Len(fs)) \X (1..Len(fs)) : p[1] # p[2] /\ RegMeet(fs[p[1]], es[p[1]], fs[p[2]], es[p[2]])}
(* the polygons of a (as extracted) that meet b stay *)
InteractOf(oa, fb, ob) ==
  LET eb == TLCEval(PathsSegs(ObsPaths(ob), 1))
      piece(i) == <<oa.v[i].v>> \o oa.v[i].h
      w == TLCEval([i \in 1..Len(oa.v) |-> Wind(piece(i))])
      kept == TLCEval({i \in 1..Len(oa.v) : RegMeet(w[i], PathsSegs(piece(i), 1), fb, eb)})
  IN TLCEval([k \in 1..Len(S) |-> IF \E i \in kept : w[i][k] > 0 THEN 1 ELSE 0])
(* signed insertions of tagged shapes *)
RECURSIVE PropCnt(_, _, _)
PropCnt(ins, p, i) == IF i > Len(ins) THEN Zero
                      ELSE IF ins[i].p # p THEN PropCnt(ins, p, i + 1)
                      ELSE AddCnt(PropCnt(ins, p, i + 1), (IF ins[i].h = 1 THEN -1 ELSE 1), ShapeCnt(ins[i].s))
MergeOK(ins, out) ==
  LET prs == {ins[i].p : i \in 1..Len(ins)}
      reg == TLCEval([p \in prs |-> Bit(PropCnt(ins, p, 1))])
      lab == TLCEval([k \in 1..Len(S) |-> {p \in prs : reg[p][k] = 1}])
      keys == {lab[k] : k \in 1..Len(S)} \ {{}}
      key(i) == {out[i].ps[j] : j \in 1..Len(out[i].ps)}
  IN /\ \A i, j \in 1..Len(out) : i # j => key(i) # key(j)
     /\ \A i \in 1..Len(out) : Cardinality(key(i)) = Len(out[i].ps)
     /\ \A k \in keys : \E i \in 1..Len(out) : key(i) = k
     /\ \A i \in 1..Len(out) : key(i) # {} =>
          Seen(out[i].o, [k \in 1..Len(S) |-> IF lab[k] = key(i) THEN 1 ELSE 0])
=============================================================================
