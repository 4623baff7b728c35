------------------------------ MODULE Algebra ------------------------------
(* Intervals, points, rectangles and segments as closed coordinate sets over
   the (unbounded) integers, and the operations the geometry concepts offer
   on them.  Registers: iv (intervals <<low, high>>), pt (points <<x, y>>),
   rc (rectangles <<horizontal interval, vertical interval>>), sg (segments
   <<low point, high point>>).  Coordinates are numbers of module Big.
   Every operation is stated from the meaning of the objects, as sets of
   coordinates or points, not from the way the library computes it. *)
EXTENDS Big
VARIABLES iv, pt, rc, sg
avars == <<iv, pt, rc, sg>>
B01(b) == IF b THEN 1 ELSE 0
HOR == 1
VER == 2
\* ------------------------------------------------------------ intervals
IOk(i) == BLe(i[1], i[2])
\* closed (t) or open (~t) membership, containment, intersection of intervals
IHas(i, v, t) == IF t THEN BLe(i[1], v) /\ BLe(v, i[2]) ELSE BLt(i[1], v) /\ BLt(v, i[2])
ISub(i, j, t) == IHas(i, j[1], t) /\ IHas(i, j[2], t)          \* j within i
IMeet(i, j) == <<BMax2(i[1], j[1]), BMin2(i[2], j[2])>>
\* closed sets meet / open interior of the one meets the open interior of the other
\* (a single point counts as its own interior here: it is inside what strictly contains it)
IInter(i, j, t) == IF t THEN BLe(IMeet(i, j)[1], IMeet(i, j)[2])
                   ELSE BLt(i[1], j[2]) /\ BLt(j[1], i[2])
\* the ends separate: they meet and neither swallows the other
IBound(i, j, t) == IInter(i, j, t) /\ ~ISub(i, j, ~t) /\ ~ISub(j, i, ~t)
IClip(i, j, t) == IF t THEN BLe(IMeet(i, j)[1], IMeet(i, j)[2]) ELSE BLt(IMeet(i, j)[1], IMeet(i, j)[2])
IAbutD(i, j, d) == IF d = 1 THEN j[1] = i[2] ELSE i[1] = j[2]
IAbut(i, j) == IAbutD(i, j, 0) \/ IAbutD(i, j, 1)
IHull(i, j) == <<BMin2(i[1], j[1]), BMax2(i[2], j[2])>>
IGap(i, j) == LET a == BSub(j[1], i[2])  b == BSub(i[1], j[2]) IN BMax2(BZero, BMax2(a, b))
ILen(i) == BSub(i[2], i[1])
IAdd(i, v) == <<BAdd(i[1], v), BAdd(i[2], v)>>
ISorted(a, b) == <<BMin2(a, b), BMax2(a, b)>>
\* the middle two of the four ends
IMid(i, j) ==
  LET lo == BMin2(i[1], j[1])  hi == BMax2(i[2], j[2])
      a == BMax2(i[1], j[1])   b == BMin2(i[2], j[2]) IN ISorted(a, b)
\* where the middle of i lies: exact half rounded towards zero
ICen(i, c) == BIsTruncQuot(BAdd(i[1], i[2]), BInt(2), c)
IHalf(i, d, h) == \/ d = 0 /\ h[1] = i[1] /\ ICen(i, h[2])
                  \/ d = 1 /\ h[2] = i[2] /\ ICen(i, h[1])
IRev(i) == <<BNeg(i[2]), BNeg(i[1])>>
IGrow(i, d, v) == IF d = 0 THEN <<BSub(i[1], v), i[2]>> ELSE <<i[1], BAdd(i[2], v)>>
ILess(a, b) == \/ BLt(a[1], b[1]) \/ (a[1] = b[1] /\ BLt(a[2], b[2]))
\* answers about intervals i and j (and a value v, a boundary flag t, a direction d)
IAsk(op, i, j, v, t, d, r) ==
  CASE op = "eq"       -> r = B01(i = j)
    [] op = "less"     -> r = B01(ILess(i, j))
    [] op = "hasv"     -> r = B01(IHas(i, v, t = 1))
    [] op = "has"      -> r = B01(ISub(i, j, t = 1))
    [] op = "inter"    -> r = B01(IInter(i, j, t = 1))
    [] op = "bound"    -> r = B01(IBound(i, j, t = 1))
    [] op = "abutd"    -> r = B01(IAbutD(i, j, d))
    [] op = "abut"     -> r = B01(IAbut(i, j))
    [] op = "delta"    -> r = ILen(i)
    [] op = "center"   -> ICen(i, r)
    [] op = "distv"    -> r = IGap(i, <<v, v>>)
    [] op = "dist"     -> r = IGap(i, j)
    [] op = "get"      -> r = i[d + 1]
\* changes of interval i to n, reporting r
IDo(op, i, j, v, w, t, d, n, r) ==
  CASE op = "make"     -> n = ISorted(v, w)
    [] op = "copy"     -> n = j
    [] op = "set"      -> n = [i EXCEPT ![d + 1] = v]
    [] op = "flip"     -> n = IAdd(IRev(i), BTwice(v))
    [] op = "up"       -> n = <<BMul(i[1], v), BMul(i[2], v)>>
    [] op = "down"     -> \A k \in 1..2 : BIsTruncQuot(i[k], v, n[k])
    [] op = "scale"    -> \A k \in 1..2 : BIsRound(BMul(i[k], v), w, n[k])
    [] op = "move"     -> n = IAdd(i, v)
    [] op = "moveback" -> n = IAdd(i, BNeg(v))
    [] op = "conv"     -> n = <<BAdd(i[1], j[1]), BAdd(i[2], j[2])>>
    [] op = "deconv"   -> n = <<BSub(i[1], j[1]), BSub(i[2], j[2])>>
    [] op = "rconv"    -> n = <<BSub(i[1], j[2]), BSub(i[2], j[1])>>
    [] op = "rdeconv"  -> n = <<BAdd(i[1], j[2]), BAdd(i[2], j[1])>>
    [] op = "clip"     -> r = B01(IClip(i, j, t = 1)) /\ n = (IF r = 1 THEN IMeet(i, j) ELSE i)
    [] op = "gclip"    -> n = IMid(i, j)
    [] op = "bloat"    -> n = <<BSub(i[1], v), BAdd(i[2], v)>>
    [] op = "bloatd"   -> n = IGrow(i, d, v)
    [] op = "shrink"   -> n = <<BAdd(i[1], v), BSub(i[2], v)>>
    [] op = "shrinkd"  -> n = IGrow(i, d, BNeg(v))
    [] op = "hull"     -> n = IHull(i, j) /\ r = B01(n # i)
    [] op = "hullv"    -> n = IHull(i, <<v, v>>) /\ r = B01(n # i)
    [] op = "half"     -> IHalf(i, d, n)
    [] op = "join"     -> r = B01(IAbut(i, j)) /\ n = (IF r = 1 THEN IHull(i, j) ELSE i)
\* ------------------------------------------------------------ points
PGap(p, q, o) == BAbs(BSub(p[o], q[o]))
PDist2(p, q) == BAdd(BSq(BSub(p[1], q[1])), BSq(BSub(p[2], q[2])))
PLess(p, q) == BLt(p[1], q[1]) \/ (p[1] = q[1] /\ BLt(p[2], q[2]))
PAdd(p, q) == <<BAdd(p[1], q[1]), BAdd(p[2], q[2])>>
PSub(p, q) == <<BSub(p[1], q[1]), BSub(p[2], q[2])>>
PAsk(op, p, q, o, k, r) ==
  CASE op = "eq"    -> r = B01(p = q)
    [] op = "less"  -> r = B01(PLess(p, q))
    [] op = "get"   -> r = p[o]
    [] op = "man"   -> r = BAdd(PGap(p, q, 1), PGap(p, q, 2))
    [] op = "gap"   -> r = PGap(p, q, o)
    [] op = "d2"    -> r = PDist2(p, q)
    [] op = "dist"  -> BIsSqrt(PDist2(p, q), <<1, 1>>, r, k)
PDo(op, p, q, v, w, o, n) ==
  CASE op = "make"   -> n = <<v, w>>
    [] op = "copy"   -> n = q
    [] op = "set"    -> n = [p EXCEPT ![o] = v]
    [] op = "conv"   -> n = PAdd(p, q)
    [] op = "deconv" -> n = PSub(p, q)
    [] op = "up"     -> n = <<BMul(p[1], v), BMul(p[2], v)>>
    [] op = "down"   -> BIsRound(p[1], v, n[1]) /\ BIsRound(p[2], v, n[2])
    [] op = "move"   -> n = [p EXCEPT ![o] = BAdd(p[o], v)]
\* ------------------------------------------------------------ rectangles
RHas(a, b, t) == ISub(a[1], b[1], t) /\ ISub(a[2], b[2], t)
RHasP(a, p, t) == IHas(a[1], p[1], t) /\ IHas(a[2], p[2], t)
RInter(a, b, t) == IInter(a[1], b[1], t) /\ IInter(a[2], b[2], t)
RBound(a, b, t) == RInter(a, b, t) /\ ~RHas(a, b, ~t) /\ ~RHas(b, a, ~t)
RClip(a, b, t) == IClip(a[1], b[1], t) /\ IClip(a[2], b[2], t)
\* b touches the side of a facing direction d of axis o
RAbutD(a, b, o, d) == IAbutD(a[o], b[o], d) /\ IInter(a[3 - o], b[3 - o], TRUE)
RAbutO(a, b, o) == RAbutD(a, b, o, 0) \/ RAbutD(a, b, o, 1)
RPt(p) == <<<<p[1], p[1]>>, <<p[2], p[2]>>>>
RMap2(a, b, F(_, _)) == <<F(a[1], b[1]), F(a[2], b[2])>>
RGap2(a, b) == BAdd(BSq(IGap(a[1], b[1])), BSq(IGap(a[2], b[2])))
\* lexicographic on low in o, low across, high in o, high across
RLess(a, b, o) ==
  LET k(x) == <<x[o][1], x[3 - o][1], x[o][2], x[3 - o][2]>>
      m == {j \in 1..4 : k(a)[j] # k(b)[j]} IN
  m # {} /\ LET j == CHOOSE x \in m : \A y \in m : x <= y IN BLt(k(a)[j], k(b)[j])
\* unit vectors of direction d of axis o; quarter turns
Vec(o, d) == IF o = 1 THEN <<2 * d - 1, 0>> ELSE <<0, 2 * d - 1>>
Left(u) == <<-u[2], u[1]>>
Right(u) == <<u[2], -u[1]>>
\* the coordinate of the side of a that faces unit vector u
RSide(a, u) == IF u[1] # 0 THEN a[1][(u[1] + 3) \div 2] ELSE a[2][(u[2] + 3) \div 2]
RCorner(a, o, d, turn) ==
  LET u == Vec(o, d)  w == IF turn = 0 THEN Left(u) ELSE Right(u) IN
  IF o = 1 THEN <<RSide(a, u), RSide(a, w)>> ELSE <<RSide(a, w), RSide(a, u)>>
RCanJoin(a, b) == (a[1] = b[1] /\ IAbut(a[2], b[2])) \/ (a[2] = b[2] /\ IAbut(a[1], b[1]))
RAsk(op, a, b, p, o, d, t, k, r) ==
  CASE op = "eq"     -> r = B01(a = b)
    [] op = "get"    -> r = a[o]
    [] op = "side"   -> r = a[o][d + 1]
    [] op = "has"    -> r = B01(RHas(a, b, t = 1))
    [] op = "hasp"   -> r = B01(RHasP(a, p, t = 1))
    [] op = "inter"  -> r = B01(RInter(a, b, t = 1))
    [] op = "bound"  -> r = B01(RBound(a, b, t = 1))
    [] op = "abutd"  -> r = B01(RAbutD(a, b, o, d))
    [] op = "abuto"  -> r = B01(RAbutO(a, b, o))
    [] op = "abut"   -> r = B01(RAbutO(a, b, 1) \/ RAbutO(a, b, 2))
    [] op = "delta"  -> r = ILen(a[o])
    [] op = "area"   -> r = BMul(ILen(a[1]), ILen(a[2]))
    [] op = "guess"  -> r = (IF BLe(ILen(a[2]), ILen(a[1])) THEN 1 ELSE 2)
    [] op = "half"   -> r = BAdd(ILen(a[1]), ILen(a[2]))
    [] op = "perim"  -> r = BTwice(BAdd(ILen(a[1]), ILen(a[2])))
    [] op = "less"   -> r = B01(RLess(a, b, o))
    [] op = "center" -> ICen(a[1], r[1]) /\ ICen(a[2], r[2])
    [] op = "corner" -> r = RCorner(a, o, d, t)
    [] op = "gapp"   -> r = IGap(a[o], <<p[o], p[o]>>)
    [] op = "gap"    -> r = IGap(a[o], b[o])
    [] op = "manp"   -> r = BAdd(IGap(a[1], <<p[1], p[1]>>), IGap(a[2], <<p[2], p[2]>>))
    [] op = "man"    -> r = BAdd(IGap(a[1], b[1]), IGap(a[2], b[2]))
    [] op = "d2p"    -> r = RGap2(a, RPt(p))
    [] op = "d2"     -> r = RGap2(a, b)
    [] op = "distp"  -> BIsSqrt(RGap2(a, RPt(p)), <<1, 1>>, r, k)
    [] op = "dist"   -> BIsSqrt(RGap2(a, b), <<1, 1>>, r, k)
RDo(op, a, b, i, p, q, v, w, o, d, t, n, r) ==
  CASE op = "make"    -> n = <<ISorted(p[1], q[1]), ISorted(p[2], q[2])>>
    [] op = "copy"    -> n = b
    [] op = "seti"    -> n = [a EXCEPT ![o] = i]
    [] op = "setd"    -> n = [a EXCEPT ![o][d + 1] = v]
    [] op = "move"    -> n = [a EXCEPT ![o] = IAdd(a[o], v)]
    [] op = "conv"    -> n = RMap2(a, b, LAMBDA x, y : <<BAdd(x[1], y[1]), BAdd(x[2], y[2])>>)
    [] op = "deconv"  -> n = RMap2(a, b, LAMBDA x, y : <<BSub(x[1], y[1]), BSub(x[2], y[2])>>)
    [] op = "rconv"   -> n = RMap2(a, b, LAMBDA x, y : <<BSub(x[1], y[2]), BSub(x[2], y[1])>>)
    [] op = "rdeconv" -> n = RMap2(a, b, LAMBDA x, y : <<BAdd(x[1], y[2]), BAdd(x[2], y[1])>>)
    [] op = "convp"   -> n = <<IAdd(a[1], p[1]), IAdd(a[2], p[2])>>
    [] op = "deconvp" -> n = <<IAdd(a[1], BNeg(p[1])), IAdd(a[2], BNeg(p[2]))>>
    [] op = "clipi"   -> r = B01(IClip(a[o], i, t = 1)) /\ n = (IF r = 1 THEN [a EXCEPT ![o] = IMeet(a[o], i)] ELSE a)
    [] op = "clip"    -> r = B01(RClip(a, b, t = 1)) /\ n = (IF r = 1 THEN RMap2(a, b, IMeet) ELSE a)
    [] op = "gclip"   -> n = RMap2(a, b, IMid)
    [] op = "bloato"  -> n = [a EXCEPT ![o] = <<BSub(@[1], v), BAdd(@[2], v)>>]
    [] op = "bloat"   -> n = <<<<BSub(a[1][1], v), BAdd(a[1][2], v)>>, <<BSub(a[2][1], v), BAdd(a[2][2], v)>>>>
    [] op = "bloatd"  -> n = [a EXCEPT ![o] = IGrow(@, d, v)]
    [] op = "hulli"   -> n = [a EXCEPT ![o] = IHull(@, i)] /\ r = B01(n # a)
    [] op = "hull"    -> n = RMap2(a, b, IHull) /\ r = B01(n # a)
    [] op = "hullp"   -> n = RMap2(a, RPt(p), IHull) /\ r = B01(n # a)
    [] op = "halfd"   -> IHalf(a[o], d, n[o]) /\ n[3 - o] = a[3 - o]
    [] op = "join"    -> r = B01(RCanJoin(a, b)) /\ n = (IF r = 1 THEN RMap2(a, b, IHull) ELSE a)
    [] op = "up"      -> n = <<<<BMul(a[1][1], v), BMul(a[1][2], v)>>, <<BMul(a[2][1], v), BMul(a[2][2], v)>>>>
    [] op = "down"    -> \A x \in 1..2 : \A y \in 1..2 : BIsTruncQuot(a[x][y], v, n[x][y])
\* ------------------------------------------------------------ segments
Cross(u, w) == BSub(BMul(u[1], w[2]), BMul(u[2], w[1]))
Dot(u, w) == BAdd(BMul(u[1], w[1]), BMul(u[2], w[2]))
SDir(s) == PSub(s[2], s[1])
\* p lies on the closed segment s
On(s, p) == /\ BSgn(Cross(SDir(s), PSub(p, s[1]))) = 0
            /\ IHas(ISorted(s[1][1], s[2][1]), p[1], TRUE) /\ IHas(ISorted(s[1][2], s[2][2]), p[2], TRUE)
IsEnd(s, p) == p \in {s[1], s[2]}
Side(s, p) == BSgn(Cross(SDir(s), PSub(p, s[1])))
\* the segments cross at one point interior to both
Proper(s, u) == Side(s, u[1]) * Side(s, u[2]) < 0 /\ Side(u, s[1]) * Side(u, s[2]) < 0
\* a common point exists exactly if they cross properly or an end of one lies on the other
SMeet(s, u) == Proper(s, u) \/ On(s, u[1]) \/ On(s, u[2]) \/ On(u, s[1]) \/ On(u, s[2])
\* some common point is not an end of both.  If two segments have only common ends on each
\* other and share two different ones they coincide, and their inside is common
SMeetOpen(s, u) ==
  \/ Proper(s, u)
  \/ \E k \in 1..2 : (On(s, u[k]) /\ ~IsEnd(s, u[k])) \/ (On(u, s[k]) /\ ~IsEnd(u, s[k]))
  \/ {s[1], s[2]} = {u[1], u[2]} /\ s[1] # s[2]
\* squared distance from p to s as a fraction <<n, d>>
SPDist(s, p) ==
  LET w == SDir(s)  a == PSub(p, s[1])  l == Dot(w, w)  m == Dot(a, w) IN
  IF BSgn(l) = 0 \/ BSgn(m) <= 0 THEN <<PDist2(p, s[1]), <<1, 1>>>>
  ELSE IF BLe(l, m) THEN <<PDist2(p, s[2]), <<1, 1>>>>
  ELSE <<BSq(Cross(w, a)), l>>
FracLe(f, g) == BLe(BMul(f[1], g[2]), BMul(g[1], f[2]))
SSDist(s, u) ==
  IF SMeet(s, u) THEN <<BZero, <<1, 1>>>>
  ELSE LET c == <<SPDist(s, u[1]), SPDist(s, u[2]), SPDist(u, s[1]), SPDist(u, s[2])>> IN
       c[CHOOSE i \in 1..4 : \A j \in 1..4 : FracLe(c[i], c[j])]
SLess(s, u) == PLess(s[1], u[1]) \/ (s[1] = u[1] /\ PLess(s[2], u[2]))
\* the eight axis symmetries: swap the axes, then negate
Axis(x, p) == LET q == IF x[1] = 1 THEN <<p[2], p[1]>> ELSE p IN
              <<IF x[2] = 1 THEN BNeg(q[1]) ELSE q[1], IF x[3] = 1 THEN BNeg(q[2]) ELSE q[2]>>
SAsk(op, s, u, p, d, t, k, r) ==
  CASE op = "eq"     -> r = B01(s = u)
    [] op = "less"   -> r = B01(SLess(s, u))
    [] op = "get"    -> r = s[d + 1]
    [] op = "orient" -> r = BSgn(Cross(SDir(s), SDir(u)))
    [] op = "side"   -> r = Side(s, p)
    [] op = "hasp"   -> r = B01(On(s, p) /\ (t = 1 \/ ~IsEnd(s, p)))
    [] op = "has"    -> r = B01(\A e \in 1..2 : On(s, u[e]) /\ (t = 1 \/ ~IsEnd(s, u[e])))
    [] op = "inter"  -> r = B01(IF t = 1 THEN SMeet(s, u) ELSE SMeetOpen(s, u))
    [] op = "abutd"  -> r = B01(IF d = 1 THEN u[1] = s[2] ELSE s[1] = u[2])
    [] op = "abut"   -> r = B01(u[1] = s[2] \/ s[1] = u[2])
    [] op = "center" -> \A o \in 1..2 : BIsTruncQuot(BAdd(s[1][o], s[2][o]), BInt(2), r[o])
    [] op = "len"    -> BIsSqrt(PDist2(s[1], s[2]), <<1, 1>>, r, k)
    [] op = "distp"  -> (LET f == SPDist(s, p) IN BIsSqrt(f[1], f[2], r, k))
    [] op = "dist"   -> (LET f == SSDist(s, u) IN BIsSqrt(f[1], f[2], r, k))
SDo(op, s, u, p, q, v, o, d, x, n) ==
  CASE op = "make"   -> n = <<p, q>>
    [] op = "copy"   -> n = u
    [] op = "set"    -> n = [s EXCEPT ![d + 1] = p]
    [] op = "move"   -> n = [e \in 1..2 |-> [s[e] EXCEPT ![o] = BAdd(s[e][o], v)]]
    [] op = "conv"   -> n = <<PAdd(s[1], p), PAdd(s[2], p)>>
    [] op = "deconv" -> n = <<PSub(s[1], p), PSub(s[2], p)>>
    [] op = "up"     -> n = [e \in 1..2 |-> <<BMul(s[e][1], v), BMul(s[e][2], v)>>]
    [] op = "down"   -> \A e \in 1..2 : \A c \in 1..2 : BIsRound(s[e][c], v, n[e][c])
    [] op = "axis"   -> n = <<Axis(x, s[1]), Axis(x, s[2])>>
\* ------------------------------------------------------------ directions
\* The four plane directions are the unit vectors; answers of the isotropy
\* types for direction <<o, d>> must be those of the vectors.
DirOK(f) ==
  LET u == Vec(f.o, f.d)
      v(z) == Vec(z[1], z[2]) IN
  /\ v(f.left) = Left(u) /\ v(f.right) = Right(u) /\ v(f.back) = <<-u[1], -u[2]>>
  /\ v(f.turn1) = Left(u) /\ v(f.turn0) = Right(u)
  /\ f.pos = B01(u[1] + u[2] > 0) /\ f.neg = 1 - f.pos /\ f.sign = u[1] + u[2]
  /\ f.axis = f.o /\ f.end = f.d /\ v(f.again) = u /\ f.perp = 3 - f.o
  /\ f.back1 = 1 - f.d /\ f.sign1 = 2 * f.d - 1
  /\ f.back3 = <<f.o, 1 - f.d>> /\ f.axis3 = f.o /\ f.end3 = f.d
AIs == \A k \in DOMAIN iv : IOk(iv[k])
=============================================================================
