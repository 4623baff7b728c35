-------------------------------- MODULE Voro --------------------------------
(* Voronoi diagrams of points and segments.  State: the sequence of input
   sites of a builder, <<1, x, y>> or <<2, x1, y1, x2, y2>> (numbers of Big).
   A diagram D has cells <<source, category, edge, flags>>, vertices
   <<xm, xe, ym, ye, edge, degenerate>> (coordinate xm * 2^xe) and half-edges
   <<cell, v0, twin, next, prev, flags, v1, rotnext, rotprev>>; 0 is "none". *)
EXTENDS Big, FiniteSets
VARIABLE sites
PLess(p, q) == LET c == BCmp(p[1], q[1]) IN c < 0 \/ (c = 0 /\ BLt(p[2], q[2]))
\* what a cell may stand for: <<1, p>> or <<2, p, q>> with p < q
Wanted(S) ==
  {<<1, <<S[i][2], S[i][3]>>>> : i \in 1..Len(S)}
  \cup {<<1, <<S[i][4], S[i][5]>>>> : i \in {j \in 1..Len(S) : S[j][1] = 2}}
  \cup {LET p == <<S[i][2], S[i][3]>>  q == <<S[i][4], S[i][5]>> IN IF PLess(p, q) THEN <<2, p, q>> ELSE <<2, q, p>> : i \in {j \in 1..Len(S) : S[j][1] = 2}}
Key(S, c) ==
  IF c[1] \notin 0..(Len(S) - 1) THEN <<0>>
  ELSE LET s == S[c[1] + 1] IN
    CASE c[2] = 0 /\ s[1] = 1 -> <<1, <<s[2], s[3]>>>>
      [] c[2] = 1 /\ s[1] = 2 -> <<1, <<s[2], s[3]>>>>
      [] c[2] = 2 /\ s[1] = 2 -> <<1, <<s[4], s[5]>>>>
      [] c[2] = 8 /\ s[1] = 2 /\ PLess(<<s[2], s[3]>>, <<s[4], s[5]>>) -> <<2, <<s[2], s[3]>>, <<s[4], s[5]>>>>
      [] c[2] = 9 /\ s[1] = 2 /\ PLess(<<s[4], s[5]>>, <<s[2], s[3]>>) -> <<2, <<s[4], s[5]>>, <<s[2], s[3]>>>>
      [] OTHER -> <<0>>
Keys(S, D) == [c \in 1..Len(D.cells) |-> Key(S, D.cells[c])]
IsEnd(p, s) == p[2] = s[2] \/ p[2] = s[3]
Sub2(p, q) == <<BSub(p[1], q[1]), BSub(p[2], q[2])>>
Dot(u, w) == BAdd(BMul(u[1], w[1]), BMul(u[2], w[2]))
Crs(u, w) == BSub(BMul(u[1], w[2]), BMul(u[2], w[1]))
\* ---------------------------------------------------------------- topology
\* the region of a point is squeezed out by its segments: no open half plane at p contains them all
Squeezed(p, K) ==
  LET U == {Sub2(IF K[c][2] = p[2] THEN K[c][3] ELSE K[c][2], p[2]) : c \in {d \in 1..Len(K) : K[d][1] = 2 /\ IsEnd(p, K[d])}} IN
  U # {} /\ ~\E u \in U : \A w \in U : LET x == BSgn(Crs(u, w)) IN x > 0 \/ (x = 0 /\ BSgn(Dot(u, w)) > 0)
NegMin(a, b) == IF a < 0 /\ a < b THEN -a ELSE IF b < 0 THEN -b ELSE 0
\* vertex as <<X, Y, k>>: coordinates X, Y in units of 2^-k
VScale(v, k) == <<BShl(v[1], v[2] + k), BShl(v[3], v[4] + k), k>>
VK(v) == NegMin(v[2], v[4])
V2(p, k) == <<BShl(p[1], k), BShl(p[2], k)>>
BOne == <<1, 1>>
\* squared distance of z to a site, as a fraction, in units of 2^-2k
Dist(s, z) ==
  IF s[1] = 1 THEN LET w == Sub2(z, V2(s[2], z[3])) IN <<Dot(w, w), BOne>>
  ELSE LET u == Sub2(s[3], s[2])  w == TLCEval(Sub2(z, V2(s[2], z[3])))  t == TLCEval(Dot(w, u))  l == TLCEval(Dot(u, u)) IN
       IF BSgn(t) <= 0 THEN <<Dot(w, w), BOne>>
       ELSE IF BLe(BShl(l, z[3]), t) THEN LET w2 == Sub2(z, V2(s[3], z[3])) IN <<Dot(w2, w2), BOne>>
       ELSE <<BSq(Crs(u, w)), l>>
\* or another site is so close that the region of the point is smaller than the spacing of united vertices
Tiny(p, K) ==
  LET m2 == BSq(BAdd(BAbs(p[2][1]), BAbs(p[2][2]))) IN
  \E c \in 1..Len(K) : K[c] # p /\ ~(K[c][1] = 2 /\ IsEnd(p, K[c])) /\ LET d == Dist(K[c], <<p[2][1], p[2][2], 0>>) IN BLe(BShl(d[1], 2 * 43), BMul(m2, d[2]))
RECURSIVE Orbit(_, _, _, _, _)
Orbit(E, i, f, start, acc) ==     \* the edges reached from start by field f; fails to close = {0}
  LET j == E[i][f] IN IF j = start THEN acc ELSE IF j \in acc THEN {0} ELSE Orbit(E, j, f, start, acc \cup {j})
CellsOK(S, D, K) ==
  /\ {K[c] : c \in 1..Len(K)} = Wanted(S) /\ Len(K) = Cardinality(Wanted(S))
  /\ \A c \in 1..Len(K) : D.cells[c][4] = (IF K[c][1] = 1 THEN 1 ELSE 2) + (IF D.cells[c][3] = 0 THEN 4 ELSE 0)
EdgeOK(E, nc, nv, K, i) ==
  LET e == E[i] IN
  /\ e[1] \in 1..nc /\ e[2] \in 0..nv /\ e[3] \in 1..Len(E) /\ e[4] \in 1..Len(E) /\ e[5] \in 1..Len(E)
  /\ LET t == E[e[3]] IN
     /\ e[3] # i /\ t[3] = i /\ t[1] # e[1]
     /\ E[e[4]][5] = i /\ E[e[5]][4] = i /\ E[e[4]][1] = e[1]
     /\ E[e[4]][2] = t[2]                             \* the next edge starts where this one ends
     /\ e[7] = t[2] /\ e[8] = E[e[5]][3] /\ e[9] = t[4]
     /\ LET a == K[e[1]]  b == K[t[1]]
            own == (a[1] = 1 /\ b[1] = 2 /\ IsEnd(a, b)) \/ (a[1] = 2 /\ b[1] = 1 /\ IsEnd(b, a))
            prim == ~own
            lin == own \/ a[1] = b[1]
            fin == e[2] # 0 /\ t[2] # 0 IN
        e[6] = (IF prim THEN 1 ELSE 2) + (IF lin THEN 4 ELSE 8) + (IF fin THEN 16 ELSE 32)
TopoOK(S, D) ==
  LET K == TLCEval(Keys(S, D))  E == D.edges  nc == Len(D.cells)  nv == Len(D.verts) IN
  /\ CellsOK(S, D, K)
  /\ IF nc <= 1 THEN E = <<>> /\ nv = 0 /\ \A c \in 1..nc : D.cells[c][3] = 0
     ELSE /\ \A i \in 1..Len(E) : EdgeOK(E, nc, nv, K, i)
          /\ \A c \in 1..nc : LET i == D.cells[c][3] IN
             IF i = 0 THEN K[c][1] = 1 /\ (Squeezed(K[c], K) \/ Tiny(K[c], K)) /\ \A j \in 1..Len(E) : E[j][1] # c
             ELSE
                /\ i \in 1..Len(E) /\ E[i][1] = c
                /\ Orbit(E, i, 4, i, {i}) = {j \in 1..Len(E) : E[j][1] = c}
          /\ \A v \in 1..nv : LET i == D.verts[v][5]  at == {j \in 1..Len(E) : E[j][2] = v} IN
                /\ i \in at /\ D.verts[v][6] = 0 /\ (Cardinality(at) >= 3 \/ (Cardinality(at) = 2 /\ \E c \in 1..nc : D.cells[c][3] = 0 /\ Tiny(K[c], K)))
                /\ Orbit(E, i, 8, i, {i}) = at
          \* with a vertex at infinity the diagram is one connected map of the sphere
          /\ 2 * nv - Len(E) + 2 * Cardinality({c \in 1..nc : D.cells[c][3] # 0}) = 2
\* ---------------------------------------------------------------- geometry
\* the tolerance: m is |x| + |y|; coordinates carry a relative error below 2^-45.  When the sizes of the features span
\* more than sqrt of that (lo, ext the squared extent of the input), nearly simultaneous events may be taken in either
\* order: then only what is larger than 2^-20 of the extent is definite.
Tol == 45
TolOf(ext) == IF ext = <<0>> THEN Tol ELSE 20
M2(z) == BSq(BAdd(BAbs(z[1]), BAbs(z[2])))
NearD(d1, d2, m2, tol) ==
  LET a == TLCEval(BMul(d1[1], d2[2]))  b == TLCEval(BMul(d2[1], d1[2])) IN
  a = b \/ BLe(BShl(BSq(BSub(a, b)), 2 * tol), BMul(BShl(BMul(m2, BMul(d1[2], d2[2])), 4), BMax2(a, b)))
LessD(d1, d2) == BLt(BMul(d1[1], d2[2]), BMul(d2[1], d1[2]))
\* t (a dot product with direction of squared length l) is not negative beyond the tolerance
NotNegT(t, l, m2, tol) == BSgn(t) >= 0 \/ BLe(BShl(BSq(t), 2 * tol), BMul(BShl(m2, 4), l))
NotNeg(t, l, m2) == NotNegT(t, l, m2, Tol)
VertexOK(K, E, V, v, ext) ==
  LET at == {K[E[i][1]] : i \in {j \in 1..Len(E) : E[j][2] = v}}
      z == TLCEval(VScale(V[v], VK(V[v])))  m2 == TLCEval(M2(z))
      d == TLCEval([c \in 1..Len(K) |-> TLCEval(Dist(K[c], z))])
      b == CHOOSE c \in 1..Len(K) : K[c] \in at IN
  /\ V[v][2] < 90000 /\ V[v][4] < 90000
  /\ \A c \in 1..Len(K) : IF K[c] \in at THEN NearD(d[c], d[b], m2, Tol) ELSE (~LessD(d[c], d[b]) \/ NearD(d[c], d[b], BAdd(m2, BShl(ext, 2 * z[3])), TolOf(ext)))
  \* the part of the plane a cell can reach
  /\ \A s \in at :
       IF s[1] = 2 THEN LET u == Sub2(s[3], s[2])  l == Dot(u, u) IN
            NotNeg(Dot(Sub2(z, V2(s[2], z[3])), u), l, m2) /\ NotNeg(BNeg(Dot(Sub2(z, V2(s[3], z[3])), u)), l, m2)
       ELSE \A c \in 1..Len(K) : (K[c][1] = 2 /\ IsEnd(s, K[c])) =>
            LET u == Sub2(s[2], IF K[c][2] = s[2] THEN K[c][3] ELSE K[c][2]) IN NotNeg(Dot(Sub2(z, V2(s[2], z[3])), u), Dot(u, u), m2)
\* coordinates of a vertex of point sites are within 2^-46 of the exact circumcentre of three of them
Circum(p, q, r) ==
  LET b == Sub2(q, p)  c == Sub2(r, p)  bb == Dot(b, b)  cc == Dot(c, c)  den == BTwice(Crs(b, c)) IN
  <<BAdd(BMul(p[1], den), BSub(BMul(c[2], bb), BMul(b[2], cc))), BAdd(BMul(p[2], den), BSub(BMul(b[1], cc), BMul(c[1], bb))), den>>
RelClose(x, k, num, den, bits) == BLe(BShl(BAbs(BSub(BMul(x, den), BShl(num, k))), bits), BAbs(BShl(num, k)))
CoordOK(K, E, V, v) ==
  LET at == {K[E[i][1]] : i \in {j \in 1..Len(E) : E[j][2] = v}}  z == VScale(V[v], VK(V[v])) IN
  (\A s \in at : s[1] = 1) =>
    \E t \in SUBSET at : Cardinality(t) = 3 /\
      \E p \in t : \E q \in t \ {p} : \E r \in t \ {p, q} : PLess(p[2], q[2]) /\ PLess(q[2], r[2]) /\
        LET c == TLCEval(Circum(p[2], q[2], r[2])) IN
        BSgn(c[3]) # 0 /\ RelClose(z[1], z[3], c[1], c[3], 46) /\ RelClose(z[2], z[3], c[2], c[3], 46)
\* direction of travel: own cell on the left.  Edges whose supporting line is known: the normal to the left
Normal(a, b) ==      \* of an edge of cell a against cell b; <<>> when neither a bisector of points nor the border of a segment and its end
  IF a[1] = 1 /\ b[1] = 1 THEN Sub2(a[2], b[2])
  ELSE IF a[1] = 1 /\ IsEnd(a, b) THEN Sub2(a[2], IF b[2] = a[2] THEN b[3] ELSE b[2])
  ELSE IF b[1] = 1 /\ IsEnd(b, a) THEN Sub2(IF a[2] = b[2] THEN a[3] ELSE a[2], b[2])
  ELSE <<>>
Points(K) == {K[c][2] : c \in {d \in 1..Len(K) : K[d][1] = 1}}
EdgeGeoOK(K, E, V, i, ext) ==
  LET e == E[i]  t == E[e[3]]  a == K[e[1]]  b == K[t[1]]
      own == (IF a[1] = 2 THEN b[1] = 1 /\ IsEnd(b, a) ELSE IF b[1] = 2 THEN IsEnd(a, b) ELSE FALSE)
      N == IF a[1] = 2 /\ b[1] = 2 THEN <<>> ELSE Normal(a, b) IN
  IF e[2] = 0 \/ t[2] = 0 THEN
    \* reaches infinity: nothing lies further out in the direction of the edge
    /\ N # <<>>
    /\ LET p == (IF a[1] = 1 THEN a[2] ELSE b[2])  d == <<N[2], BNeg(N[1])>> IN
       \A r \in Points(K) : LET h == Dot(Sub2(r, p), d)  f == IF ext # <<0>> /\ NotNegT(h, Dot(d, d), ext, 20) /\ NotNegT(BNeg(h), Dot(d, d), ext, 20) THEN 0 ELSE BSgn(h) IN
          /\ (t[2] = 0 => f <= 0) /\ (e[2] = 0 => f >= 0)
          \* among sites on the supporting line, none between the two
          /\ (f = 0 /\ ~own /\ ext = <<0>>) => LET q == b[2] IN BSgn(Dot(Sub2(r, p), Sub2(r, q))) >= 0
  ELSE LET k == LET k1 == VK(V[e[2]])  k2 == VK(V[t[2]]) IN IF k1 > k2 THEN k1 ELSE k2
           z0 == TLCEval(VScale(V[e[2]], k))  z1 == TLCEval(VScale(V[t[2]], k))
           w == Sub2(z1, z0)  m2 == BAdd(BMax2(M2(z0), M2(z1)), BShl(ext, 2 * k))  tol == TolOf(ext) IN
       /\ z0 # z1
       /\ IF N # <<>> THEN LET d == <<N[2], BNeg(N[1])>> IN NotNegT(Dot(w, d), Dot(d, d), m2, tol)
          ELSE LET s == IF a[1] = 2 THEN a ELSE b
                   u == Sub2(s[3], s[2])  c0 == Crs(u, Sub2(z0, V2(s[2], k)))  c1 == Crs(u, Sub2(z1, V2(s[2], k)))
                   g == BSgn(IF BLt(BAbs(c0), BAbs(c1)) THEN c1 ELSE c0)
                   x == Dot(w, u) IN
               NotNegT(IF (g > 0) = (a[1] = 2) THEN BNeg(x) ELSE x, Dot(u, u), m2, tol)
\* coinciding vertices have been united: an edge is longer than 2^-b of its coordinates
Apart(E, V, i, b) ==
  LET e == E[i]  t == E[e[3]] IN
  (e[2] # 0 /\ t[2] # 0) =>
    LET k == LET k1 == VK(V[e[2]])  k2 == VK(V[t[2]]) IN IF k1 > k2 THEN k1 ELSE k2
        z0 == TLCEval(VScale(V[e[2]], k))  z1 == TLCEval(VScale(V[t[2]], k)) IN
    \/ BLt(BMin2(BAbs(z0[1]), BAbs(z1[1])), BShl(BAbs(BSub(z0[1], z1[1])), b))
    \/ BLt(BMin2(BAbs(z0[2]), BAbs(z1[2])), BShl(BAbs(BSub(z0[2], z1[2])), b))
RECURSIVE MaxM2(_, _)
MaxM2(P, acc) == IF P = {} THEN acc ELSE LET p == CHOOSE p \in P : TRUE IN MaxM2(P \ {p}, BMax2(acc, M2(p)))
GeoOK(S, D, b, lo) ==
  LET K == TLCEval(Keys(S, D))  E == D.edges  V == D.verts
      ext == TLCEval(IF lo THEN MaxM2(Points(K), <<0>>) ELSE <<0>>) IN
  /\ \A v \in 1..Len(V) : VertexOK(K, E, V, v, ext) /\ CoordOK(K, E, V, v)
  /\ \A i \in 1..Len(E) : EdgeGeoOK(K, E, V, i, ext) /\ Apart(E, V, i, b)
=============================================================================
