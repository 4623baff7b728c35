------------------------------ MODULE ManhRel ------------------------------
(* Relations among Manhattan regions: connectivity, interaction, properties.  *)
EXTENDS Manh

(* the closed regions of f and g have a point in common *)
Meet(f, g) == \E c \in Cells(n) : f[c] = 1 /\ (g[c] = 1 \/ \E d \in Nbr8(c) : g[d] = 1)

(* the connectivity graph of a sequence of regions *)
ConnGraph(fs) == {p \in (1..Len(fs)) \X (1..Len(fs)) : p[1] # p[2] /\ Meet(fs[p[1]], fs[p[2]])}

(* the connected parts of f that meet g; f without corner touches *)
Interact(f, g) ==
  LET gk == {c \in Cells(n) : g[c] = 1}
      near == gk \cup UNION {Nbr8(c) : c \in gk}
      kept == UNION {k \in Comps(On(f), FALSE) : k \cap near # {}}
  IN [c \in Cells(n) |-> IF c \in kept THEN 1 ELSE 0]

(* ------------------------------------------------------- property merge --- *)
(* ins: a sequence of [p |-> property, h |-> 1 if a hole, s |-> shape].  The  *)
(* properties present at a cell are those inserted there more often than      *)
(* they were removed.                                                         *)
RECURSIVE PropCnt(_, _)
PropCnt(ins, p) ==
  IF ins = <<>> THEN ZeroCnt(n)
  ELSE LET e == Head(ins) IN
       IF e.p # p THEN PropCnt(Tail(ins), p)
       ELSE AddCnt(PropCnt(Tail(ins), p), IF e.h = 1 THEN -1 ELSE 1, ShapeCnt(n, e.s, cnt))
PropsOf(ins) == {ins[i].p : i \in 1..Len(ins)}
Labels(ins) ==
  LET ps == PropsOf(ins)
      pc == [p \in ps |-> PropCnt(ins, p)]
  IN [c \in Cells(n) |-> {p \in ps : pc[p][c] > 0}]
(* out: a sequence of [ps |-> <<properties>>, o |-> observation] *)
MergeOK(ins, out) ==
  LET lab == Labels(ins)
      keys == {lab[c] : c \in Cells(n)} \ {{}}
      key(i) == {out[i].ps[j] : j \in 1..Len(out[i].ps)}
      nonempty == {i \in 1..Len(out) : \E c \in Cells(n) : lab[c] = key(i)}
  IN /\ \A i, j \in 1..Len(out) : i # j => key(i) # key(j)
     /\ \A i \in 1..Len(out) : Cardinality(key(i)) = Len(out[i].ps)
     /\ \A k \in keys : \E i \in 1..Len(out) : key(i) = k
     /\ \A i \in 1..Len(out) : key(i) # {} =>
          ObsOK(n, out[i].o, [c \in Cells(n) |-> IF lab[c] = key(i) THEN 1 ELSE 0])
=============================================================================
