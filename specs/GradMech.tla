------------------------------- MODULE GradMech -------------------------------
(***************************************************************************)
(* How derivatives move through fusion.  Measurements 1..M arrive one by     *)
(* one; each either becomes a new map point or is fused into an existing     *)
(* one.  Every point carries, besides its value, the tangents that the       *)
(* differentiated update rule produces; they must stay equal to the          *)
(* derivatives of the closed form (weighted average of the point's own       *)
(* measurements).  Numerators over the point's confidence: a point is        *)
(* [c, n, dc, dn, own]: p = n / c, dp = (dn c - n dc) / c^2.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, Slopes
VARIABLES pts, x, step
\* measurement i: value v, slope e = dv/dx_i, weight a, slope g = da/dx_i
Meas == [v : 0..2, e : Slopes, a : 1..2, g : {-1, 0, 1}]
Ids == 1..M
Init == pts = <<>> /\ x = <<>> /\ step = 0
D(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
\* one entry per measurement: numerators p = pn/pd and dp_i = q_i / pd^2 kept exactly
New(m, i) == [pn |-> m.v, pd |-> 1, c |-> m.a, dc |-> [j \in {i} |-> m.g], q |-> [j \in {i} |-> m.e], own |-> {i}]
(* differentiated rule, exactly over the common denominator:                  *)
(* p' = (c p + a v) / C, C = c + a, with p = pn / pd:                         *)
(* p' = (c pn + a v pd) / (C pd)                                              *)
(* dp' = [c dp + p dc + a dv + v da - p' dC] / C, with dp = q / pd^2          *)
(*     = [ (c q + pn pd dc + (a dv + v da) pd^2) C - (c pn + a v pd) pd dC ] / (C pd)^2 *)
Fuse(p, m, i, keepOld, keepW) ==
  LET C == p.c + m.a
      num == p.c * p.pn + m.a * m.v * p.pd
      dcs == [j \in p.own \cup {i} |-> (IF keepW THEN D(p.dc, j) ELSE 0) + (IF j = i THEN m.g ELSE 0)]
      qs == [j \in p.own \cup {i} |->
               LET own == IF j = i THEN (m.a * m.e + m.v * m.g) * p.pd * p.pd ELSE 0
                   old == IF keepOld THEN p.c * D(p.q, j) + (IF keepW THEN p.pn * p.pd * D(p.dc, j) ELSE 0) ELSE 0
               IN (old + own) * C - num * p.pd * dcs[j]]
  IN [pn |-> num, pd |-> C * p.pd, c |-> C, dc |-> dcs, q |-> qs, own |-> p.own \cup {i}]
Take(m) == x' = Append(x, m) /\ step' = step + 1
Append1 == step < M /\ \E m \in Meas : Take(m) /\ pts' = Append(pts, New(m, step + 1))
Fuse1 == step < M /\ \E m \in Meas : \E k \in DOMAIN pts : Take(m) /\ pts' = [pts EXCEPT ![k] = Fuse(pts[k], m, step + 1, TRUE, TRUE)]
Next == Append1 \/ Fuse1
\* known defects: the old tangents dropped (a detached map), the weights detached, a tangent leaked to another point
BadFuse(o, w) == step < M /\ \E m \in Meas : \E k \in DOMAIN pts : Take(m) /\ pts' = [pts EXCEPT ![k] = Fuse(pts[k], m, step + 1, o, w)]
BadNext == Append1 \/ BadFuse(FALSE, TRUE)
BadNext2 == Append1 \/ BadFuse(TRUE, FALSE)
Leak == Len(pts) > 1 /\ step < M /\ \E m \in Meas : Take(m) /\
        pts' = [pts EXCEPT ![1] = Fuse(@, m, step + 1, TRUE, TRUE), ![2].q = [j \in DOMAIN @ \cup {step + 1} |-> IF j \in DOMAIN @ THEN @[j] ELSE 1]]
BadNext3 == Next \/ Leak

RECURSIVE Sum(_)
Sum(f) == IF DOMAIN f = {} THEN 0 ELSE LET j == CHOOSE j \in DOMAIN f : TRUE IN f[j] + Sum([k \in DOMAIN f \ {j} |-> f[k]])
\* the closed form: p = sum a v / sum a over the point's own measurements
Closed ==
  \A k \in DOMAIN pts :
    LET p == pts[k]
        A == Sum([j \in p.own |-> x[j].a]) N == Sum([j \in p.own |-> x[j].a * x[j].v])
    IN /\ p.c = A /\ p.pn * A = N * p.pd
       /\ DOMAIN p.q = p.own /\ DOMAIN p.dc = p.own
       /\ \A j \in p.own : /\ p.dc[j] = x[j].g
                           \* q / pd^2 = ((a e + v g) A - N g) / A^2
                           /\ p.q[j] * A * A = ((x[j].a * x[j].e + x[j].v * x[j].g) * A - N * x[j].g) * p.pd * p.pd
\* every measurement belongs to exactly one point, and its weight is fully there
Partition ==
  /\ \A k, n \in DOMAIN pts : k # n => pts[k].own \cap pts[n].own = {}
  /\ UNION {pts[k].own : k \in DOMAIN pts} = 1..step
\* with constant weights and unit slopes the derivatives of a point add up to 1
Convex == \A k \in DOMAIN pts :
  (\A j \in pts[k].own : x[j].g = 0 /\ x[j].e = 1) => Sum(pts[k].q) = pts[k].pd * pts[k].pd
=============================================================================
