---------------------------- MODULE GeoDiffJudge ----------------------------
(* Judges recorded derivatives of geometric conversions.                      *)
EXTENDS GeoDiff, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Top == 40 * U
SmallJ(J, n, k) == \A a \in 1..n : \A b \in 1..k : Small(J[a][b], Top)
X(k) == "x" \o ToString(k)
Name(k, n) == k \o ToString(n)
Exp(s) == \* J of se3_exp (rows 4) or so3_exp (rows 3) at x
  IF ~SmallJ(s.J, s.rows, s.rows) THEN "exp: derivative is not a reasonable number"
  ELSE IF \E a \in 1..s.rows : \E b \in 1..s.rows : ~Small(<<s.o[a][b]>>, Top) THEN "exp: not a motion"
  ELSE IF Keys4(s.J, s.rows) \ ({"_"} \cup {X(k) : k \in 1..6}) # {} THEN "exp: derivative of something else"
  ELSE IF \E k \in s.from..6 : ~MatNear(Along(s.J, X(k), s.rows), LET d == ExpD(s.x, Unit6(k))[2] IN [a \in D4 |-> [b \in D4 |-> IF a <= s.rows /\ b <= s.rows THEN d[a][b] ELSE 0]], s.tol) THEN "exp: derivative"
  ELSE IF ~MatNear([a \in D4 |-> [b \in D4 |-> IF a <= s.rows /\ b <= s.rows THEN s.o[a][b] ELSE 0]],
                   LET e == ExpD(s.x, Unit6(1))[1] IN [a \in D4 |-> [b \in D4 |-> IF a <= s.rows /\ b <= s.rows THEN e[a][b] ELSE 0]], s.tol) THEN "exp: value"
  ELSE ""
HatC(s) ==
  IF \E k \in s.from..6 : Along(s.J, X(k), s.rows) # (LET h == Hat(Unit6(k)) IN [a \in D4 |-> [b \in D4 |-> IF a <= s.rows /\ b <= s.rows THEN h[a][b] ELSE 0]])
  THEN "hat: derivative" ELSE ""
Q(k) == "q" \o ToString(k)
Quat(s) == \* q integers; n normalised, R rotation, a axis-angle (1/U), all with derivatives
  LET N == Sq(s.q) len == Rd(s.n[1] * s.q[1] + s.n[2] * s.q[2] + s.n[3] * s.q[3] + s.n[4] * s.q[4], 1)
      nd(k) == \A j \in 1..4 : \* dn_j |q| = e_jk - n_j n_k
                 Abs(Dv(G(s.dn[j], Q(k)) * len, U) - ((IF j = k THEN U ELSE 0) - Dv(s.n[j] * s.n[k], U))) <= 8
      rd(k) == \A a \in 1..3 : \A b \in 1..3 : Abs(G(s.dR[a][b], Q(k)) * N + s.R[a][b] * 2 * s.q[k] - U * QMatD(s.q, k)[a][b]) <= 2 * N + 2 * Abs(s.q[k])
      x == <<0, 0, 0, s.a[1], s.a[2], s.a[3]>>
      ad(k) == LET y == <<0, 0, 0, G(s.da[1], Q(k)), G(s.da[2], Q(k)), G(s.da[3], Q(k))>> d == ExpD(x, y)[2]
               IN \A a \in 1..3 : \A b \in 1..3 : Abs(d[a][b] - G(s.dR[a][b], Q(k))) <= 30
  IN IF ~(\A j \in 1..4 : Small(s.dn[j], Top)) \/ ~(\A j \in 1..3 : Small(s.da[j], 8 * U)) \/ ~SmallJ(s.dR, 3, 3) THEN "quaternion: derivative is not a reasonable number"
     ELSE IF ~Small(s.n, 2 * U) \/ ~Small(s.a, 7 * U) THEN "quaternion: value"
     ELSE IF \E k \in 1..4 : ~nd(k) THEN "quaternion: derivative of the normalised quaternion"
     ELSE IF \E k \in 1..4 : ~rd(k) THEN "quaternion: derivative of the rotation matrix"
     ELSE IF \E k \in 1..4 : ~ad(k) THEN "quaternion: derivative of the axis-angle vector"
     ELSE ""
Motion(s) ==
  IF \E b \in 1..s.n : ~SmallJ(s.J[b], 4, 4) THEN s.f \o ": derivative is not a reasonable number"
  ELSE IF \E b \in 1..s.n : \E k \in 1..6 :
            \/ ~MatNear(Along(s.J[b], s.k1[b] \o ToString(k), 4), LET d == MotionD(s.f, s.A[b], s.B[b], "x", k) IN [a \in D4 |-> [c \in D4 |-> U * d[a][c]]], 2)
            \/ ~MatNear(Along(s.J[b], s.k2[b] \o ToString(k), 4), LET d == MotionD(s.f, s.A[b], s.B[b], "y", k) IN [a \in D4 |-> [c \in D4 |-> U * d[a][c]]], 2)
       THEN s.f \o ": derivative"
  ELSE IF \E b \in 1..s.n : Keys4(s.J[b], 4) \ ({"_"} \cup {k \o ToString(j) : k \in {s.k1[b], s.k2[b]}, j \in 1..6}) # {} THEN s.f \o ": derivative of another batch element"
  ELSE ""
Points(s) ==
  IF \E j \in 1..Len(s.p) : \E k \in 1..3 : ~Small(s.J[j][k], Top) THEN s.f \o ": derivative is not a reasonable number"
  ELSE IF \E j \in 1..Len(s.p) : LET e == PointD(s.A, s.p[j], s.w, s.key[j]) IN \E k \in 1..3 : ~DEq(s.J[j][k], e[k], 2) THEN s.f \o ": derivative"
  ELSE ""
(* projections, with the dual numbers of GradOps (1/W) *)
Kd(s, x) == Inp(W * (CASE x = "fx" -> s.K[1] [] x = "fy" -> s.K[2] [] x = "cx" -> s.K[3] [] x = "cy" -> s.K[4]), x)
PIn(s, j) == [k \in 1..Len(s.p[j]) |-> Inp(W * s.p[j][k], s.key[j] \o ToString(k))]
Expected(s, j) ==
  LET p == PIn(s, j) n == Len(p)
  IN CASE s.f = "project" -> IF s.p[j][3] = 0 THEN <<DAdd(DMul(Kd(s, "fx"), p[1]), DMul(Kd(s, "cx"), p[3])), DAdd(DMul(Kd(s, "fy"), p[2]), DMul(Kd(s, "cy"), p[3]))>>
                             ELSE SubSeq(DProj(Kd(s, "fx"), Kd(s, "fy"), Kd(s, "cx"), Kd(s, "cy"), p), 1, 2)
       [] s.f = "unproject" -> LET z == Inp(W * s.z[j], s.key[j] \o "z")
                               IN <<DMul(DDiv(DAdd(p[1], DNeg(Kd(s, "cx"))), Kd(s, "fx")), z), DMul(DDiv(DAdd(p[2], DNeg(Kd(s, "cy"))), Kd(s, "fy")), z), z>>
       [] s.f = "homogenize" -> Append(p, Con(W))
       [] s.f = "unhomogenize" -> [k \in 1..(n - 1) |-> IF s.p[j][n] = 0 THEN p[k] ELSE DDiv(p[k], p[n])]
       [] s.f = "normalize" -> [k \in 1..2 |-> DAdd(DMul(p[k], Con(Rd(2 * W, s.hw[k] - 1))), Con(-W))]
       [] s.f = "unnormalize" -> [k \in 1..2 |-> DMul(DAdd(p[k], Con(W)), Con(Rd(W * (s.hw[k] - 1), 2)))]
       [] s.f = "inverse" -> <<DDiv(Con(W), Kd(s, "fx")), DDiv(Con(W), Kd(s, "fy")), DNeg(DDiv(Kd(s, "cx"), Kd(s, "fx"))), DNeg(DDiv(Kd(s, "cy"), Kd(s, "fy")))>>
\* which inputs have no say in what (points at infinity are taken as they are)
Project(s) ==
  LET free(j) == IF s.f = "project" /\ s.p[j][3] = 0 THEN {s.key[j] \o "3", "cx", "cy"} ELSE {}
  IN IF \E j \in 1..Len(s.p) : \E k \in 1..Len(s.J[j]) : ~Small(s.J[j][k], 100 * U) THEN s.f \o ": derivative is not a reasonable number"
     ELSE IF \E j \in 1..Len(s.p) : LET e == Expected(s, j)
             IN Len(s.J[j]) # Len(e) \/ \E k \in 1..Len(e) : \E x \in (DOMAIN s.J[j][k] \cup DOMAIN e[k].d) \ free(j) : Abs(G(s.J[j][k], x) - G(e[k].d, x)) > 3 + Dv(Abs(G(e[k].d, x)), 64)
          THEN s.f \o ": derivative" ELSE ""
Clause(s) ==
  CASE s.op = "failed" -> "failed: " \o s.fail
    [] s.op = "exp" -> Exp(s)
    [] s.op = "hat" -> HatC(s)
    [] s.op = "quat" -> Quat(s)
    [] s.op = "motion" -> Motion(s)
    [] s.op = "points" -> Points(s)
    [] s.op = "proj" -> Project(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
