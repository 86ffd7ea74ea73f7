------------------------------- MODULE Geometry -------------------------------
(***************************************************************************)
(* Exact rational rigid-body and pinhole geometry.                         *)
(*                                                                         *)
(* A rotation is given by an integer quaternion q = <<x, y, z, w>> # 0;     *)
(* with N = |q|^2 the matrix N * R(q) is integral (RotN).  A transform is   *)
(* a record [n, M, t]: rotation M / n, translation t / n.  Observed real    *)
(* numbers are fixed-point integers (SC per 1.0).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SC == 4096
Abs(x) == IF x < 0 THEN -x ELSE x
Dot3(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Norm2(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
RotN(q) ==
  LET x == q[1] y == q[2] z == q[3] w == q[4]
  IN << <<w * w + x * x - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)>>,
        <<2 * (x * y + z * w), w * w - x * x + y * y - z * z, 2 * (y * z - x * w)>>,
        <<2 * (x * z - y * w), 2 * (y * z + x * w), w * w - x * x - y * y + z * z>> >>
QMul(a, b) ==
  <<a[4] * b[1] + a[1] * b[4] + a[2] * b[3] - a[3] * b[2],
    a[4] * b[2] - a[1] * b[3] + a[2] * b[4] + a[3] * b[1],
    a[4] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[4],
    a[4] * b[4] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3]>>
Tr(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
MM(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j]]]
MV(A, v) == [i \in 1..3 |-> Dot3(A[i], v)]
ScaleM(k, A) == [i \in 1..3 |-> [j \in 1..3 |-> k * A[i][j]]]
ScaleV(k, v) == [i \in 1..3 |-> k * v[i]]
AddV(a, b) == [i \in 1..3 |-> a[i] + b[i]]
Ident3 == << <<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>> >>

(* ---------------------------------------------------------- transforms *)
T(p) == LET n == Norm2(p.q) IN [n |-> n, M |-> RotN(p.q), t |-> ScaleV(n, p.t)]
IdT == [n |-> 1, M |-> Ident3, t |-> <<0, 0, 0>>]
Comp(a, b) == [n |-> a.n * b.n, M |-> MM(a.M, b.M), t |-> AddV(MV(a.M, b.t), ScaleV(b.n, a.t))]
Inv(a) == [n |-> a.n * a.n, M |-> ScaleM(a.n, Tr(a.M)), t |-> ScaleV(-1, MV(Tr(a.M), a.t))]
\* the inverse of a transform with rotation of a plain pose, over n = Norm2
InvP(p) == LET n == Norm2(p.q) IN [n |-> n, M |-> Tr(RotN(p.q)), t |-> ScaleV(-1, MV(Tr(RotN(p.q)), p.t))]
Rel(a, b) == Comp(InvP(a), T(b))
SameT(a, b) == ScaleM(b.n, a.M) = ScaleM(a.n, b.M) /\ ScaleV(b.n, a.t) = ScaleV(a.n, b.t)
ActT(a, v) == AddV(MV(a.M, v), a.t)          \* over a.n

(* observed number o (SC per 1.0) is num / den up to tol units *)
Near(o, num, den, tol) == Abs(o * den - num * SC) <= tol * den
VecNear(o, v, den, tol) == Len(o) = Len(v) /\ \A i \in 1..Len(v) : Near(o[i], v[i], den, tol)
RotNear(o, a, tol) == Len(o) = 3 /\ \A i \in 1..3 : Len(o[i]) = 3 /\ \A j \in 1..3 : Near(o[i][j], a.M[i][j], a.n, tol)
MatNear(o, a, tol) ==
  /\ Len(o) = 4 /\ \A i \in 1..4 : Len(o[i]) = 4
  /\ o[4] = <<0, 0, 0, SC>>
  /\ \A i \in 1..3 : Near(o[i][4], a.t[i], a.n, tol) /\ \A j \in 1..3 : Near(o[i][j], a.M[i][j], a.n, tol)

(* ------------------------------------------------------------- pinhole *)
(* K = <<fx, fy, 2cx, 2cy>>; a pixel (u, v) at depth d2/2 sees the point   *)
(* VertK over 4 fx (x), 4 fy (y), 2 (z)                                    *)
VertX(K, u, d2) == (2 * u - K[3]) * d2
VertY(K, v, d2) == (2 * v - K[4]) * d2
\* projecting back: u = fx x / z + cx; exact in integers
ProjectsBack(K, u, v, d2) ==
  /\ d2 # 0 => K[1] * VertX(K, u, d2) * 2 = (2 * u - K[3]) * d2 * K[1] * 2
  /\ d2 # 0 => 2 * VertX(K, u, d2) + 2 * K[3] * d2 = 4 * u * d2
  /\ d2 # 0 => 2 * VertY(K, v, d2) + 2 * K[4] * d2 = 4 * v * d2
\* a general 4x4 integer projection matrix applied to an integer point
Row4(r, p) == r[1] * p[1] + r[2] * p[2] + r[3] * p[3] + r[4] * p[4]
Homog(p) == p \o <<1>>
ProjNear(o, P, p) ==
  LET h == IF Len(p) = 3 THEN Homog(p) ELSE p
      z == Row4(P[3], h) d == IF z = 0 THEN 1 ELSE Abs(z) s == IF z < 0 THEN -1 ELSE 1
  IN Len(o) = 2 /\ Near(o[1], s * Row4(P[1], h), d, 4) /\ Near(o[2], s * Row4(P[2], h), d, 4)
UnhomNear(o, p) ==
  LET k == Len(p) w == p[k] d == IF w = 0 THEN 1 ELSE Abs(w) s == IF w < 0 THEN -1 ELSE 1
  IN Len(o) = k - 1 /\ \A i \in 1..(k - 1) : Near(o[i], s * p[i], d, 4)
=============================================================================
