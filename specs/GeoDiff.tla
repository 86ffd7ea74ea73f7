------------------------------- MODULE GeoDiff -------------------------------
(***************************************************************************)
(* How rigid motions, rotation conversions and projections change with       *)
(* their arguments.  4x4 matrices in fixed point (1/U), twists as            *)
(* <<v1, v2, v3, w1, w2, w3>>.                                               *)
(***************************************************************************)
EXTENDS GradOps
Rd(x, d) == IF x < 0 THEN -((2 * (-x) + d) \div (2 * d)) ELSE (2 * x + d) \div (2 * d)
D4 == 1..4
Hat(x) == <<<<0, -x[6], x[5], x[1]>>, <<x[6], 0, -x[4], x[2]>>, <<-x[5], x[4], 0, x[3]>>, <<0, 0, 0, 0>>>>
Id4(u) == [i \in D4 |-> [j \in D4 |-> IF i = j THEN u ELSE 0]]
Zero4 == Id4(0)
\* (written as tuples: TLC evaluates a tuple at once and a function at every use)
Sq4(F(_, _)) == <<<<F(1, 1), F(1, 2), F(1, 3), F(1, 4)>>, <<F(2, 1), F(2, 2), F(2, 3), F(2, 4)>>,
                  <<F(3, 1), F(3, 2), F(3, 3), F(3, 4)>>, <<F(4, 1), F(4, 2), F(4, 3), F(4, 4)>>>>
\* A B / d
MMul(A, B, d) == Sq4(LAMBDA i, j : Rd(A[i][1] * B[1][j] + A[i][2] * B[2][j] + A[i][3] * B[3][j] + A[i][4] * B[4][j], d))
Unit6(k) == <<IF k = 1 THEN U ELSE 0, IF k = 2 THEN U ELSE 0, IF k = 3 THEN U ELSE 0, IF k = 4 THEN U ELSE 0, IF k = 5 THEN U ELSE 0, IF k = 6 THEN U ELSE 0>>
MAdd(A, B) == Sq4(LAMBDA i, j : A[i][j] + B[i][j])
MNeg(A) == Sq4(LAMBDA i, j : -A[i][j])
(* the exponential of a twist by its power series, and its derivative along a *)
(* direction: e_n = x e_(n-1) / n, d_n = (y e_(n-1) + x d_(n-1)) / n          *)
RECURSIVE ExpFrom(_, _, _, _, _)
ExpFrom(X, Y, e, d, n) ==
  IF n > 15 THEN <<Zero4, Zero4>>
  ELSE LET e1 == TLCEval(MMul(X, e, U * n))
           d1 == TLCEval(MAdd(MMul(Y, e, U * n), MMul(X, d, U * n)))
           r == TLCEval(ExpFrom(X, Y, e1, d1, n + 1))
       IN <<TLCEval(MAdd(e1, r[1])), TLCEval(MAdd(d1, r[2]))>>
ExpD(x, y) == LET r == TLCEval(ExpFrom(Hat(x), Hat(y), TLCEval(Id4(U)), TLCEval(Zero4), 1)) IN <<TLCEval(MAdd(Id4(U), r[1])), r[2]>>
MatNear(A, B, tol) == \A i \in D4 : \A j \in D4 : Abs(A[i][j] - B[i][j]) <= tol
\* column k of the derivatives of an observed 4 x 4 matrix: J[i][j] is a set of tangents
Along(J, key, rows) == [i \in D4 |-> [j \in D4 |-> IF i <= rows /\ j <= rows THEN G(J[i][j], key) ELSE 0]]
Keys4(J, rows) == UNION {DOMAIN J[i][j] : i \in 1..rows, j \in 1..rows}

(* ------------------------------------------------------------ quaternions *)
\* rotation matrix of q = <<x, y, z, w>> times |q|^2, and its derivative along q_k
Sq(q) == q[1] * q[1] + q[2] * q[2] + q[3] * q[3] + q[4] * q[4]
QMat(q) == LET x == q[1] y == q[2] z == q[3] w == q[4]
           IN <<<<w*w + x*x - y*y - z*z, 2 * (x*y - z*w), 2 * (x*z + y*w)>>,
                <<2 * (x*y + z*w), w*w - x*x + y*y - z*z, 2 * (y*z - x*w)>>,
                <<2 * (x*z - y*w), 2 * (y*z + x*w), w*w - x*x - y*y + z*z>>>>
\* every entry is quadratic: its derivative is the polar form
QMatD(q, k) == [i \in 1..3 |-> [j \in 1..3 |->
                 LET e == [n \in 1..4 |-> IF n = k THEN 1 ELSE 0] s == [n \in 1..4 |-> q[n] + e[n]]
                 IN QMat(s)[i][j] - QMat(q)[i][j] - QMat(e)[i][j]]]

(* ---------------------------------------------------------------- motions *)
\* integer motions (4 x 4); the first argument moves by A -> A (1 + x), the second by B -> B (1 + y)
RInv(T) == [i \in D4 |-> [j \in D4 |-> IF i <= 3 /\ j <= 3 THEN T[j][i]
                                      ELSE IF i <= 3 THEN -(T[1][i] * T[1][4] + T[2][i] * T[2][4] + T[3][i] * T[3][4])
                                      ELSE IF j = 4 THEN 1 ELSE 0]]
\* derivative of f along generator k of the first / second argument
MotionD(f, A, B, who, k) ==
  LET g == Hat([j \in 1..6 |-> IF j = k THEN 1 ELSE 0])
      m(P, Q) == MMul(P, Q, 1)
  IN CASE f = "inverse" -> IF who = "x" THEN MNeg(m(g, RInv(A))) ELSE Zero4
       [] f = "compose" -> IF who = "x" THEN m(m(A, g), B) ELSE m(m(A, B), g)
       [] f = "relative" -> IF who = "x" THEN MNeg(m(g, m(RInv(A), B))) ELSE m(m(RInv(A), B), g)
PointD(A, p, w, key) == \* derivatives of A (p, w): key "x1".."x6" or "p1".."p3"; w 1 for points, 0 for normals
  [i \in 1..3 |->
     LET g == [k \in 1..6 |-> LET M == MMul(A, Hat([j \in 1..6 |-> IF j = k THEN 1 ELSE 0]), 1)
                               IN M[i][1] * p[1] + M[i][2] * p[2] + M[i][3] * p[3] + M[i][4] * w]
     IN [k \in {"x" \o ToString(n) : n \in 1..6} \cup {key \o ToString(n) : n \in 1..3} |->
           IF k \in {"x" \o ToString(n) : n \in 1..6} THEN U * g[CHOOSE n \in 1..6 : k = "x" \o ToString(n)]
           ELSE U * A[i][CHOOSE n \in 1..3 : k = key \o ToString(n)]]]
=============================================================================
