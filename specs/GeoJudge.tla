------------------------------ MODULE GeoJudge ------------------------------
(* Judges recorded calls of the geometry helpers, odometry and conversions.  *)
EXTENDS Geometry, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
All(s, P(_)) == \A k \in 1..s.n : P(k)
Same(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : Abs(a[k] - b[k]) <= tol

(* se3 exponential: R from so3, V v determined by w x (Vv) = (R - I) v and  *)
(* w . (Vv) = w . v; omega and v in 1/256                                    *)
Exp(s) ==
  LET w == s.w v == s.v R == <<SubSeq(s.o[1], 1, 3), SubSeq(s.o[2], 1, 3), SubSeq(s.o[3], 1, 3)>>
      tt == <<s.o[1][4], s.o[2][4], s.o[3][4]>>
      RtR == [a \in 1..3 |-> [b \in 1..3 |-> R[1][a] * R[1][b] + R[2][a] * R[2][b] + R[3][a] * R[3][b]]]
      \* all products below are in units of SC / 256
      lhs == Cross3(w, tt)
      rhs == [a \in 1..3 |-> Dot3(R[a], v) - SC * v[a]]
      size == 1 + Abs(w[1]) + Abs(w[2]) + Abs(w[3]) + Abs(v[1]) + Abs(v[2]) + Abs(v[3])
      tol == 4 * size
  IN /\ s.o[4] = <<0, 0, 0, SC>>
     /\ s.so3 = R
     /\ \A a \in 1..3 : \A b \in 1..3 : Abs(RtR[a][b] - (IF a = b THEN SC * SC ELSE 0)) <= 6 * SC
     /\ \A a \in 1..3 : Abs(Dot3(R[a], w) - SC * w[a]) <= tol
     /\ \A a \in 1..3 : Abs(lhs[a] - rhs[a]) <= tol
     /\ Abs(Dot3(w, tt) - 16 * Dot3(w, v)) <= tol
     /\ w = <<0, 0, 0>> => \A a \in 1..3 : tt[a] = 16 * v[a]
(* products of observed matrices with entries SC per 1.0, result / SC        *)
\* halves keep the products within 32 bits
Prod(A, B) == [a \in 1..3 |-> [b \in 1..4 |->
   ((A[a][1] * B[1][b] + A[a][2] * B[2][b] + A[a][3] * B[3][b]) \div SC) + (IF b = 4 THEN A[a][4] ELSE 0)]]
MatSame(A, B, tol) == \A a \in 1..3 : \A b \in 1..4 : Abs(A[a][b] - B[a][b]) <= tol

Vert(s, b, l, h, w) == \* local vertex over <<4fx.., 4fy.., 2>>: depth in halves
  LET K == s.K[b] d == s.d[b][l][h][w]
  IN IF d <= 0 THEN <<0, 0, 0>> ELSE <<(2 * (w - 1) - K[3]) * d, (2 * (h - 1) - K[4]) * d, d>>
FrameOk(s) ==
  \A b \in 1..s.B : \A l \in 1..s.L : \A h \in 1..s.H : \A w \in 1..s.W :
    LET v == Vert(s, b, l, h, w) K == s.K[b] o == s.vert[b][l][h][w] pr == s.pix[b][l][h][w]
        g == s.gvert[b][l][h][w] un == s.unp[b][l][h][w]
        P == T(s.poses[b][l]) nn == s.norm[b][l][h][w] gn == s.gnorm[b][l][h][w]
    IN IF s.d[b][l][h][w] <= 0
       THEN o = <<0, 0, 0>> /\ g = <<0, 0, 0>>
       ELSE /\ Near(o[1], v[1], 4 * K[1], 2 + Abs(v[1]) \div 64) /\ Near(o[2], v[2], 4 * K[2], 2 + Abs(v[2]) \div 64)
            /\ Near(o[3], v[3], 2, 1)
            /\ Same(un, o, 3)
            \* projecting the vertex gives the pixel back
            /\ Near(pr[1], w - 1, 1, 8) /\ Near(pr[2], h - 1, 1, 8)
            \* the world vertex is the pose applied to the camera vertex
            /\ \A k \in 1..3 : Abs(g[k] * P.n - (Dot3(P.M[k], o) + P.t[k] * SC)) <= P.n * 8
            /\ \A k \in 1..3 : Abs(gn[k] * P.n - Dot3(P.M[k], nn)) <= P.n * 8

Step(s) ==
  CASE s.op = "hom" -> s.out = [k \in 1..Len(s.pts) |-> Homog(s.pts[k])] /\ s.shape = [s.ishape EXCEPT ![Len(s.ishape)] = @ + 1]
    [] s.op = "unhom" -> /\ Len(s.out) = Len(s.pts) /\ \A k \in 1..Len(s.pts) : UnhomNear(s.out[k], s.pts[k])
                         /\ s.shape = [s.ishape EXCEPT ![Len(s.ishape)] = @ - 1]
    [] s.op = "unhomw" -> /\ Len(s.out) = Len(s.pts) /\ s.shape = [s.ishape EXCEPT ![Len(s.ishape)] = @ - 1]
                          /\ \A k \in 1..Len(s.pts) : s.out[k] = [a \in 1..(Len(s.pts[k]) - 1) |-> s.pts[k][a] * s.pts[k][Len(s.pts[k])] * 2 ^ s.e]
    [] s.op = "rehom" -> s.out = s.pts
    [] s.op = "proj" -> /\ Len(s.out) = Len(s.pts) /\ s.shape = [s.ishape EXCEPT ![Len(s.ishape)] = 2]
                        /\ \A k \in 1..Len(s.pts) : ProjNear(s.out[k], s.P[s.which[k]], s.pts[k])
    [] s.op = "unproj" -> /\ Len(s.out) = Len(s.pts) /\ s.shape = [s.ishape EXCEPT ![Len(s.ishape)] = 3]
                          /\ \A k \in 1..Len(s.pts) :
                               LET p == IF Len(s.pts[k]) = 2 THEN Homog(s.pts[k]) ELSE s.pts[k]
                               IN s.out[k] = ScaleV(s.dep[k] * SC, MV(s.P[s.which[k]], p))
    [] s.op = "kinv" -> /\ s.shape = s.ishape /\ Len(s.out) = Len(s.K)
                        /\ \A k \in 1..Len(s.K) :
                             LET K == s.K[k] o == s.out[k] n == Len(o)
                             IN /\ Near(o[1][1], 1, K[1], 1) /\ Near(o[2][2], 1, K[2], 1)
                                /\ Near(o[1][3], -K[3], 2 * K[1], 2) /\ Near(o[2][3], -K[4], 2 * K[2], 2)
                                /\ \A a \in 3..n : o[a] = [b \in 1..n |-> IF a = b THEN SC ELSE 0]
                                /\ \A a \in 1..2 : \A b \in 1..n : (b # a /\ b # 3) => o[a][b] = 0
    [] s.op = "frame" -> FrameOk(s)
    [] s.op = "mesh" -> s.out = [h \in 1..s.H |-> [w \in 1..s.W |-> <<h - 1, w - 1>>]]
    [] s.op = "normpix" -> \* normalised coordinates and back
         /\ \A k \in 1..Len(s.pts) : /\ Near(s.out[k][1], 2 * s.pts[k][1] - (s.H - 1), s.H - 1, 3)
                                     /\ Near(s.out[k][2], 2 * s.pts[k][2] - (s.W - 1), s.W - 1, 3)
                                     /\ Near(s.back[k][1], s.pts[k][1], 1, 4) /\ Near(s.back[k][2], s.pts[k][2], 1, 4)
    \* ---------------------------------------------------------- rigid motion
    [] s.op = "inv" -> Len(s.out) = s.n /\ All(s, LAMBDA k : MatNear(s.out[k], InvP(s.a[k]), 4))
    [] s.op = "comp" -> Len(s.out) = s.n /\ All(s, LAMBDA k : MatNear(s.out[k], Comp(T(s.a[k]), T(s.b[k])), 4))
    [] s.op = "rel" -> Len(s.out) = s.n /\ All(s, LAMBDA k : MatNear(s.out[k], Rel(s.a[k], s.b[k]), 6))
    [] s.op = "pts" -> \* transform functions: one transform per point
         /\ Len(s.out) = Len(s.pts) /\ s.shape = s.ishape
         /\ \A k \in 1..Len(s.pts) : VecNear(s.out[k], ActT(T(s.a[s.which[k]]), s.pts[k]), Norm2(s.a[s.which[k]].q), 4)
    [] s.op = "nrm" ->
         /\ Len(s.out) = Len(s.pts) /\ s.shape = s.ishape
         /\ \A k \in 1..Len(s.pts) : VecNear(s.out[k], MV(RotN(s.a[s.which[k]].q), s.pts[k]), Norm2(s.a[s.which[k]].q), 4)
    [] s.op = "refuse" -> FALSE   \* was accepted
    \* --------------------------------------------------- rotation conversions
    [] s.op = "q2r" -> Len(s.out) = s.n /\ All(s, LAMBDA k : RotNear(s.out[k], [n |-> Norm2(s.q[k]), M |-> RotN(s.q[k])], 3))
    [] s.op = "nq" -> \* unit, same direction
         Len(s.out) = s.n /\ All(s, LAMBDA k : LET n == Norm2(s.q[k]) IN \A j \in 1..4 :
            /\ (s.q[k][j] = 0 => s.out[k][j] = 0) /\ s.q[k][j] * s.out[k][j] >= 0
            /\ Abs(((s.out[k][j] * s.out[k][j]) \div SC) * n - s.q[k][j] * s.q[k][j] * SC) <= 6 * n)
    [] s.op = "aa" -> \* the axis-angle vector: along the axis, at most half a turn, same rotation
         Len(s.out) = s.n /\ Len(s.exp) = s.n /\ All(s, LAMBDA k :
            LET a == s.out[k] q == s.q[k] v == <<q[1], q[2], q[3]>>
                sgn == IF q[4] < 0 THEN -1 ELSE 1
            IN /\ \A j \in 1..3 : Abs(Cross3(a, v)[j]) <= 8 + 2 * (Abs(v[1]) + Abs(v[2]) + Abs(v[3]))
               /\ sgn * Dot3(a, v) >= 0
               /\ Abs(a[1]) + Abs(a[2]) + Abs(a[3]) <= 22288   \* sqrt(3) * pi * SC
               /\ RotNear(s.exp[k], [n |-> Norm2(q), M |-> RotN(q)], 6))
    [] s.op = "pq" -> Len(s.out) = s.n /\ All(s, LAMBDA k : MatNear(s.out[k], T(s.a[k]), 4))
    [] s.op = "hat" -> /\ \A j \in 1..3 : s.o[j] = Append([k \in 1..3 |-> Cross3(s.w, Ident3[k])[j]], s.v[j])
                       /\ s.o[4] = <<0, 0, 0, 0>> /\ s.so3 = [j \in 1..3 |-> SubSeq(s.o[j], 1, 3)]
    [] s.op = "exp" -> Exp(s)
    [] s.op = "homo" -> MatSame(Prod(s.ea, s.eb), s.eab, 24) /\ s.eab[4] = <<0, 0, 0, SC>>
    [] s.op = "expsmall" -> \* derivative at zero: (E - I) is the hat operator
         s.o[4] = <<0, 0, 0, 1048576>> /\
         \A a \in 1..3 : /\ Abs(s.o[a][4] - 1024 * s.v[a]) <= 64
                         /\ \A b \in 1..3 : Abs(s.o[a][b] - (IF a = b THEN 1048576 ELSE 0) - 1024 * Cross3(s.w, Ident3[b])[a]) <= 64

Clause(s) == IF s.fail # "" THEN (IF s.op = "refuse" THEN (IF s.fail = "ok" THEN "accepted: " \o s.what ELSE "")
                                 ELSE s.op \o " failed: " \o s.fail)
             ELSE IF s.mut THEN s.op \o " modified its arguments"
             ELSE IF Step(s) THEN "" ELSE s.op \o " " \o s.what
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
