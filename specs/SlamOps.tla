-------------------------------- MODULE SlamOps --------------------------------
(***************************************************************************)
(* A SLAM step: localisation (given pose, or estimated motion composed with  *)
(* the previous pose), what the estimator is given, and mapping.  Pose       *)
(* matrices are observed with U units per 1.                                 *)
(***************************************************************************)
EXTENDS FusionOps

MaxA(S) == CHOOSE x \in S : \A y \in S : y <= x
\* o = a b, all with U units
ProdClose(a, b, o, U) ==
  \A i \in 1..4 : \A j \in 1..4 :
    LET s == a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j] + a[i][4] * b[4][j]
        mag == MaxA({Abs(a[i][k]) : k \in 1..4} \cup {Abs(b[k][j]) : k \in 1..4})
    IN Abs(s - U * o[i][j]) <= 4 * mag + 2 * U
MatEq(a, b, tol) == \A i \in 1..4 : \A j \in 1..4 : Abs(a[i][j] - b[i][j]) <= tol
\* a step needs the live pose when it is the one used, else the previous pose and a map
UsesLive(s) == s.odom = "gt" \/ ~s.hasprev
Refused(s) == IF UsesLive(s) THEN s.live = <<>> ELSE s.prev = <<>> \/ ~s.pre.any
\* a previous frame that is not used, or missing although there is a map
MustWarn(s) == IF s.odom = "gt" THEN s.hasprev ELSE ~s.hasprev /\ s.pre.any
PoseOk(s) == /\ Len(s.pose) = s.B
             /\ \A b \in 1..s.B : IF UsesLive(s) THEN MatEq(s.pose[b], s.live[b], 0)
                                  ELSE ProdClose(s.T[b], s.prev[b], s.pose[b], s.U)
(* two collections hold the same points: same size, each has a counterpart  *)
Near3(a, b) == \A k \in 1..3 : Abs(a[k] - b[k]) <= 1
\* records [p, n, c] of points, normals and colours
Rec(m, b, k) == <<m.pts[b][k], m.nrm[b][k], m.col[b][k]>>
SameBag(X, Y) == /\ Len(X) = Len(Y)
                 /\ \A i \in 1..Len(X) : \E j \in 1..Len(Y) : \A a \in 1..3 : Near3(X[i][a], Y[j][a])
                 /\ \A j \in 1..Len(Y) : \E i \in 1..Len(X) : \A a \in 1..3 : Near3(X[i][a], Y[j][a])
BagOf(m, b) == [k \in 1..Len(m.pts[b]) |-> Rec(m, b, k)]
Flat(s, ds) == SelectSeq(s, LAMBDA r : r[3] % ds = 0 /\ r[4] % ds = 0)
\* the active map points on every ds-th row and column of the previous frame
MapPart(pre, rows, b, ds) == LET R == SelectSeq(Flat(rows, ds), LAMBDA r : r[1] = b - 1)
                             IN [k \in 1..Len(R) |-> Rec(pre, b, R[k][2] + 1)]
\* the live frame's readings on every ds-th row and column
FramePart(fr, b, ds) ==
  LET P == Pixels(fr.H, fr.W, 1, {q \in (1..fr.H) \X (1..fr.W) : fr.valid[b][q[1]][q[2]] /\ (q[1] - 1) % ds = 0 /\ (q[2] - 1) % ds = 0})
  IN [k \in 1..Len(P) |-> <<fr.gv[b][P[k][1]][P[k][2]], fr.gn[b][P[k][1]][P[k][2]], fr.rgb[b][P[k][1]][P[k][2]]>>]
EstimateOk(s) ==
  IF UsesLive(s) THEN s.calls = <<>>
  ELSE /\ Len(s.calls) = 1
       /\ \A b \in 1..s.B : /\ SameBag(BagOf(s.calls[1].map, b), MapPart(s.pre, s.rows, b, s.ds))
                            /\ SameBag(BagOf(s.calls[1].frame, b), FramePart(s.fr0, b, s.ds))
MapOk(s) == IF s.sys = "icpslam" THEN AggregateOk(s.pre, s.fr, s.post)
            ELSE RowsOk(s.pre, s.fr, s.corr) /\ FuseOk(s.pre, s.fr, s.corr, s.post) /\ GrowthOk(s.pre, s.fr, s.corr, s.post)
(* observations of two maps agree *)
MapsAgree(a, b) ==
  /\ a.any = b.any /\ Len(a.pts) = Len(b.pts)
  /\ \A n \in 1..Len(a.pts) :
       /\ Len(a.pts[n]) = Len(b.pts[n]) /\ Len(a.nrm[n]) = Len(b.nrm[n]) /\ Len(a.col[n]) = Len(b.col[n]) /\ Len(a.cc[n]) = Len(b.cc[n])
       /\ \A k \in 1..Len(a.pts[n]) : Close(a.pts[n][k], b.pts[n][k], 1)
       /\ \A k \in 1..Len(a.nrm[n]) : Close(a.nrm[n][k], b.nrm[n][k], 1)
       /\ \A k \in 1..Len(a.col[n]) : Close(a.col[n][k], b.col[n][k], 1)
       /\ \A k \in 1..Len(a.cc[n]) : Abs(a.cc[n][k] - b.cc[n][k]) <= 1
PosesAgree(a, b, tol) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : MatEq(a[k], b[k], tol)
(* a whole run: poses p[s][b]; T[s][b] the scripted motions; given[s][b]     *)
Unit(U) == [i \in 1..4 |-> [j \in 1..4 |-> IF i = j THEN U ELSE 0]]
RunPosesOk(s) ==
  /\ Len(s.p) = s.L
  /\ \A k \in 1..s.L : \A b \in 1..s.B :
       IF s.odom = "gt" /\ s.given # <<>> THEN MatEq(s.p[k][b], s.given[k][b], 0)
       ELSE IF k = 1 THEN MatEq(s.p[1][b], IF s.given = <<>> THEN Unit(s.U) ELSE s.given[1][b], 0)
       ELSE ProdClose(s.T[k][b], s.p[k - 1][b], s.p[k][b], s.U)
\* a single frame without a pose is put at the identity by every variant
RunRefused(s) == s.odom = "gt" /\ s.given = <<>> /\ s.L > 1
(* objects: [name, before, after, may]: digests of everything observable     *)
Changed(s) == {k \in 1..Len(s.objs) : s.objs[k].before # s.objs[k].after /\ ~s.objs[k].may}
=============================================================================
