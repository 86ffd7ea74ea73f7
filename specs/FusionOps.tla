------------------------------ MODULE FusionOps ------------------------------
(***************************************************************************)
(* Point-based fusion: association of a live frame with a map and the      *)
(* confidence-weighted update.                                             *)
(*                                                                         *)
(* A frame f: B, H, W, K[b] = <<fx, fy, 2cx, 2cy>>, d[b][h][w] integer      *)
(* depth (0: missing), poses[b] = [q, t] (integer quaternion, translation). *)
(* A map m: pts[b], nrm[b] (over nd), cc[b] integers.                       *)
(* Rows are <<b, n, h, w>>, counted from 0 as in the code.                  *)
(***************************************************************************)
EXTENDS Geometry

(* ---------------------------------------------------------------- active *)
\* camera coordinates times Norm2(q)
Cam(pose, p) == MV(Tr(RotN(pose.q)), [k \in 1..3 |-> p[k] - pose.t[k]])
\* 2 u Z and 2 v Z (times Norm2)
UZ(K, c) == 2 * K[1] * c[1] + K[3] * c[3]
VZ(K, c) == 2 * K[2] * c[2] + K[4] * c[3]
\* inside [0, last] up to the documented rounding slack: "in", "out" or "near"
Side(x2, z, last) ==
  IF 0 <= x2 /\ x2 <= 2 * last * z THEN "in"
  ELSE IF x2 < 0 THEN (IF (-x2) * 400 > 2 * z THEN "out" ELSE "near")
  ELSE (IF (x2 - 2 * last * z) * 400 > 2 * z THEN "out" ELSE "near")
Vis(f, b, p) ==
  LET c == Cam(f.poses[b], p)
  IN IF c[3] <= 0 THEN "out"
     ELSE LET a == Side(UZ(f.K[b], c), c[3], f.W - 1) e == Side(VZ(f.K[b], c), c[3], f.H - 1)
          IN IF a = "out" \/ e = "out" THEN "out" ELSE IF a = "in" /\ e = "in" THEN "in" ELSE "near"
\* pixel k is a nearest one to coordinate x2 / 2z (slack for rounding of ties)
Nearest(x2, z, k, last) == /\ 0 <= k /\ k <= last
                           /\ (Abs(x2 - 2 * k * z) * 100 <= 101 * z \/ (k = 0 /\ x2 < 0) \/ (k = last /\ x2 > 2 * last * z))
ActiveOk(f, pts, rows) ==
  /\ \A i \in 1..Len(rows) :
       LET r == rows[i] b == r[1] + 1 n == r[2] + 1
       IN /\ b \in 1..f.B /\ n \in 1..Len(pts[b])
          /\ Vis(f, b, pts[b][n]) # "out"
          /\ LET c == Cam(f.poses[b], pts[b][n])
             IN Nearest(VZ(f.K[b], c), c[3], r[3], f.H - 1) /\ Nearest(UZ(f.K[b], c), c[3], r[4], f.W - 1)
  /\ \A i, j \in 1..Len(rows) : i # j => <<rows[i][1], rows[i][2]>> # <<rows[j][1], rows[j][2]>>
  /\ LET seen == {<<rows[i][1] + 1, rows[i][2] + 1>> : i \in 1..Len(rows)}
     IN \A b \in 1..f.B : \A n \in 1..Len(pts[b]) : Vis(f, b, pts[b][n]) = "in" => <<b, n>> \in seen

(* --------------------------------------------------------------- similar *)
Dv(x, d) == IF x < 0 THEN -((-x) \div d) ELSE x \div d
\* integral by the choice of focal lengths and depths; h, w count from 1
Vert(f, b, h, w) ==
  LET d == f.d[b][h][w] K == f.K[b]
  IN IF d <= 0 THEN <<0, 0, 0>>
     ELSE <<Dv((2 * (w - 1) - K[3]) * d, 2 * K[1]), Dv((2 * (h - 1) - K[4]) * d, 2 * K[2]), d>>
SubV(a, b) == [k \in 1..3 |-> a[k] - b[k]]
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Reduce(c) == LET g == Gcd(Gcd(Abs(c[1]), Abs(c[2])), Abs(c[3])) IN IF g = 0 THEN c ELSE [k \in 1..3 |-> Dv(c[k], g)]
NDir(f, b, h, w) ==
  IF f.d[b][h][w] <= 0 THEN <<0, 0, 0>>
  ELSE LET w0 == IF w = f.W THEN w - 1 ELSE w h0 == IF h = f.H THEN h - 1 ELSE h
       IN Reduce(Cross3(SubV(Vert(f, b, h, w0 + 1), Vert(f, b, h, w0)), SubV(Vert(f, b, h0 + 1, w), Vert(f, b, h0, w))))
\* poses of the exact cases are rotations of the cube: divide by Norm2
World(f, b, h, w) == LET P == f.poses[b] n == Norm2(P.q) v == MV(RotN(P.q), Vert(f, b, h, w))
                     IN [k \in 1..3 |-> Dv(v[k], n) + P.t[k]]
WDir(f, b, h, w) == LET P == f.poses[b] n == Norm2(P.q) v == MV(RotN(P.q), NDir(f, b, h, w)) IN [k \in 1..3 |-> Dv(v[k], n)]
Sq(v) == Dot3(v, v)
AxisDir(c) == Cardinality({k \in 1..3 : c[k] # 0}) = 1
\* strictly less / strictly greater / undecidable in floating point
DistSide(f, p, b, h, w, th2, exact) ==   \* th2 = (2 th)^2
  LET d == 4 * Sq(SubV(p, World(f, b, h, w)))
  IN IF d < th2 THEN "in" ELSE IF d > th2 \/ exact THEN "out" ELSE "near"
DotSide(f, n, nd, b, h, w, dp, dq, exact) ==    \* n / nd . c / |c|  >  dp / dq
  LET c == WDir(f, b, h, w) x == Dot3(n, c) l == x * x * dq * dq r == dp * dp * Sq(c) * nd * nd
  IN IF dp < -dq THEN "in"                \* a threshold below -1 admits everything
     ELSE IF c = <<0, 0, 0>> THEN "out"
     ELSE IF x < 0 THEN "out"
     ELSE IF l > r THEN "in" ELSE IF l < r THEN "out"
     ELSE IF exact /\ AxisDir(c) /\ nd = 1 THEN "out" ELSE "near"
Sim(f, m, r, th, exact) ==
  LET b == r[1] + 1 n == r[2] + 1 h == r[3] + 1 w == r[4] + 1
      a == DistSide(f, m.pts[b][n], b, h, w, th.d2, exact)
      e == DotSide(f, m.nrm[b][n], m.nd, b, h, w, th.p, th.q, exact)
  IN IF f.d[b][h][w] <= 0 THEN "out"
     ELSE IF a = "out" \/ e = "out" THEN "out" ELSE IF a = "in" /\ e = "in" THEN "in" ELSE "near"
SimilarOk(f, m, rows, th, exact, mask, kept) ==
  /\ Len(mask) = Len(rows)
  /\ \A i \in 1..Len(rows) : LET x == Sim(f, m, rows[i], th, exact) IN (x = "in" => mask[i]) /\ (x = "out" => ~mask[i])
  /\ LET idx == SelectSeq([i \in 1..Len(rows) |-> i], LAMBDA i : mask[i]) IN kept = [j \in 1..Len(idx) |-> rows[idx[j]]]

(* ------------------------------------------------------------------ best *)
Pix(r) == <<r[1], r[3], r[4]>>
Better(f, m, r, s) ==    \* r is strictly preferred to s (same pixel)
  LET cr == m.cc[r[1] + 1][r[2] + 1] cs == m.cc[s[1] + 1][s[2] + 1]
      dr == Sq(SubV(m.pts[r[1] + 1][r[2] + 1], World(f, r[1] + 1, r[3] + 1, r[4] + 1)))
      ds == Sq(SubV(m.pts[s[1] + 1][s[2] + 1], World(f, s[1] + 1, s[3] + 1, s[4] + 1)))
  IN cr > cs \/ (cr = cs /\ (dr < ds \/ (dr = ds /\ r[2] < s[2])))
BestSet(f, m, rows) ==
  {r \in {rows[i] : i \in 1..Len(rows)} : \A j \in 1..Len(rows) : (rows[j] # r /\ Pix(rows[j]) = Pix(r)) => Better(f, m, r, rows[j])}
BestOk(f, m, rows, best) ==
  /\ Cardinality({best[i] : i \in 1..Len(best)}) = Len(best)
  /\ {best[i] : i \in 1..Len(best)} = BestSet(f, m, rows)

(* ------------------------------------------------------------------ fuse *)
(* observed maps and frames: coordinates and colours 64 units per 1,        *)
(* normals 1024, confidences and alphas 4096                                *)
Mix(o, c, p, a, v) == \* o = (c p + a v) / (c + a)
  Abs(o * (c + a) - (c * p + a * v)) <= Abs(v - p) + 2 * (c + a)
MixV(o, c, p, a, v) == Len(o) = 3 /\ \A k \in 1..3 : Mix(o[k], c, p[k], a, v[k])
Close(o, v, tol) == Len(o) = Len(v) /\ \A k \in 1..Len(v) : Abs(o[k] - v[k]) <= tol
RECURSIVE Pixels(_, _, _, _)
Pixels(H, W, i, keep) ==    \* row-major pixels in keep
  IF i > H * W THEN <<>>
  ELSE LET h == ((i - 1) \div W) + 1 w == ((i - 1) % W) + 1
       IN (IF <<h, w>> \in keep THEN << <<h, w>> >> ELSE <<>>) \o Pixels(H, W, i + 1, keep)
\* the pixels that become new points: with a reading and not matched
NewPix(fr, b, rows) ==
  LET taken == {<<rows[i][3] + 1, rows[i][4] + 1>> : i \in {j \in 1..Len(rows) : rows[j][1] = b - 1}}
  IN Pixels(fr.H, fr.W, 1, {q \in (1..fr.H) \X (1..fr.W) : fr.valid[b][q[1]][q[2]]} \ taken)
FuseOk(pre, fr, rows, post) ==
  \A b \in 1..fr.B :
    LET n == IF pre.any THEN Len(pre.pts[b]) ELSE 0
        new == NewPix(fr, b, rows)
        mine == {i \in 1..Len(rows) : rows[i][1] = b - 1}
    IN /\ Len(post.pts[b]) = n + Len(new) /\ Len(post.nrm[b]) = Len(post.pts[b])
       /\ Len(post.col[b]) = Len(post.pts[b]) /\ Len(post.cc[b]) = Len(post.pts[b])
       /\ \A k \in 1..n :
            IF \E i \in mine : rows[i][2] = k - 1
            THEN LET r == rows[CHOOSE i \in mine : rows[i][2] = k - 1]
                     h == r[3] + 1 w == r[4] + 1 a == fr.al[b][h][w] c == pre.cc[b][k]
                 IN /\ MixV(post.pts[b][k], c, pre.pts[b][k], a, fr.gv[b][h][w])
                    /\ MixV(post.nrm[b][k], c, pre.nrm[b][k], a, fr.gn[b][h][w])
                    /\ MixV(post.col[b][k], c, pre.col[b][k], a, fr.rgb[b][h][w])
                    /\ Abs(post.cc[b][k] - (c + a)) <= 2
            ELSE /\ Close(post.pts[b][k], pre.pts[b][k], 1) /\ Close(post.nrm[b][k], pre.nrm[b][k], 1)
                 /\ Close(post.col[b][k], pre.col[b][k], 1) /\ Abs(post.cc[b][k] - pre.cc[b][k]) <= 1
       /\ \A k \in 1..Len(new) :
            LET h == new[k][1] w == new[k][2]
            IN /\ Close(post.pts[b][n + k], fr.gv[b][h][w], 1) /\ Close(post.nrm[b][n + k], fr.gn[b][h][w], 1)
               /\ Close(post.col[b][n + k], fr.rgb[b][h][w], 1) /\ Abs(post.cc[b][n + k] - fr.al[b][h][w]) <= 1
\* plain aggregation: every pixel with a reading becomes a point
AggregateOk(pre, fr, post) ==
  \A b \in 1..fr.B :
    LET n == IF pre.any THEN Len(pre.pts[b]) ELSE 0 new == NewPix(fr, b, <<>>)
    IN /\ Len(post.pts[b]) = n + Len(new) /\ Len(post.nrm[b]) = Len(post.pts[b]) /\ Len(post.col[b]) = Len(post.pts[b])
       /\ \A k \in 1..n : post.pts[b][k] = pre.pts[b][k] /\ post.nrm[b][k] = pre.nrm[b][k] /\ post.col[b][k] = pre.col[b][k]
       /\ \A k \in 1..Len(new) : LET h == new[k][1] w == new[k][2]
            IN Close(post.pts[b][n + k], fr.gv[b][h][w], 1) /\ Close(post.nrm[b][n + k], fr.gn[b][h][w], 1)
               /\ Close(post.col[b][n + k], fr.rgb[b][h][w], 1)
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
\* one point per valid unmatched pixel, all confidence of the frame accounted for
GrowthOk(pre, fr, rows, post) ==
  \A b \in 1..fr.B :
    LET n == IF pre.any THEN Len(pre.pts[b]) ELSE 0
        V == {q \in (1..fr.H) \X (1..fr.W) : fr.valid[b][q[1]][q[2]]}
        all == Pixels(fr.H, fr.W, 1, V)
        mine == Cardinality({i \in 1..Len(rows) : rows[i][1] = b - 1})
        c0 == IF n = 0 THEN 0 ELSE Sum(pre.cc[b])
        add == Sum([k \in 1..Len(all) |-> fr.al[b][all[k][1]][all[k][2]]])
    IN /\ Len(post.pts[b]) = n + Cardinality(V) - mine
       /\ Abs(Sum(post.cc[b]) - (c0 + add)) <= 2 * (Len(post.pts[b]) + Cardinality(V)) + 2
RowsOk(pre, fr, rows) ==
  /\ \A i \in 1..Len(rows) : LET r == rows[i] IN
        /\ r[1] + 1 \in 1..fr.B /\ r[2] + 1 \in 1..Len(pre.pts[r[1] + 1])
        /\ r[3] + 1 \in 1..fr.H /\ r[4] + 1 \in 1..fr.W /\ fr.valid[r[1] + 1][r[3] + 1][r[4] + 1]
  /\ \A i, j \in 1..Len(rows) : i # j => Pix(rows[i]) # Pix(rows[j]) /\ <<rows[i][1], rows[i][2]>> # <<rows[j][1], rows[j][2]>>
(* confidence of a measurement: 2^(-|v|^2 / S), observed with 2^20 units     *)
RECURSIVE Pow2(_)
Pow2(k) == IF k <= 0 THEN 1 ELSE 2 * Pow2(k - 1)
AlphaOk(o, v2, S) ==
  LET k == v2 \div S hi == IF k > 20 THEN 1 ELSE Pow2(20 - k) lo == IF k >= 20 THEN 0 ELSE Pow2(19 - k)
  IN IF v2 % S = 0 THEN Abs(o - (IF k > 20 THEN 0 ELSE hi)) <= 2 ELSE lo - 2 <= o /\ o <= hi + 2
=============================================================================
