------------------------------- MODULE GradOps -------------------------------
(***************************************************************************)
(* Derivatives of everything gradSLAM computes, as forward-mode             *)
(* differentiation: a value carries its tangents, a function from inputs     *)
(* (keys) to the derivative with respect to that input; an input that is     *)
(* not in the domain has derivative 0.  Fixed point, U units per 1.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

U == 1024
Abs(x) == IF x < 0 THEN -x ELSE x
Dv(x, d) == IF d < 0 THEN (IF x < 0 THEN (-x) \div (-d) ELSE -(x \div (-d))) ELSE (IF x < 0 THEN -((-x) \div d) ELSE x \div d)
G(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0
None == [k \in {} |-> 0]
MaxA(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
\* o has the derivatives e, up to tol
DEq(o, e, tol) == \A k \in DOMAIN o \cup DOMAIN e : Abs(G(o, k) - G(e, k)) <= tol
Small(o, top) == \A k \in DOMAIN o : Abs(o[k]) <= top

(* ---------------------------------------------------- point clouds: duals *)
\* a coordinate with value v (1/256) and tangents d (1/256)
W == 256
Sc(x, y) == Dv(x * y, W)
Con(v) == [v |-> v, d |-> None]
Inp(v, key) == [v |-> v, d |-> [k \in {key} |-> W]]
DAdd(a, b) == [v |-> a.v + b.v, d |-> [k \in DOMAIN a.d \cup DOMAIN b.d |-> G(a.d, k) + G(b.d, k)]]
DNeg(a) == [v |-> -a.v, d |-> [k \in DOMAIN a.d |-> -a.d[k]]]
DMul(a, b) == [v |-> Sc(a.v, b.v), d |-> [k \in DOMAIN a.d \cup DOMAIN b.d |-> Sc(G(a.d, k), b.v) + Sc(a.v, G(b.d, k))]]
Rcp(b) == Dv(W * W, b)
DDiv(a, b) == LET r == Rcp(b.v) q == Sc(a.v, r)
              IN [v |-> q, d |-> [k \in DOMAIN a.d \cup DOMAIN b.d |-> Sc(G(a.d, k) - Sc(q, G(b.d, k)), r)]]
DSum3(a, b, c) == DAdd(DAdd(a, b), c)
DRow(row, p) == DSum3(DMul(row[1], p[1]), DMul(row[2], p[2]), DMul(row[3], p[3]))
DMat(M, p) == <<DRow(M[1], p), DRow(M[2], p), DRow(M[3], p)>>
Tp(M) == [i \in 1..3 |-> [j \in 1..3 |-> M[j][i]]]
\* u = fx x / z + cx, v = fy y / z + cy, on the plane z = 1
DProj(fx, fy, cx, cy, p) == <<DAdd(DMul(fx, DDiv(p[1], p[3])), cx), DAdd(DMul(fy, DDiv(p[2], p[3])), cy), Con(W)>>

(* ----------------------------------------------- frames: vertices, normals *)
\* frame f: d[b][l][h][w] halves, K[b] = <<fx, fy, 2cx, 2cy>>, R, t[b][l]; indices from 1
On(f, b, l, h, w) == f.d[b][l][h][w] > 0
\* units 1/64: the ray of a pixel, its vertex and the derivatives of the vertex
Ray(f, b, h, w) == <<Dv(64 * (2 * (w - 1) - f.K[b][3]), 2 * f.K[b][1]), Dv(64 * (2 * (h - 1) - f.K[b][4]), 2 * f.K[b][2]), 64>>
Zero3 == <<0, 0, 0>>
Vt(f, b, l, h, w) == IF On(f, b, l, h, w) THEN [k \in 1..3 |-> Dv(Ray(f, b, h, w)[k] * f.d[b][l][h][w], 2)] ELSE Zero3
\* inputs of a vertex: "d" its depth, and the four intrinsics
VtD(f, b, l, h, w, x) ==
  LET v == Vt(f, b, l, h, w) z == Dv(64 * f.d[b][l][h][w], 2)
  IN IF ~On(f, b, l, h, w) THEN Zero3
     ELSE CASE x = "d" -> Ray(f, b, h, w)
            [] x = "fx" -> <<-Dv(v[1], f.K[b][1]), 0, 0>>
            [] x = "fy" -> <<0, -Dv(v[2], f.K[b][2]), 0>>
            [] x = "cx" -> <<-Dv(z, f.K[b][1]), 0, 0>>
            [] x = "cy" -> <<0, -Dv(z, f.K[b][2]), 0>>
Intr == {"fx", "fy", "cx", "cy"}
DKey(b, l, h, w) == "d" \o ToString(b) \o "." \o ToString(l) \o "." \o ToString(h) \o "." \o ToString(w)
KKey(b, x) == "K" \o ToString(b) \o "." \o x
PKey(b, l, i, j) == "P" \o ToString(b) \o "." \o ToString(l) \o "." \o ToString(i) \o "." \o ToString(j)
CKey(b, l, h, w, c) == "c" \o ToString(b) \o "." \o ToString(l) \o "." \o ToString(h) \o "." \o ToString(w) \o "." \o ToString(c)
\* keys of the vertex at a pixel, with what they are
VKeys(f, b, l, h, w) == [k \in {DKey(b, l, h, w)} \cup {KKey(b, x) : x \in Intr} |->
                           IF k = DKey(b, l, h, w) THEN VtD(f, b, l, h, w, "d")
                           ELSE VtD(f, b, l, h, w, CHOOSE x \in Intr : KKey(b, x) = k)]
V3(f, k) == IF k \in DOMAIN f THEN f[k] ELSE Zero3
(* the normal: directed along c = dh x dv, dh and dv the differences to the   *)
(* right and lower neighbours (the last row and column repeat the one before) *)
NSides(f, b, l, h, w) ==
  LET w0 == IF w = f.W THEN w - 1 ELSE w h0 == IF h = f.H THEN h - 1 ELSE h
  IN <<<<h, w0 + 1>>, <<h, w0>>, <<h0 + 1, w>>, <<h0, w>>>>
Normal(f, b, l, h, w) ==
  LET s == NSides(f, b, l, h, w)
      P(k) == Vt(f, b, l, s[k][1], s[k][2])
      D == [k \in 1..4 |-> VKeys(f, b, l, s[k][1], s[k][2])]
      Sub(a, b1) == [k \in 1..3 |-> a[k] - b1[k]]
      dh == Sub(P(1), P(2)) dv == Sub(P(3), P(4))
      keys == DOMAIN D[1] \cup DOMAIN D[2] \cup DOMAIN D[3] \cup DOMAIN D[4]
  IN [c |-> Cross(dh, dv),
      d |-> [k \in keys |-> LET a == Cross(Sub(V3(D[1], k), V3(D[2], k)), dv) e == Cross(dh, Sub(V3(D[3], k), V3(D[4], k)))
                            IN [m \in 1..3 |-> a[m] + e[m]]]]
\* observed unit normal n (1/U) and its tangents o[1..3] (1/U)
NormalOk(f, b, l, h, w, n, o) ==
  IF ~On(f, b, l, h, w) THEN n = Zero3 /\ \A m \in 1..3 : DEq(o[m], None, 0)
  ELSE LET N == Normal(f, b, l, h, w) c == N.c
           size == Abs(c[1]) + Abs(c[2]) + Abs(c[3])
           mag == Dv(n[1] * c[1] + n[2] * c[2] + n[3] * c[3], U)
       IN IF c = Zero3 THEN TRUE      \* no normal: which one comes out is up to rounding
          ELSE /\ \A m \in 1..3 : \A k \in DOMAIN o[m] : k \in DOMAIN N.d \/ Abs(o[m][k]) <= 2
               /\ \A k \in DOMAIN N.d :
                    LET e == N.d[k] ne == Dv(n[1] * e[1] + n[2] * e[2] + n[3] * e[3], U) es == Abs(e[1]) + Abs(e[2]) + Abs(e[3])
                    IN \A m \in 1..3 : LET x == G(o[m], k)
                                       IN /\ Abs(x) < 20000
                                          /\ Abs(mag * x - (U * e[m] - n[m] * ne)) <= mag * 2 + Abs(x) * (3 + Dv(size, U)) + 4 * es + 2 * U + 2 * Abs(ne)
(* a rotated vector: tangents of the local one turned by R, and those of R    *)
RotD(R, loc, val, b, l) == \* loc[1..3] tangents (1/U), val[1..3] value (1/U)
  [i \in 1..3 |->
     LET keys == DOMAIN loc[1] \cup DOMAIN loc[2] \cup DOMAIN loc[3]
         pk == {PKey(b, l, i, j) : j \in 1..3}
     IN [k \in keys \cup pk |-> IF k \in pk THEN val[CHOOSE j \in 1..3 : PKey(b, l, i, j) = k]
                                ELSE R[i][1] * G(loc[1], k) + R[i][2] * G(loc[2], k) + R[i][3] * G(loc[3], k)]]
VertexOk(f, b, l, h, w, o) ==
  IF ~On(f, b, l, h, w) THEN \A m \in 1..3 : DEq(o[m], None, 0)
  ELSE LET e == VKeys(f, b, l, h, w) IN \A m \in 1..3 : DEq(o[m], [k \in DOMAIN e |-> (U \div 64) * e[k][m]], 2)
WVertexOk(f, b, l, h, w, val, loc, o) == \* val: local vertex
  IF ~On(f, b, l, h, w) THEN \A m \in 1..3 : DEq(o[m], None, 0)
  ELSE IF ~f.posed THEN \A m \in 1..3 : DEq(o[m], loc[m], 1)
  ELSE LET e == RotD(f.R[b][l], loc, val, b, l)
       IN \A m \in 1..3 : DEq(o[m], [k \in DOMAIN e[m] \cup {PKey(b, l, m, 4)} |-> IF k = PKey(b, l, m, 4) THEN U ELSE e[m][k]], 6)
WNormalOk(f, b, l, h, w, val, loc, o) ==
  IF ~On(f, b, l, h, w) THEN \A m \in 1..3 : DEq(o[m], None, 0)
  ELSE IF ~f.posed THEN \A m \in 1..3 : DEq(o[m], loc[m], 1)
  ELSE LET e == RotD(f.R[b][l], loc, val, b, l) IN \A m \in 1..3 : DEq(o[m], e[m], 6)

(* ------------------------------------------------------------------ fusion *)
(* o = (c p + a v) / (c + a): differentiate o (c + a) = c p + a v             *)
MixD(o, od, c, cd, p, pd, a, ad, v, vd) ==
  \A k \in DOMAIN od \cup DOMAIN cd \cup DOMAIN pd \cup DOMAIN ad \cup DOMAIN vd :
    LET x == G(od, k) y == G(cd, k) z == G(pd, k) u == G(ad, k) q == G(vd, k)
        lhs == x * (c + a) + o * (y + u)
        rhs == z * c + p * y + q * a + v * u
        tol == Abs(x) + Abs(y) + Abs(z) + Abs(u) + Abs(q) + Abs(o) + Abs(p) + Abs(v) + 2 * Abs(c) + 2 * Abs(a) + 8
    IN Abs(lhs - rhs) <= 2 * tol
\* o = c + a
SumD(od, cd, ad) == DEq(od, [k \in DOMAIN cd \cup DOMAIN ad |-> G(cd, k) + G(ad, k)], 3)
\* a = exp(-|v|^2 / 2 sigma^2): da = -a (v . dv) / sigma^2; s2 = sigma^2 (1/U)
AlphaD(ad, a, v, vd, s2) ==
  \A k \in DOMAIN ad \cup DOMAIN vd[1] \cup DOMAIN vd[2] \cup DOMAIN vd[3] :
    LET e == Dv(v[1] * G(vd[1], k) + v[2] * G(vd[2], k) + v[3] * G(vd[3], k), U)
    IN Abs(G(ad, k) * s2 + a * e) <= 2 * s2 + 6 * a + Abs(e) + Abs(G(ad, k)) + U
=============================================================================
