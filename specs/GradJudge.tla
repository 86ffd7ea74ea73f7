------------------------------ MODULE GradJudge ------------------------------
(* Judges recorded derivatives of the real code.                              *)
EXTENDS GradOps, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i, st
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Top == 24 * U

(* ------------------------------------------------------------------ frames *)
Frame(s) ==
  LET Px == {q \in (1..s.B) \X (1..s.L) \X (1..s.H) \X (1..s.W) : TRUE}
      A(m, q) == m[q[1]][q[2]][q[3]][q[4]]
      Bound(m) == \A q \in Px : \A k \in 1..3 : Small(A(m, q)[k], Top)
  IN IF ~(Bound(s.dv) /\ Bound(s.dgv) /\ Bound(s.dn) /\ Bound(s.dgn)) THEN "frame: derivative is not a reasonable number"
     ELSE IF \E q \in Px : ~VertexOk(s, q[1], q[2], q[3], q[4], A(s.dv, q)) THEN "frame: derivatives of vertices"
     ELSE IF \E q \in Px : ~WVertexOk(s, q[1], q[2], q[3], q[4], A(s.v, q), A(s.dv, q), A(s.dgv, q)) THEN "frame: derivatives of world vertices"
     ELSE IF \E q \in Px : ~NormalOk(s, q[1], q[2], q[3], q[4], A(s.n, q), A(s.dn, q)) THEN "frame: derivatives of normals"
     ELSE IF \E q \in Px : ~WNormalOk(s, q[1], q[2], q[3], q[4], A(s.n, q), A(s.dn, q), A(s.dgn, q)) THEN "frame: derivatives of world normals"
     ELSE IF \E k \in 1..Len(s.needs) : s.needs[k] THEN "frame: detached frame has derivatives"
     ELSE ""
RECURSIVE Pixels(_, _, _, _)
Pixels(H, WW, j, keep) ==
  IF j > H * WW THEN <<>>
  ELSE LET h == ((j - 1) \div WW) + 1 w == ((j - 1) % WW) + 1
       IN (IF <<h, w>> \in keep THEN << <<h, w>> >> ELSE <<>>) \o Pixels(H, WW, j + 1, keep)
Same3(a, b, tol) == \A k \in 1..3 : DEq(a[k], b[k], tol)
ColD(b, l, h, w) == [c \in 1..3 |-> [k \in {CKey(b, l, h, w, c)} |-> U]]
Cloud(s) ==
  IF \E b \in 1..s.B :
       LET px == Pixels(s.H, s.W, 1, {q \in (1..s.H) \X (1..s.W) : ~s.filt \/ s.d[b][1][q[1]][q[2]] > 0})
       IN ~(/\ Len(s.pts[b]) = Len(px) /\ Len(s.nrm[b]) = Len(px) /\ Len(s.col[b]) = Len(px)
            /\ \A k \in 1..Len(px) : LET h == px[k][1] w == px[k][2]
                 IN /\ Same3(s.pts[b][k], s.v[b][1][h][w], 1) /\ Same3(s.nrm[b][k], s.n[b][1][h][w], 1)
                    /\ Same3(s.col[b][k], ColD(b, 1, h, w), 1))
  THEN "cloud of a frame: derivatives" ELSE ""

(* ------------------------------------------------------------------ clouds *)
Name(s, a, b) == s.key \o a \o ToString(b) \o "."
Leaf(v, name, k, c) == Inp(W * v, name \o ToString(k) \o "." \o ToString(c))
Load(s, a, n) == [b \in 1..Len(s[a]) |-> [k \in 1..Len(s[a][b]) |-> [c \in 1..n |-> Leaf(s[a][b][k][c], Name(s, a, b), k, c)]]]
Fill(s) == [p |-> Load(s, "p", 3), n |-> Load(s, "n", 3), c |-> Load(s, "c", 3), f |-> Load(s, "f", 1)]
Each(m, F(_, _)) == [b \in 1..Len(m) |-> [k \in 1..Len(m[b]) |-> F(b, m[b][k])]]
Opn(s, b, c) ==
  LET v == IF s.shape = "s" THEN s.v ELSE IF s.shape = "v" THEN s.v[c] ELSE s.v[b][1][c]
      key == s.key \o "o" \o (IF s.shape = "s" THEN "" ELSE IF s.shape = "v" THEN ToString(c) ELSE ToString(b) \o ".1." \o ToString(c))
  IN IF s.leaf THEN Inp(W * v, key) ELSE Con(W * v)
Arith(s, b, p) == [c \in 1..3 |-> LET o == Opn(s, b, c)
                                  IN IF s.f \in {"add", "offset"} THEN DAdd(p[c], o) ELSE IF s.f = "sub" THEN DAdd(p[c], DNeg(o))
                                     ELSE IF s.f \in {"mul", "scale"} THEN DMul(p[c], o) ELSE DDiv(p[c], o)]
Mt(s, b) == [x \in 1..Len(IF s.one THEN s.M ELSE s.M[1]) |-> [y \in 1..Len(IF s.one THEN s.M ELSE s.M[1]) |->
              IF s.one THEN Inp(W * s.M[x][y], s.key \o "M" \o ToString(x) \o "." \o ToString(y))
              ELSE Inp(W * s.M[b][x][y], s.key \o "M" \o ToString(b) \o "." \o ToString(x) \o "." \o ToString(y))]]
Turn(s, b, v) == LET M == Mt(s, b) IN DMat(IF s.pre THEN M ELSE Tp(M), v)
Move(s, b, v) == LET M == Mt(s, b) x == DMat(IF s.pre THEN M ELSE Tp(M), v) IN [k \in 1..3 |-> DAdd(x[k], M[k][4])]
Proj(s, b, v) == LET M == Mt(s, b) IN DProj(M[1][1], M[2][2], M[1][3], M[2][3], v)
\* the other entries of the intrinsics have derivatives too: the pinhole model fixes only these four
Pick(m, ix) == IF m = <<>> THEN <<>> ELSE [b \in 1..Len(ix) |-> m[ix[b] + 1]]
Plus(a, b) == IF a = <<>> THEN <<>> ELSE [j \in 1..Len(a) |-> a[j] \o b[j]]
Do(s) ==
  CASE s.op = "new" -> Fill(s)
    [] s.op = "append" -> LET q == Fill(s) IN [p |-> Plus(st.p, q.p), n |-> Plus(st.n, q.n), c |-> Plus(st.c, q.c), f |-> Plus(st.f, q.f)]
    [] s.op = "setpts" -> [st EXCEPT !.p = Load(s, "p", 3)]
    [] s.op = "arith" -> [st EXCEPT !.p = Each(st.p, LAMBDA b, v : Arith(s, b, v))]
    [] s.op = "rot" -> [st EXCEPT !.p = Each(st.p, LAMBDA b, v : Turn(s, b, v)), !.n = Each(st.n, LAMBDA b, v : Turn(s, b, v))]
    [] s.op = "tf" -> [st EXCEPT !.p = Each(st.p, LAMBDA b, v : Move(s, b, v)), !.n = Each(st.n, LAMBDA b, v : Turn(s, b, v))]
    [] s.op = "proj" -> [st EXCEPT !.p = Each(st.p, LAMBDA b, v : Proj(s, b, v))]
    [] s.op = "get" -> [p |-> Pick(st.p, s.idx), n |-> Pick(st.n, s.idx), c |-> Pick(st.c, s.idx), f |-> Pick(st.f, s.idx)]
    [] s.op = "noop" -> st
Has(m) == \E b \in 1..Len(m) : m[b] # <<>>
SeenOk(o, m, n) == IF ~Has(m) THEN TRUE
                   ELSE /\ Len(o) = Len(m)
                        /\ \A b \in 1..Len(m) : /\ Len(o[b]) = Len(m[b])
                                                /\ \A k \in 1..Len(m[b]) : \A c \in 1..n : DEq(o[b][k][c], m[b][k][c].d, 2 + 0)
Seen(s, x) ==
  IF \E j \in 1..Len(s.needs) : s.needs[j] THEN "clouds: padding or detached clouds have derivatives"
  ELSE IF s.see = <<>> THEN ""
  ELSE LET o == s.see[1]
       IN IF ~SeenOk(o.p, x.p, 3) THEN "clouds: derivatives of points after " \o s.op
          ELSE IF ~SeenOk(o.n, x.n, 3) THEN "clouds: derivatives of normals after " \o s.op
          ELSE IF ~SeenOk(o.c, x.c, 3) THEN "clouds: derivatives of colours after " \o s.op
          ELSE IF ~SeenOk(o.f, x.f, 1) THEN "clouds: derivatives of features after " \o s.op ELSE ""

(* ------------------------------------------------------------------ fusion *)
Near(a, b) == Abs(a - b) <= 1
MapSmall(m) == ~m.any \/ \A b \in 1..Len(m.dp) :
  /\ \A k \in 1..Len(m.dp[b]) : \A c \in 1..3 : Small(m.dp[b][k][c], Top) /\ Small(m.dn[b][k][c], Top) /\ Small(m.dc[b][k][c], Top)
  /\ m.df = <<>> \/ \A k \in 1..Len(m.df[b]) : Small(m.df[b][k][1], Top)
FrameSmall(s) == \A b \in 1..s.B : \A h \in 1..s.H : \A w \in 1..s.W :
  /\ \A c \in 1..3 : Small(s.dv[b][h][w][c], Top) /\ Small(s.dgv[b][h][w][c], Top) /\ Small(s.dgn[b][h][w][c], Top) /\ Small(s.drgb[b][h][w][c], Top)
  /\ s.fusion => Small(s.dal[b][h][w], Top)
Kept(pre, post, b, k) == Same3(post.dp[b][k], pre.dp[b][k], 1) /\ Same3(post.dn[b][k], pre.dn[b][k], 1) /\ Same3(post.dc[b][k], pre.dc[b][k], 1)
FrameD(s, post, b, k, h, w) ==
  /\ Same3(post.dp[b][k], s.dgv[b][h][w], 1) /\ Same3(post.dn[b][k], s.dgn[b][h][w], 1) /\ Same3(post.dc[b][k], s.drgb[b][h][w], 1)
  /\ s.fusion => DEq(post.df[b][k][1], s.dal[b][h][w], 1)
Fuse(s) ==
  LET N(b) == IF s.pre.any THEN Len(s.pre.p[b]) ELSE 0
      mine(b) == {j \in 1..Len(s.corr) : s.corr[j][1] = b - 1}
      taken(b) == {<<s.corr[j][3] + 1, s.corr[j][4] + 1>> : j \in mine(b)}
      new(b) == Pixels(s.H, s.W, 1, {q \in (1..s.H) \X (1..s.W) : s.d[b][q[1]][q[2]] > 0} \ taken(b))
      hit(b, k) == \E j \in mine(b) : s.corr[j][2] = k - 1
      row(b, k) == s.corr[CHOOSE j \in mine(b) : s.corr[j][2] = k - 1]
      Fused(b, k) ==
        LET r == row(b, k) h == r[3] + 1 w == r[4] + 1 q == s.post pr == s.pre
            c == pr.f[b][k][1] cd == pr.df[b][k][1] a == s.al[b][h][w] ad == s.dal[b][h][w]
        IN /\ SumD(q.df[b][k][1], cd, ad)
           /\ \A m \in 1..3 : /\ MixD(q.p[b][k][m], q.dp[b][k][m], c, cd, pr.p[b][k][m], pr.dp[b][k][m], a, ad, s.gv[b][h][w][m], s.dgv[b][h][w][m])
                              /\ MixD(q.n[b][k][m], q.dn[b][k][m], c, cd, pr.n[b][k][m], pr.dn[b][k][m], a, ad, s.gn[b][h][w][m], s.dgn[b][h][w][m])
                              /\ MixD(q.c[b][k][m], q.dc[b][k][m], c, cd, pr.c[b][k][m], pr.dc[b][k][m], a, ad, s.rgb[b][h][w][m], s.drgb[b][h][w][m])
  IN IF ~(MapSmall(s.pre) /\ MapSmall(s.post) /\ FrameSmall(s)) THEN "fusion: derivative is not a reasonable number"
     ELSE IF ~s.post.any THEN "fusion: no map"
     ELSE IF \E b \in 1..s.B : Len(s.post.p[b]) # N(b) + Len(new(b)) THEN "fusion: number of points"
     ELSE IF \E b \in 1..s.B : \E h \in 1..s.H : \E w \in 1..s.W : ~Same3(s.drgb[b][h][w], s.drgb[b][h][w], 0) THEN "unreachable"
     ELSE IF s.fusion /\ \E b \in 1..s.B : \E h \in 1..s.H : \E w \in 1..s.W :
                s.d[b][h][w] > 0 /\ ~AlphaD(s.dal[b][h][w], s.al[b][h][w], s.v[b][h][w], s.dv[b][h][w], s.s2) THEN "fusion: derivatives of the confidence"
     ELSE IF \E b \in 1..s.B : \E k \in 1..N(b) : ~hit(b, k) /\ ~(Kept(s.pre, s.post, b, k) /\ (s.fusion => DEq(s.post.df[b][k][1], s.pre.df[b][k][1], 1)))
          THEN "fusion: derivatives of points that were not matched"
     ELSE IF \E b \in 1..s.B : \E k \in 1..N(b) : hit(b, k) /\ ~Fused(b, k) THEN "fusion: derivatives of fused points"
     ELSE IF \E b \in 1..s.B : \E k \in 1..Len(new(b)) : ~FrameD(s, s.post, b, N(b) + k, new(b)[k][1], new(b)[k][2]) THEN "fusion: derivatives of new points"
     ELSE ""
\* poses: given ones pass through, estimated ones are the motion times the previous pose
TKey(b, l, x, y) == "T" \o ToString(b) \o "." \o ToString(l) \o "." \o ToString(x) \o "." \o ToString(y)
PoseD(s, b, x, y) ==
  IF s.given THEN [k \in {PKey(b, s.l, x, y)} |-> U]
  ELSE LET tk(z) == TKey(b, s.l, x, z)
           keys == UNION {DOMAIN s.dP[b][z][y] : z \in 1..3} \cup {tk(z) : z \in 1..4}
           term(k) == Dv(s.T[b][x][1] * G(s.dP[b][1][y], k) + s.T[b][x][2] * G(s.dP[b][2][y], k) + s.T[b][x][3] * G(s.dP[b][3][y], k), U)
       IN [k \in keys |-> IF \E z \in 1..3 : k = tk(z) THEN s.P[b][CHOOSE z \in 1..3 : k = tk(z)][y]
                          ELSE IF k = tk(4) THEN (IF y = 4 THEN U ELSE 0) ELSE term(k)]
Pose(s) ==
  IF \E b \in 1..Len(s.o) : \E x \in 1..3 : \E y \in 1..4 : ~Small(s.o[b][x][y], Top) THEN "pose: derivative is not a reasonable number"
  ELSE IF \E b \in 1..Len(s.o) : \E x \in 1..3 : \E y \in 1..4 : ~DEq(s.o[b][x][y], PoseD(s, b, x, y), 6) THEN "pose: derivatives"
  ELSE ""
RunOk(s) ==
  /\ Len(s.a.dp) = Len(s.b.dp)
  /\ \A b \in 1..Len(s.a.dp) :
       /\ Len(s.a.dp[b]) = Len(s.b.dp[b])
       /\ \A k \in 1..Len(s.a.dp[b]) : /\ Same3(s.a.dp[b][k], s.b.dp[b][k], 3) /\ Same3(s.a.dn[b][k], s.b.dn[b][k], 3) /\ Same3(s.a.dc[b][k], s.b.dc[b][k], 3)
                                       /\ s.a.df # <<>> => DEq(s.a.df[b][k][1], s.b.df[b][k][1], 3)
  /\ \A b \in 1..Len(s.o) : \A l \in 1..s.L : \A x \in 1..3 : \A y \in 1..4 : DEq(s.o[b][l][x][y], [k \in {PKey(b, l, x, y)} |-> U], 0)

IsCloudOp(s) == s.op \in {"new", "append", "setpts", "arith", "rot", "tf", "proj", "get", "noop"}
Clause(s, x) ==
  CASE s.op = "failed" -> "failed: " \o s.fail
    [] s.op = "frame" -> Frame(s)
    [] s.op = "cloud" -> Cloud(s)
    [] s.op = "fuse" -> Fuse(s)
    [] s.op = "pose" -> Pose(s)
    [] s.op = "run" -> IF RunOk(s) THEN "" ELSE "run: derivatives differ from stepping"
    [] OTHER -> Seen(s, x)
TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ st = <<>>
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET s == Traces[t].steps[i] x == IF IsCloudOp(s) THEN Do(s) ELSE st c == Clause(s, x)
     IN /\ st' = x
        /\ IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
           ELSE /\ i' = i + 1
                /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
