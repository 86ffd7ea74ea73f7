------------------------------- MODULE RgbdOps -------------------------------
(***************************************************************************)
(* The meaning of gradslam.RGBDImages.                                     *)
(*                                                                         *)
(* A value is [B, L, H, W, rgb, dep, K, hp, poses, hx, pix, cf]:           *)
(*   rgb[b][l][h][w]  colour triple        dep[b][l][h][w]  depth * 2      *)
(*   K[b] = <<fx, fy, 2 cx, 2 cy>>         poses[b][l]  3x4 integer matrix *)
(*   pix[b][l][h][w]  pixel positions given by the caller (if hx)          *)
(*   cf  channels-first layout.                                            *)
(* Everything else - vertex and normal maps, world maps, valid mask - is   *)
(* a function of these: that there is no further state is the property.    *)
(* Vertices have 16 units per 1.0; fx, fy in {1,2,4} keep them integral.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

NoObj == [B |-> 0]

Grid(v, F(_, _, _, _)) ==
  [b \in 1..v.B |-> [l \in 1..v.L |-> [h \in 1..v.H |-> [w \in 1..v.W |-> F(b, l, h, w)]]]]

Valid(v, b, l, h, w) == v.dep[b][l][h][w] > 0
PixX(v, b, l, h, w) == IF v.hx THEN v.pix[b][l][h][w][1] ELSE w - 1
PixY(v, b, l, h, w) == IF v.hx THEN v.pix[b][l][h][w][2] ELSE h - 1
Div(x, d) == IF x < 0 THEN -((-x) \div d) ELSE x \div d

(* the point the pinhole camera sees at the pixel at that depth *)
Vert(v, b, l, h, w) ==
  IF ~Valid(v, b, l, h, w) THEN <<0, 0, 0>>
  ELSE LET d == v.dep[b][l][h][w] K == v.K[b]
       IN <<Div((2 * PixX(v, b, l, h, w) - K[3]) * d * 4, K[1]),
            Div((2 * PixY(v, b, l, h, w) - K[4]) * d * 4, K[2]),
            8 * d>>
Sub3(p, q) == <<p[1] - q[1], p[2] - q[2], p[3] - q[3]>>
Cross(p, q) == <<p[2] * q[3] - p[3] * q[2], p[3] * q[1] - p[1] * q[3], p[1] * q[2] - p[2] * q[1]>>
Dot(p, q) == p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
Rot(M, p) == [k \in 1..3 |-> M[k][1] * p[1] + M[k][2] * p[2] + M[k][3] * p[3]]

(* unnormalised normal: horizontal cross vertical forward difference, the  *)
(* last column (row) reusing the difference of the one before              *)
NormDir(v, b, l, h, w) ==
  IF ~Valid(v, b, l, h, w) THEN <<0, 0, 0>>
  ELSE LET w0 == IF w = v.W THEN w - 1 ELSE w
           h0 == IF h = v.H THEN h - 1 ELSE h
           dh == Sub3(Vert(v, b, l, h, w0 + 1), Vert(v, b, l, h, w0))
           dv == Sub3(Vert(v, b, l, h0 + 1, w), Vert(v, b, l, h0, w))
       IN Cross(dh, dv)

GVert(v, b, l, h, w) ==
  IF ~Valid(v, b, l, h, w) THEN <<0, 0, 0>>
  ELSE IF ~v.hp THEN Vert(v, b, l, h, w)
  ELSE LET M == v.poses[b][l] q == Rot(M, Vert(v, b, l, h, w))
       IN [k \in 1..3 |-> q[k] + 16 * M[k][4]]
GNormDir(v, b, l, h, w) ==
  IF v.hp THEN Rot(v.poses[b][l], NormDir(v, b, l, h, w)) ELSE NormDir(v, b, l, h, w)

(* an observed unit normal (1024 units) points along direction c *)
Abs(x) == IF x < 0 THEN -x ELSE x
MaxAbs(c) == LET a == Abs(c[1]) b == Abs(c[2]) d == Abs(c[3])
                 m == IF a > b THEN a ELSE b IN IF m > d THEN m ELSE d
\* c is a cross product of 16-unit vectors; scaled down so products fit 32 bits
NormalOk(n, c, valid) ==
  IF ~valid THEN n = <<0, 0, 0>>
  ELSE IF c = <<0, 0, 0>>
  THEN \A k \in 1..3 : Abs(n[k]) <= 1025   \* direction undefined
  ELSE LET x == Cross(n, c) tol == 4 * MaxAbs(c) + 2048
       IN /\ \A k \in 1..3 : Abs(n[k]) <= 1025
          /\ \A k \in 1..3 : Abs(x[k]) <= tol
          /\ Dot(n, c) > 0
          /\ Abs(Dot(n, n) - 1048576) <= 6000

(* ------------------------------------------------------------------ views *)
(* layout: channels last  b,l,h,w,c   channels first  b,l,c,h,w            *)
Lay(v, C, F(_, _, _, _)) ==
  IF v.cf THEN [b \in 1..v.B |-> [l \in 1..v.L |-> [c \in 1..C |-> [h \in 1..v.H |-> [w \in 1..v.W |-> F(b, l, h, w)[c]]]]]]
          ELSE [b \in 1..v.B |-> [l \in 1..v.L |-> [h \in 1..v.H |-> [w \in 1..v.W |-> [c \in 1..C |-> F(b, l, h, w)[c]]]]]]
\* entry of an observed tensor, whatever its layout
Ent(cf, x, b, l, h, w, c) == IF cf THEN x[b][l][c][h][w] ELSE x[b][l][h][w][c]
ShapeOk(v, x, C) ==
  /\ Len(x) = v.B /\ \A b \in 1..v.B : Len(x[b]) = v.L
  /\ \A b \in 1..v.B : \A l \in 1..v.L :
       IF v.cf THEN Len(x[b][l]) = C /\ \A c \in 1..C : Len(x[b][l][c]) = v.H /\ \A h \in 1..v.H : Len(x[b][l][c][h]) = v.W
       ELSE Len(x[b][l]) = v.H /\ \A h \in 1..v.H : Len(x[b][l][h]) = v.W /\ \A w \in 1..v.W : Len(x[b][l][h][w]) = C
Cells(v) == (1..v.B) \X (1..v.L) \X (1..v.H) \X (1..v.W)

Rgb(v) == Lay(v, 3, LAMBDA b, l, h, w : v.rgb[b][l][h][w])
Dep(v) == Lay(v, 1, LAMBDA b, l, h, w : <<v.dep[b][l][h][w]>>)
ValidMap(v) == Lay(v, 1, LAMBDA b, l, h, w : <<Valid(v, b, l, h, w)>>)
VertMap(v) == Lay(v, 3, LAMBDA b, l, h, w : Vert(v, b, l, h, w))
GVertMap(v) == Lay(v, 3, LAMBDA b, l, h, w : GVert(v, b, l, h, w))
Kmat(k) == << << <<2 * k[1], 0, k[3], 0>>, <<0, 2 * k[2], k[4], 0>>, <<0, 0, 2, 0>>, <<0, 0, 0, 2>> >> >>
Kview(v) == [b \in 1..v.B |-> Kmat(v.K[b])]
Pose4(M) == <<M[1], M[2], M[3], <<0, 0, 0, 1>> >>
Pview(v) == IF v.hp THEN [b \in 1..v.B |-> [l \in 1..v.L |-> Pose4(v.poses[b][l])]] ELSE <<>>
NormMapOk(v, x, Dir(_, _, _, _)) ==
  /\ ShapeOk(v, x, 3)
  /\ \A q \in Cells(v) :
       NormalOk(<<Ent(v.cf, x, q[1], q[2], q[3], q[4], 1), Ent(v.cf, x, q[1], q[2], q[3], q[4], 2),
                  Ent(v.cf, x, q[1], q[2], q[3], q[4], 3)>>,
                Dir(q[1], q[2], q[3], q[4]), Valid(v, q[1], q[2], q[3], q[4]))

ViewOk(v, name, x) ==
  CASE name = "shape" -> x = <<v.B, v.L, v.H, v.W>>
    [] name = "len" -> x = v.B
    [] name = "cf" -> x = v.cf
    [] name = "hp" -> x = v.hp
    [] name = "rgb" -> x = Rgb(v)
    [] name = "dep" -> x = Dep(v)
    [] name = "K" -> x = Kview(v)
    [] name = "poses" -> x = Pview(v)
    [] name = "valid" -> x = ValidMap(v)
    [] name = "vert" -> x = VertMap(v)
    [] name = "gvert" -> x = GVertMap(v)
    [] name = "norm" -> NormMapOk(v, x, LAMBDA b, l, h, w : NormDir(v, b, l, h, w))
    [] name = "gnorm" -> NormMapOk(v, x, LAMBDA b, l, h, w : GNormDir(v, b, l, h, w))

(* -------------------------------------------------------------- selection *)
SliceIdx(len, s) ==
  LET st == IF s.s.has THEN s.s.v ELSE 1     \* tensors: positive steps only
      Clip(x) == IF x < 0 THEN 0 ELSE IF x > len THEN len ELSE x
      Norm(x) == IF x < 0 THEN x + len ELSE x
      start == IF s.a.has THEN Clip(Norm(s.a.v)) ELSE 0
      stop == IF s.b.has THEN Clip(Norm(s.b.v)) ELSE len
      cnt == IF stop > start THEN (stop - start + st - 1) \div st ELSE 0
  IN [j \in 1..cnt |-> start + (j - 1) * st + 1]
Ids(len, ix) ==
  CASE ix.k = "int" -> IF 0 <= ix.v /\ ix.v < len THEN <<ix.v + 1>> ELSE <<>>
    [] ix.k = "slice" -> SliceIdx(len, ix)
    [] ix.k = "list" -> [j \in 1..Len(ix.v) |-> IF ix.v[j] < 0 THEN ix.v[j] + len + 1 ELSE ix.v[j] + 1]
SelectOk(v, bi, li) == bi # <<>> /\ li # <<>>
Sel2(x, bi, li) == [b \in 1..Len(bi) |-> [l \in 1..Len(li) |-> x[bi[b]][li[l]]]]
Select(v, bi, li) ==
  [v EXCEPT !.B = Len(bi), !.L = Len(li), !.rgb = Sel2(v.rgb, bi, li), !.dep = Sel2(v.dep, bi, li),
            !.K = [b \in 1..Len(bi) |-> v.K[bi[b]]],
            !.poses = IF v.hp THEN Sel2(v.poses, bi, li) ELSE <<>>,
            !.pix = IF v.hx THEN Sel2(v.pix, bi, li) ELSE <<>>]

(* ------------------------------------------------------------- point cloud *)
(* one point per pixel (with a reading), row-major, per batch element *)
RECURSIVE Pixels(_, _, _, _)
Pixels(v, b, filter, i) ==
  IF i > v.H * v.W THEN <<>>
  ELSE LET h == ((i - 1) \div v.W) + 1 w == ((i - 1) % v.W) + 1
       IN (IF ~filter \/ Valid(v, b, 1, h, w) THEN << <<h, w>> >> ELSE <<>>)
          \o Pixels(v, b, filter, i + 1)
Collect(v, b, filter, F(_, _)) ==
  LET q == Pixels(v, b, filter, 1) IN [i \in 1..Len(q) |-> F(q[i][1], q[i][2])]
Points(v, b, glob, filter) ==
  Collect(v, b, filter, LAMBDA h, w : IF glob THEN GVert(v, b, 1, h, w) ELSE Vert(v, b, 1, h, w))
Colors(v, b, filter) == Collect(v, b, filter, LAMBDA h, w : v.rgb[b][1][h][w])
Dirs(v, b, glob, filter) ==
  Collect(v, b, filter, LAMBDA h, w :
     <<Valid(v, b, 1, h, w), IF glob THEN GNormDir(v, b, 1, h, w) ELSE NormDir(v, b, 1, h, w)>>)
CloudOk(v, b, glob, filter, p, n, c) ==
  /\ p = Points(v, b, glob, filter)
  /\ c = Colors(v, b, filter)
  /\ LET d == Dirs(v, b, glob, filter)
     IN Len(n) = Len(d) /\ \A i \in 1..Len(n) : NormalOk(n[i], d[i][2], d[i][1])

(* -------------------------------------------------------------- operations *)
Ok(S) == [ok |-> TRUE, S |-> S]
Refused(S) == [ok |-> FALSE, S |-> S]
\* an assigned image arrives in the layout the object has now
Unlay3(cf, B, L, H, W, x) ==
  [b \in 1..B |-> [l \in 1..L |-> [h \in 1..H |-> [w \in 1..W |->
     IF cf THEN <<x[b][l][1][h][w], x[b][l][2][h][w], x[b][l][3][h][w]>> ELSE x[b][l][h][w]]]]]
Unlay1(cf, B, L, H, W, x) ==
  [b \in 1..B |-> [l \in 1..L |-> [h \in 1..H |-> [w \in 1..W |->
     IF cf THEN x[b][l][1][h][w] ELSE x[b][l][h][w][1]]]]]

Make(s) == [B |-> s.B, L |-> s.L, H |-> s.H, W |-> s.W, cf |-> s.cf,
            rgb |-> Unlay3(s.cf, s.B, s.L, s.H, s.W, s.rgb),
            dep |-> Unlay1(s.cf, s.B, s.L, s.H, s.W, s.dep),
            K |-> s.K, hp |-> s.hp, poses |-> s.poses, hx |-> s.hx, pix |-> s.pix]

Apply(S, s) ==
  CASE s.op = "new" -> Ok([S EXCEPT ![s.r] = Make(s)])
    [] s.op \in {"read", "poke", "topc", "tometa", "detachgrad"} -> Ok(S)
    [] s.op = "setrgb" -> IF ShapeOk(S[s.x], s.v, 3)
         THEN Ok([S EXCEPT ![s.x].rgb = Unlay3(S[s.x].cf, S[s.x].B, S[s.x].L, S[s.x].H, S[s.x].W, s.v)])
         ELSE Refused(S)
    [] s.op = "setdep" -> IF ShapeOk(S[s.x], s.v, 1)
         THEN Ok([S EXCEPT ![s.x].dep = Unlay1(S[s.x].cf, S[s.x].B, S[s.x].L, S[s.x].H, S[s.x].W, s.v)])
         ELSE Refused(S)
    [] s.op = "setK" -> IF Len(s.v) = S[s.x].B THEN Ok([S EXCEPT ![s.x].K = s.v]) ELSE Refused(S)
    [] s.op = "setposes" ->
         IF Len(s.v) = S[s.x].B /\ \A b \in 1..Len(s.v) : Len(s.v[b]) = S[s.x].L
         THEN Ok([S EXCEPT ![s.x].poses = s.v, ![s.x].hp = TRUE]) ELSE Refused(S)
    [] s.op = "noposes" -> Ok([S EXCEPT ![s.x].poses = <<>>, ![s.x].hp = FALSE])
    [] s.op = "getitem" ->
         LET bi == Ids(S[s.x].B, s.i0) li == Ids(S[s.x].L, s.i1)
         IN IF SelectOk(S[s.x], bi, li) THEN Ok([S EXCEPT ![s.r] = Select(S[s.x], bi, li)]) ELSE Refused(S)
    [] s.op = "layout_" -> Ok([S EXCEPT ![s.x].cf = s.cf])
    [] s.op = "layout" -> Ok([S EXCEPT ![s.r] = [S[s.x] EXCEPT !.cf = s.cf]])
    [] s.op \in {"clone", "detach", "to"} -> Ok([S EXCEPT ![s.r] = S[s.x]])
    [] s.op = "badop" -> Refused(S)
=============================================================================
