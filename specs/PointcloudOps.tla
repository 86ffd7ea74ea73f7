---------------------------- MODULE PointcloudOps ----------------------------
(***************************************************************************)
(* The meaning of gradslam.Pointclouds.                                    *)
(*                                                                         *)
(* A batch is a value [p, n, c, f, nf]: p, n, c, f are sequences (one      *)
(* entry per cloud) of sequences of rows; an absent attribute is <<>>, and *)
(* a batch with p = <<>> is the empty batch.  nf is the feature width.     *)
(* Coordinates are fixed point numbers with SC units per 1.0.              *)
(*                                                                         *)
(* All views the class offers are functions of that value (Views), and     *)
(* every operation is a function from values to values (Apply).  The       *)
(* representation machine (PointcloudMech) is checked to refine this, and  *)
(* the recorded behaviour of the real class is judged against this         *)
(* (PointcloudTrace).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

SC == 16

Empty == [p |-> <<>>, n |-> <<>>, c |-> <<>>, f |-> <<>>, nf |-> 0]

B(v) == Len(v.p)
Sizes(v) == [b \in 1..B(v) |-> Len(v.p[b])]
Max(S) == CHOOSE m \in S : \A k \in S : k <= m
N(v) == IF v.p = <<>> THEN 0 ELSE Max({Len(v.p[b]) : b \in 1..B(v)})
Has(v, a) == v[a] # <<>>

Zeros(w) == [k \in 1..w |-> 0]
Pad(a, n, w) == [b \in 1..Len(a) |-> [i \in 1..n |-> IF i <= Len(a[b]) THEN a[b][i] ELSE Zeros(w)]]
Unpad(pa, sizes) == [b \in 1..Len(pa) |-> [i \in 1..sizes[b] |-> pa[b][i]]]
Width(v, a) == IF a = "f" THEN v.nf ELSE 3

(* everything the class lets a user see *)
Views(v) ==
  [len |-> B(v),
   has |-> <<Has(v, "p"), Has(v, "n"), Has(v, "c"), Has(v, "f")>>,
   nf |-> IF Has(v, "f") THEN v.nf ELSE 0,
   num |-> Sizes(v),
   pl |-> v.p, nl |-> v.n, cl |-> v.c, fl |-> v.f,
   pp |-> Pad(v.p, N(v), 3),
   np |-> Pad(v.n, N(v), 3),
   cp |-> Pad(v.c, N(v), 3),
   fp |-> Pad(v.f, N(v), v.nf),
   mask |-> [b \in 1..B(v) |-> [i \in 1..N(v) |-> i <= Len(v.p[b])]]]

(* ------------------------------------------------------------ arithmetic *)
(* operand entry for cloud b, point i, coordinate k *)
Opnd(o, b, i, k) ==
  CASE o.k \in {"s", "ts"} -> o.v
    [] o.k = "v3"  -> o.v[k]
    [] o.k = "113" -> o.v[1][1][k]
    [] o.k = "b11" -> o.v[b][1][1]
    [] o.k = "b13" -> o.v[b][1][k]
    [] o.k = "bn1" -> o.v[b][i][1]
    [] o.k = "bn3" -> o.v[b][i][k]
    [] o.k = "n3"  -> o.v[i][k]
    [] o.k = "1n1" -> o.v[1][i][1]

MapPts(v, F(_, _, _)) ==
  [v EXCEPT !.p = [b \in 1..B(v) |-> [i \in 1..Len(v.p[b]) |-> [k \in 1..3 |-> F(b, i, k)]]]]

Offset(v, o) == MapPts(v, LAMBDA b, i, k : v.p[b][i][k] + Opnd(o, b, i, k))
Minus(v, o) == MapPts(v, LAMBDA b, i, k : v.p[b][i][k] - Opnd(o, b, i, k))
Scale(v, o) == MapPts(v, LAMBDA b, i, k : v.p[b][i][k] * Opnd(o, b, i, k))
\* exact by construction of the inputs: the driver only divides by divisors
Quot(x, d) == IF d < 0 THEN (-x) \div (-d) ELSE x \div d
Divide(v, o) == MapPts(v, LAMBDA b, i, k : Quot(v.p[b][i][k], Opnd(o, b, i, k)))

(* M applied to a row r: pre-multiplication is M r, post-multiplication r M *)
Row(M, r, pre) ==
  [k \in 1..3 |-> IF pre THEN M[k][1] * r[1] + M[k][2] * r[2] + M[k][3] * r[3]
                         ELSE r[1] * M[1][k] + r[2] * M[2][k] + r[3] * M[3][k]]
Mat(m, b) == IF m.batch THEN m.v[b] ELSE m.v
RotAttr(a, m, pre) ==
  [b \in 1..Len(a) |-> [i \in 1..Len(a[b]) |-> Row(Mat(m, b), a[b][i], pre)]]
Rotate(v, m, pre) == [v EXCEPT !.p = RotAttr(v.p, m, pre), !.n = RotAttr(v.n, m, pre)]
\* a 4x4 transform rotates (points and normals), then adds its translation column
Trans(m, b, k) == SC * Mat(m, b)[k][4]
Transform(v, m, pre) ==
  LET r == Rotate(v, m, pre)
  IN MapPts(r, LAMBDA b, i, k : r.p[b][i][k] + Trans(m, b, k))
\* pinhole projection onto z = 1 with a 4x4 intrinsics matrix
Hom(M, r, k) == M[k][1] * r[1] + M[k][2] * r[2] + M[k][3] * r[3] + M[k][4] * SC
Uv(M, r, k) == LET z == Hom(M, r, 3) x == Hom(M, r, k) IN IF z = 0 THEN x ELSE Quot(x * SC, z)
Project(v, m) ==
  MapPts(v, LAMBDA b, i, k : IF k = 3 THEN SC ELSE Uv(Mat(m, b), v.p[b][i], k))

(* ------------------------------------------------------------- selection *)
SliceIdx(len, s) ==
  LET st == IF s.s.has THEN s.s.v ELSE 1
      Clip(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x
      Norm(x) == IF x < 0 THEN x + len ELSE x
      lo == IF st > 0 THEN 0 ELSE -1
      hi == IF st > 0 THEN len ELSE len - 1
      start == IF s.a.has THEN Clip(Norm(s.a.v), lo, hi) ELSE IF st > 0 THEN 0 ELSE len - 1
      stop == IF s.b.has THEN Clip(Norm(s.b.v), lo, hi) ELSE IF st > 0 THEN len ELSE -1
      cnt == IF st > 0 THEN IF stop > start THEN (stop - start + st - 1) \div st ELSE 0
                       ELSE IF start > stop THEN (start - stop - st - 1) \div (-st) ELSE 0
  IN [j \in 1..cnt |-> start + (j - 1) * st]
TrueIdx(mask) ==
  LET RECURSIVE T(_)
      T(i) == IF i > Len(mask) THEN <<>> ELSE (IF mask[i] THEN <<i - 1>> ELSE <<>>) \o T(i + 1)
  IN T(1)
InRange(len, i) == -len <= i /\ i < len
Ids(len, ix) ==
  CASE ix.k = "int" -> <<ix.v>>
    [] ix.k = "slice" -> SliceIdx(len, ix)
    [] ix.k \in {"list", "long"} -> ix.v
    [] ix.k = "bool" -> TrueIdx(ix.v)
At(a, len, i) == IF i < 0 THEN a[i + len + 1] ELSE a[i + 1]
SelAttr(a, len, ids) == IF a = <<>> THEN <<>> ELSE [j \in 1..Len(ids) |-> At(a, len, ids[j])]
Select(v, ids) ==
  [p |-> SelAttr(v.p, B(v), ids), n |-> SelAttr(v.n, B(v), ids),
   c |-> SelAttr(v.c, B(v), ids), f |-> SelAttr(v.f, B(v), ids), nf |-> v.nf]
SelectOk(v, ix) ==
  /\ Has(v, "p")
  /\ Ids(B(v), ix) # <<>>
  /\ \A j \in 1..Len(Ids(B(v), ix)) : InRange(B(v), Ids(B(v), ix)[j])

(* ---------------------------------------------------------------- append *)
Cat(a, b) == IF a = <<>> THEN <<>> ELSE [k \in 1..Len(a) |-> a[k] \o b[k]]
AppendOk(x, y) ==
  \/ ~Has(y, "p")
  \/ ~Has(x, "p")
  \/ /\ B(x) = B(y)
     /\ \A a \in {"n", "c", "f"} : Has(x, a) = Has(y, a)
     /\ Has(x, "f") => x.nf = y.nf
AppendVal(x, y) ==
  IF ~Has(y, "p") THEN x
  ELSE IF ~Has(x, "p") THEN y
  ELSE [p |-> Cat(x.p, y.p), n |-> Cat(x.n, y.n), c |-> Cat(x.c, y.c), f |-> Cat(x.f, y.f), nf |-> x.nf]

(* ------------------------------------------------------------ assignment *)
SetListOk(v, a, val) ==
  /\ Has(v, "p")
  /\ Len(val) = B(v)
  /\ \A b \in 1..B(v) : Len(val[b]) = Len(v.p[b])
  /\ a # "f" => \A b \in 1..B(v) : \A i \in 1..Len(val[b]) : Len(val[b][i]) = 3
SetPadOk(v, a, val) ==
  /\ Has(v, "p")
  /\ Len(val) = B(v)
  /\ \A b \in 1..B(v) : Len(val[b]) = N(v)
  /\ a # "f" => \A b \in 1..B(v) : \A i \in 1..N(v) : Len(val[b][i]) = 3
  /\ \A b \in 1..B(v) : \A i \in 1..N(v) : i > Len(v.p[b]) =>
        \A k \in 1..Len(val[b][i]) : val[b][i][k] = 0
SetVal(v, a, val, w) ==
  IF a = "f" THEN [v EXCEPT !.f = val, !.nf = w] ELSE [v EXCEPT ![a] = val]

(* ------------------------------------------------------------ operations *)
(* S: one value per slot (slot 0 unused).  Result: ok, the new slots, and   *)
(* which slots an in-place mutation of tensors may reach (groups).          *)
Ok(S) == [ok |-> TRUE, S |-> S]
Refused(S) == [ok |-> FALSE, S |-> S]
Inplace == {"offset_", "scale_", "rotate_", "transform_", "pinhole_projection_"}

ArithVal(v, s) ==
  IF ~Has(v, "p") THEN v
  ELSE CASE s.op \in {"offset_", "add"} -> Offset(v, s.o)
         [] s.op = "sub" -> Minus(v, s.o)
         [] s.op \in {"scale_", "mul"} -> Scale(v, s.o)
         [] s.op = "div" -> Divide(v, s.o)
RigidOk(v, s) == s.m.batch => Len(s.m.v) = B(v)
RigidVal(v, s) ==
  IF ~Has(v, "p") THEN v
  ELSE CASE s.op \in {"rotate_", "rotate"} -> Rotate(v, s.m, s.pre)
         [] s.op = "matmul3" -> Rotate(v, s.m, FALSE)
         [] s.op \in {"transform_", "transform"} -> Transform(v, s.m, s.pre)
         [] s.op = "matmul4" -> Transform(v, s.m, FALSE)
         [] s.op \in {"pinhole_projection_", "pinhole_projection"} -> Project(v, s.m)

Apply(S, s) ==
  CASE s.op = "new" -> Ok([S EXCEPT ![s.r] = [p |-> s.p, n |-> s.n, c |-> s.c, f |-> s.f, nf |-> s.nf]])
    [] s.op = "empty" -> Ok([S EXCEPT ![s.r] = Empty])
    [] s.op \in {"read", "poke"} -> Ok(S)
    [] s.op = "setl" -> IF SetListOk(S[s.x], s.a, s.v)
                        THEN Ok([S EXCEPT ![s.x] = SetVal(S[s.x], s.a, s.v, s.w)]) ELSE Refused(S)
    [] s.op = "setp" -> IF SetPadOk(S[s.x], s.a, s.v)
                        THEN Ok([S EXCEPT ![s.x] = SetVal(S[s.x], s.a, Unpad(s.v, Sizes(S[s.x])), s.w)])
                        ELSE Refused(S)
    [] s.op \in {"offset_", "scale_", "add", "sub", "mul", "div"} ->
         Ok([S EXCEPT ![s.r] = ArithVal(S[s.x], s)])
    [] s.op \in {"rotate_", "rotate", "matmul3", "transform_", "transform", "matmul4",
                 "pinhole_projection_", "pinhole_projection"} ->
         IF RigidOk(S[s.x], s) THEN Ok([S EXCEPT ![s.r] = RigidVal(S[s.x], s)]) ELSE Refused(S)
    [] s.op = "append" -> IF AppendOk(S[s.x], S[s.y])
                          THEN Ok([S EXCEPT ![s.x] = AppendVal(S[s.x], S[s.y])]) ELSE Refused(S)
    [] s.op = "getitem" -> IF SelectOk(S[s.x], s.ix)
                           THEN Ok([S EXCEPT ![s.r] = Select(S[s.x], Ids(B(S[s.x]), s.ix))]) ELSE Refused(S)
    [] s.op \in {"clone", "detach", "to"} -> Ok([S EXCEPT ![s.r] = S[s.x]])
    [] s.op = "badop" -> Refused(S)
    [] s.op \in {"tosame", "tometa", "detachgrad"} -> Ok(S)
=============================================================================
