------------------------------ MODULE DatasetJudge ------------------------------
(* Judges what the datasets return.  An observed value is scaled: colours by     *)
(* s.cs, depths by 320000 per metre, intrinsics by 256, poses by SC.             *)
EXTENDS DatasetOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)

Shape(s, L, c) == IF s.cf THEN <<L, c, s.h, s.w>> ELSE <<L, s.h, s.w, c>>
\* normalised colours are observed with 64 * 255 per unit, others with 64
ColorOk(s, fr, o) ==
  /\ s.cs = (IF s.norm THEN 16320 ELSE 64)
  /\ o.shape = Shape(s, Len(fr), 3)
  /\ \A l \in 1..Len(fr) : \A k \in 1..Len(s.pos) :
       LET X == Lin(s.pos[k][1], s.w, IW) Y == Lin(s.pos[k][2], s.h, IH) d == X.d * Y.d IN
       \A c \in 1..3 : Abs(o.v[l][k][c] * d - 64 * ColLin(fr[l].c, X, Y, c - 1)) <= 2 * d
DepthOk(s, fr, o) ==
  /\ o.shape = Shape(s, Len(fr), 1)
  /\ \A l \in 1..Len(fr) : \A k \in 1..Len(s.pos) :
       \E u \in Near1(s.pos[k][1], s.w, IW) : \E v \in Near1(s.pos[k][2], s.h, IH) :
         Abs(o.v[l][k] - Dep(fr[l].d, u, v) * (IF s.kind = "scannet" THEN 320 ELSE 64)) <= 3
LabelOk(s, fr, o) ==
  /\ o.shape = <<Len(fr), s.h, s.w, 1>>
  /\ \A l \in 1..Len(fr) : \A k \in 1..Len(s.pos) :
       \E u \in Near1(s.pos[k][1], s.w, IW) : \E v \in Near1(s.pos[k][2], s.h, IH) : o.v[l][k] = Class(s, Lab(fr[l].d, u, v))
\* <<num, den>> of fx, fy, cx, cy at full size
Cam(s, q) == IF s.kind = "tum" THEN << <<525, 1>>, <<525, 1>>, <<639, 2>>, <<479, 2>> >>
             ELSE IF s.kind = "icl" THEN << <<2406, 5>>, <<-480, 1>>, <<639, 2>>, <<479, 2>> >>
             ELSE [k \in 1..4 |-> <<q.K[k], 1>>]
IntrOk(s, q, o) ==
  LET K == Cam(s, q)
      N(x, k, num, den) == LET g == Gcd(num * Abs(K[k][1]), den * K[k][2]) a == (num * K[k][1]) \div g b == (den * K[k][2]) \div g
                           IN Abs(x * b - a * 256) <= 2 * b
  IN /\ o.shape = <<1, 4, 4>>
     /\ N(o.m[1][1], 1, s.w, IW) /\ N(o.m[2][2], 2, s.h, IH) /\ N(o.m[1][3], 3, s.w, IW) /\ N(o.m[2][3], 4, s.h, IH)
     /\ o.m[3][3] = 256 /\ o.m[4][4] = 256
     /\ \A a, b \in 1..4 : (a # b /\ ~(b = 3 /\ a <= 2)) => o.m[a][b] = 0
PoseOk(fr, o) == o.shape = <<Len(fr), 4, 4>> /\ \A l \in 1..Len(fr) : MatNear(o.m[l], Rel(fr[1].p, fr[l].p), 2)
TransOk(fr, o) == o.shape = <<Len(fr), 4, 4>> /\ \A l \in 1..Len(fr) : MatNear(o.m[l], IF l = 1 THEN IdT ELSE Rel(fr[l - 1].p, fr[l].p), 2)
NameOk(s, q, fr, o) == IF s.kind = "scannet" THEN o = << <<q.name, q.name>> >>
                       ELSE o = [l \in 1..Len(fr) |-> <<q.name, fr[l].stem>>]
RECURSIVE Lines(_)
Lines(x) == IF Len(x) = 1 THEN x[1] ELSE x[1] \o "|" \o Lines(Tail(x))
Stamps(fr, o) == o = Lines([l \in 1..Len(fr) |-> fr[l].ts])

ItemClause(s, q, fr, o) ==
  IF o.n # 1 + Cardinality({k \in DOMAIN s.sw : s.sw[k]}) THEN "number of outputs"
  ELSE IF ~ColorOk(s, fr, o.color) THEN "colour images"
  ELSE IF s.sw.depth /\ ~DepthOk(s, fr, o.depth) THEN "depth images"
  ELSE IF s.sw.intr /\ ~IntrOk(s, q, o.intr) THEN "intrinsics"
  ELSE IF s.sw.pose /\ ~PoseOk(fr, o.pose) THEN "poses"
  ELSE IF s.sw.trans /\ ~TransOk(fr, o.trans) THEN "transforms"
  ELSE IF s.sw.names /\ ~NameOk(s, q, fr, o.names) THEN "names"
  ELSE IF s.sw.stamps /\ ~Stamps(fr, o.stamps) THEN "time stamps"
  ELSE IF s.sw.labels /\ ~LabelOk(s, fr, o.labels) THEN "labels"
  ELSE ""

RECURSIVE Concat(_)
Concat(x) == IF x = <<>> THEN <<>> ELSE x[1] \o Concat(Tail(x))
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN f : a # b => f[a] # f[b]}
DataClause(s) ==
  IF s.stop THEN "reading an item failed: " \o s.fail
  ELSE
  LET its == [k \in 1..Len(s.seqs) |-> Items(s, s.seqs[k])]
      Flat(f) == Concat([a \in 1..Len(s.seqs) |-> [k \in 1..Len(its[f[a]]) |-> [q |-> f[a], fr |-> its[f[a]][k]]]])
      all == Flat([a \in 1..Len(s.seqs) |-> a])
      Cl(x, k) == ItemClause(s, s.seqs[x[k].q], x[k].fr, s.items[k])
      good == {f \in Perms(1..Len(s.seqs)) : LET x == Flat(f) IN \A k \in 1..Len(x) : Cl(x, k) = ""}
      right == {f \in Perms(1..Len(s.seqs)) : LET x == Flat(f) IN \A k \in 1..Len(x) : Cl(x, k) \notin {"colour images", "number of outputs"}}
  IN IF s.count # Len(all) \/ Len(s.items) # Len(all) THEN "number of items"
     ELSE IF good # {} THEN ""
     ELSE LET f == IF right # {} THEN CHOOSE f \in right : TRUE ELSE [a \in 1..Len(s.seqs) |-> a]
              x == Flat(f) k == CHOOSE k \in 1..Len(x) : Cl(x, k) # "" /\ \A j \in 1..(k - 1) : Cl(x, j) = ""
          IN Cl(x, k)
Open(s) == IF Valid(s) THEN (IF s.opened THEN DataClause(s) ELSE "refused: " \o s.fail)
           ELSE IF s.opened THEN "accepted although it cannot be served" ELSE ""

(* a palette: class names and colours in order; an image coloured with it      *)
Names(seg) == IF seg = "scannet20" THEN Scan ELSE Nyu
Palette(s) ==
  /\ s.names = Names(s.seg) /\ Len(s.colors) = Len(s.names) /\ s.colors[1] = <<0, 0, 0>>
  /\ \A a, b \in 1..Len(s.colors) : a # b => s.colors[a] # s.colors[b]
  /\ \A k \in 1..Len(s.names) : \A j \in 1..Len(s.onames) : s.names[k] = s.onames[j] => s.colors[k] = s.ocolors[j]
Paint(s) == s.shape = Append(s.lshape, 3) /\ Len(s.out) = Len(s.lab)
            /\ \A k \in 1..Len(s.lab) : s.out[k] = IF s.lab[k] < Len(s.colors) THEN s.colors[s.lab[k] + 1] ELSE <<0, 0, 0>>
RemapOk(s) == s.shape = s.lshape /\ s.out = [k \in 1..Len(s.lab) |-> Remap(s.lab[k])]
(* the helpers on their own: tokens or small integers, flat in row-major order *)
\* channels first: element (n, c, y, x) of the result is element (n, y, x, c)
FirstOk(s) ==
  LET r == Len(s.shape) H == s.shape[r - 2] W == s.shape[r - 1] C == s.shape[r] N == H * W * C
  IN /\ s.oshape = SubSeq(s.shape, 1, r - 3) \o <<C, H, W>> /\ Len(s.out) = Len(s.v)
     /\ \A k \in 0..(Len(s.v) - 1) :
          LET n == k \div N c == (k % N) \div (H * W) y == (k % (H * W)) \div W x == k % W
          IN s.out[k + 1] = s.v[n * N + (y * W + x) * C + c + 1]
\* colours v / 2 in 0-255 observed with 510 per unit
NormOk(s) == s.oshape = s.shape /\ s.out = s.v
\* ratios in 1/16, cameras of integers, observed with 16 per unit
ScaleOk(s) ==
  s.oshape = s.shape /\ Len(s.out) = Len(s.v)
  /\ \A k \in 0..(Len(s.v) - 1) :
       LET n == s.n y == (k % (n * n)) \div n x == k % n
       IN s.out[k + 1] = s.v[k + 1] * (IF y = 0 /\ x \in {0, 2} THEN s.rw ELSE IF y = 1 /\ x \in {1, 2} THEN s.rh ELSE 16)
ChainOk(s) == Len(s.out) = Len(s.p) /\ \A k \in 1..Len(s.p) : MatNear(s.out[k], IF k = 1 THEN IdT ELSE Rel(s.p[k - 1], s.p[k]), 2)
Clause(s) ==
  CASE s.op = "data" -> LET c == Open(s) IN IF c = "" THEN "" ELSE s.kind \o ": " \o c
    [] s.op = "refuse" -> IF s.ok THEN s.kind \o ": accepted: " \o s.what ELSE ""
    [] s.fail # "" -> s.op \o " failed: " \o s.fail
    [] s.op = "palette" -> IF Palette(s) THEN "" ELSE "palette of " \o s.seg
    [] s.op = "paint" -> IF Paint(s) THEN "" ELSE "create_label_image"
    [] s.op \in {"first", "norm", "scale", "chain"} /\ s.mut -> s.op \o " modified its argument"
    [] s.op = "first" -> IF FirstOk(s) THEN "" ELSE "channels_first"
    [] s.op = "norm" -> IF NormOk(s) THEN "" ELSE "normalize_image"
    [] s.op = "scale" -> IF ScaleOk(s) THEN "" ELSE "scale_intrinsics"
    [] s.op = "chain" -> IF ChainOk(s) THEN "" ELSE "poses_to_transforms"
    [] s.op = "remap" -> IF RemapOk(s) THEN "" ELSE "nyu40_to_scannet20"
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
