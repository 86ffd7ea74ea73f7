------------------------------ MODULE DatasetOps ------------------------------
(***************************************************************************)
(* RGB-D datasets on disk (TUM, ICL, ScanNet): which frames an item holds, *)
(* and what the images, camera, poses and labels of those frames are.      *)
(*                                                                         *)
(* Frame f has the images Col(f, ..), Dep(f, ..) and Lab(f, ..) of 480 x   *)
(* 640 pixels, written to disk by the driver; a pose is an integer         *)
(* quaternion and an integer translation (Geometry).                       *)
(***************************************************************************)
EXTENDS AssocOps
IH == 480
IW == 640
Col(f, u, v, c) == (37 * f + 3 * u + 5 * v + 83 * c) % 256
Dep(f, u, v) == (977 * f + 7 * u + 13 * v) % 60000
Lab(f, u, v) == (f + u + 3 * v) % 41

(* ------------------------------------------------------------- windows *)
Stride(len, dil, stride) == IF stride < 0 THEN len * (dil + 1) ELSE stride
Last(st, len, dil) == st + (len - 1) * (dil + 1)        \* from 0
Window(st, len, dil) == [k \in 1..len |-> st + (k - 1) * (dil + 1)]
\* windows of n frames: 0, stride, 2 stride, ... as long as they fit
NumWindows(n, len, dil, stride) ==
  LET room == n - Last(0, len, dil) IN IF room <= 0 THEN 0 ELSE (room - 1) \div Stride(len, dil, stride) + 1
Windows(n, len, dil, stride) ==
  [k \in 1..NumWindows(n, len, dil, stride) |-> Window((k - 1) * Stride(len, dil, stride), len, dil)]

(* ------------------------------------------------- resizing an image *)
\* bilinear: source coordinate of target pixel x is ((2x+1) W - w) / 2w
RECURSIVE Gcd(_, _)
Gcd(x, y) == IF y = 0 THEN x ELSE Gcd(y, x % y)
Lin(x, w, W) ==
  LET num == (2 * x + 1) * W - w den == 2 * w lo == num \div den r == num % den g == Gcd(den, r)
  IN IF lo < 0 THEN [lo |-> 0, hi |-> 0, r |-> 0, d |-> 1]
     ELSE IF lo >= W - 1 THEN [lo |-> W - 1, hi |-> W - 1, r |-> 0, d |-> 1]
     ELSE [lo |-> lo, hi |-> lo + 1, r |-> r \div g, d |-> den \div g]
\* the colour of the resized image, over X.d * Y.d
ColLin(f, X, Y, c) ==
  (Y.d - Y.r) * ((X.d - X.r) * Col(f, X.lo, Y.lo, c) + X.r * Col(f, X.hi, Y.lo, c))
  + Y.r * ((X.d - X.r) * Col(f, X.lo, Y.hi, c) + X.r * Col(f, X.hi, Y.hi, c))
\* nearest: the source pixel containing the corner of the target pixel; when
\* that falls on a border computed in floating point, either side
Near1(x, w, W) == LET n == (x * W) \div w m == IF n > W - 1 THEN W - 1 ELSE n
                  IN IF (x * W) % w = 0 /\ W % w # 0 /\ w % W # 0 /\ n > 0 THEN {m, n - 1} ELSE {m}

(* -------------------------------------------------- frames of a sequence *)
\* the closest pair of free entries, ties by time; the driver's times have no
\* ties between pairs that compete
RECURSIVE Greedy(_, _, _, _)
Greedy(a, b, tol, m) ==
  LET free == {p \in (1..Len(a)) \X (1..Len(b)) :
                 /\ Close(a, b, 0, tol, p[1], p[2]) /\ \A k \in 1..Len(m) : m[k][1] # p[1] /\ m[k][2] # p[2]}
      \* every pair that is closest for both its entries is taken
      pick == {p \in free : \A q \in free : (q[1] = p[1] \/ q[2] = p[2]) => D(a, b, 0, p[1], p[2]) <= D(a, b, 0, q[1], q[2])}
      RECURSIVE Add(_, _)
      Add(S, x) == IF S = {} THEN x ELSE LET p == CHOOSE p \in S : TRUE IN Add(S \ {p}, Append(x, p))
  IN IF pick = {} THEN m ELSE Greedy(a, b, tol, Add(pick, m))
\* pairs ordered by f
RECURSIVE SortBy(_, _)
SortBy(m, f) ==
  IF m = <<>> THEN <<>>
  ELSE LET i == CHOOSE i \in 1..Len(m) : \A j \in 1..Len(m) : f[m[i][1]] < f[m[j][1]] \/ i = j
       IN <<m[i]>> \o SortBy([k \in 1..(Len(m) - 1) |-> IF k < i THEN m[k] ELSE m[k + 1]], f)
Times(x) == [k \in 1..Len(x) |-> x[k].t]
Slice(x, start, end) ==
  LET e == IF end < 0 THEN Len(x) ELSE Min(end, Len(x)) IN [k \in 1..(IF e > start THEN e - start ELSE 0) |-> x[start + k]]
Tol == 40000    \* 0.02 s in half microseconds
TumFrames(s, q) ==
  LET rgb == Slice(q.rgb, s.start, s.end) load == s.sw.pose \/ s.sw.trans
      m == Greedy(Times(rgb), Times(q.depth), Tol, <<>>)
      byrgb == SortBy(m, Times(rgb))
      dt == [k \in 1..Len(m) |-> q.depth[m[k][2]].t]
      n == SortBy(Greedy(dt, Times(q.gt), Tol, <<>>), dt)
      Frame(k, g) == LET a == rgb[m[k][1]] d == q.depth[m[k][2]] IN
        [c |-> a.f, d |-> d.f, p |-> IF g = 0 THEN [q |-> <<0, 0, 0, 1>>, t |-> <<0, 0, 0>>] ELSE q.gt[g].p, stem |-> a.s,
         ts |-> "rgb " \o a.s \o " depth " \o d.s \o " pose " \o (IF g = 0 THEN "None" ELSE q.gt[g].s)]
  IN IF load THEN [k \in 1..Len(n) |-> Frame(n[k][1], n[k][2])]
     ELSE [k \in 1..Len(byrgb) |-> LET j == CHOOSE j \in 1..Len(m) : m[j] = byrgb[k] IN Frame(j, 0)]
\* the driver gives the frames of the other two as [c, d, p, stem, ts] records;
\* trajectory 0 of ICL lacks its last pose, its last frame is dropped
IclFrames(s, q) == Slice(IF q.drop THEN SubSeq(q.frames, 1, Len(q.frames) - 1) ELSE q.frames, s.start, s.end)
Frames(s, q) == IF s.kind = "tum" THEN TumFrames(s, q) ELSE IF s.kind = "icl" THEN IclFrames(s, q) ELSE Slice(q.frames, s.start, s.end)
\* the items of one sequence, each a sequence of frames
Items(s, q) ==
  LET fr == Frames(s, q) IN
  IF s.kind = "scannet" THEN <<fr>>
  ELSE LET ws == Windows(Len(fr), s.len, s.dil, s.stride) IN [k \in 1..Len(ws) |-> [j \in 1..s.len |-> fr[ws[k][j] + 1]]]

(* ------------------------------------------------------------- accepting *)
Valid(s) ==
  /\ s.len > 0 /\ s.dil >= 0 /\ s.start >= 0 /\ (s.stride > 0 \/ s.stride = -1) /\ (s.end > s.start \/ s.end = -1)
  /\ s.kind = "icl" /\ (s.sw.pose \/ s.sw.trans) => \A k \in 1..Len(s.seqs) : \A j \in 1..Len(IclFrames(s, s.seqs[k])) :
                                    s.start + j <= s.seqs[k].poses
  /\ s.kind = "scannet" => \A k \in 1..Len(s.seqs) : s.start < Len(s.seqs[k].frames) /\ s.end <= Len(s.seqs[k].frames)

(* --------------------------------------------------------------- classes *)
Nyu == <<"unlabeled", "wall", "floor", "cabinet", "bed", "chair", "sofa", "table", "door", "window", "bookshelf", "picture",
  "counter", "blinds", "desk", "shelves", "curtain", "dresser", "pillow", "mirror", "floormat", "clothes", "ceiling", "books",
  "refrigerator", "television", "paper", "towel", "showercurtain", "box", "whiteboard", "person", "nightstand", "toilet", "sink",
  "lamp", "bathtub", "bag", "otherstructure", "otherfurniture", "otherprop">>
Scan == <<"unlabeled", "wall", "floor", "cabinet", "bed", "chair", "sofa", "table", "door", "window", "bookshelf", "picture",
  "counter", "desk", "curtain", "refrigerator", "showercurtain", "toilet", "sink", "bathtub", "otherfurniture">>
Remap(l) == LET S == {k \in 1..Len(Scan) : Scan[k] = Nyu[l + 1]} IN IF S = {} THEN 0 ELSE (CHOOSE k \in S : TRUE) - 1
Class(s, l) == IF s.seg = "scannet20" THEN Remap(l) ELSE l
=============================================================================
