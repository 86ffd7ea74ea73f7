------------------------------ MODULE DatasetMech ------------------------------
(* Sliding windows over every small sequence: starting at 0 and moving on by   *)
(* the stride as long as the window fits.  The closed form of DatasetOps and   *)
(* the walk agree.                                                             *)
EXTENDS DatasetOps, Json, TLC
CONSTANTS MaxN, MaxLen, MaxDil
VARIABLES n, len, dil, stride, at, out, done
vars == <<n, len, dil, stride, at, out, done>>
Init == /\ n \in 0..MaxN /\ len \in 1..MaxLen /\ dil \in 0..MaxDil /\ stride \in {-1} \cup (1..(MaxN + 1))
        /\ at = 0 /\ out = <<>> /\ done = FALSE
Fits == Last(at, len, dil) < n
Take == ~done /\ Fits /\ out' = Append(out, Window(at, len, dil)) /\ at' = at + Stride(len, dil, stride) /\ UNCHANGED <<n, len, dil, stride, done>>
Stop == ~done /\ ~Fits /\ done' = TRUE /\ UNCHANGED <<n, len, dil, stride, at, out>>
Next == Take \/ Stop
Inside == \A k \in 1..Len(out) : \A j \in 1..len : out[k][j] >= 0 /\ out[k][j] < n
Closed == done => out = Windows(n, len, dil, stride)
\* without stride and dilation the windows are disjoint and leave out less than one window
Partition == (done /\ stride = -1 /\ dil = 0) =>
  /\ \A k, l \in 1..Len(out) : k # l => {out[k][j] : j \in 1..len} \cap {out[l][j] : j \in 1..len} = {}
  /\ n - len * Len(out) < len
Emit == (~done /\ at = 0 /\ out = <<>>) => PrintT(<<"CASE", ToJson([n |-> n, len |-> len, dil |-> dil, stride |-> stride])>>)
\* negative controls: a window that starts inside but ends past the last frame; a stride that forgets the dilation
BadFits == at < n
BadTake == ~done /\ BadFits /\ out' = Append(out, Window(at, len, dil)) /\ at' = at + Stride(len, dil, stride) /\ UNCHANGED <<n, len, dil, stride, done>>
BadNext == BadTake
BadTake2 == ~done /\ Fits /\ out' = Append(out, Window(at, len, dil)) /\ at' = at + (IF stride < 0 THEN len ELSE stride) /\ UNCHANGED <<n, len, dil, stride, done>>
BadNext2 == BadTake2 \/ Stop
\* laws of the class tables and of resizing, over all labels and small sizes
Laws ==
  /\ \A l \in 0..40 : Remap(l) \in 0..20 /\ (Remap(l) # 0 => Scan[Remap(l) + 1] = Nyu[l + 1])
  /\ \A k \in 0..20 : Cardinality({l \in 0..40 : Remap(l) = k}) = IF k = 0 THEN 21 ELSE 1
  /\ \A w \in 1..12 : \A x \in 0..(w - 1) : LET X == Lin(x, w, 12) IN X.lo \in 0..11 /\ X.hi \in {X.lo, X.lo + 1} /\ X.hi <= 11 /\ X.r < X.d
  /\ \A x \in 0..11 : Lin(x, 12, 12) = [lo |-> x, hi |-> IF x = 11 THEN 11 ELSE x + 1, r |-> 0, d |-> 1] /\ Near1(x, 12, 12) = {x}
ASSUME Laws
=============================================================================
