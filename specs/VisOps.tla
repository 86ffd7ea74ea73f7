-------------------------------- MODULE VisOps --------------------------------
(***************************************************************************)
(* What a viewer is handed: points with their colours and normals, and     *)
(* frames of colour and depth images.                                      *)
(* Colours are given raw in 1/256; the canonical colour is in 1/65280 of   *)
(* full brightness (65280 = 255 * 256).  Depths are given in 1/64.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
\* colours above 1.1 mean the range 0-255
Bytes(raws) == \E k \in 1..Len(raws) : \E j \in 1..Len(raws[k]) : raws[k][j] > 281
Canon(raw, bytes) == Clamp(IF bytes THEN raw ELSE 255 * raw, 0, 65280)
\* how many of n points are shown under the limit k (-1: no limit)
Shown(n, k) == IF k < 0 \/ n <= k THEN n ELSE k
Distinct(s) == \A a, b \in 1..Len(s) : a # b => s[a] # s[b]
Places(points, out) == [a \in 1..Len(out) |-> IF \E i \in 1..Len(points) : points[i] = out[a]
                                              THEN CHOOSE i \in 1..Len(points) : points[i] = out[a] ELSE 0]
(* display scale of depth: the largest power of ten that keeps the maximum within 255 *)
Pow10(n) == IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE IF n = 3 THEN 1000 ELSE IF n = 4 THEN 10000 ELSE 100000
Exps == {e - 4 : e \in 0..8}
Fits255(m, e) == IF e >= 0 THEN m <= 16320 \div Pow10(e) ELSE m <= 16320 * Pow10(0 - e)
ExpOf(m) == CHOOSE e \in Exps : Fits255(m, e) /\ ~Fits255(m, e + 1)
Level(d, e) == IF e >= 0 THEN (d * Pow10(e)) \div 64 ELSE (d \div Pow10(0 - e)) \div 64
ScaleText(e) == CASE e = 0 -> "x1" [] e = 1 -> "x10" [] e = 2 -> "x100" [] e = 3 -> "x1000" [] e = 4 -> "x10000"
                  [] e = -1 -> "x0.1" [] e = -2 -> "x0.01" [] e = -3 -> "x0.001" [] e = -4 -> "x0.0001"
=============================================================================
