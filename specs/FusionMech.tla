------------------------------ MODULE FusionMech ------------------------------
(***************************************************************************)
(* History of a fused map over a few frames.  Every pixel of a small image *)
(* sees nothing, the near surface or the far surface; a map point sits on   *)
(* one of the two surfaces behind one pixel.  total is the confidence of    *)
(* all measurements so far.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pixels, MaxFrames, Emit
VARIABLES map, total, hist
vars == <<map, total, hist>>
Surf == {"near", "far"}
Frames == [Pixels -> {"none"} \cup Surf]
Valid(f) == {p \in Pixels : f[p] # "none"}
\* map: set of [pix, surf, cc]
Init == map = {} /\ total = 0 /\ hist = <<>>
Cands(m, f, p) == {x \in m : x.pix = p /\ x.surf = f[p]}
Best(C) == CHOOSE x \in C : \A y \in C : y.cc <= x.cc
Step(f) ==
  LET matched == {p \in Valid(f) : Cands(map, f, p) # {}}
      used == {Best(Cands(map, f, p)) : p \in matched}
  IN /\ map' = (map \ used) \cup {[x EXCEPT !.cc = @ + 1] : x \in used}
               \cup {[pix |-> p, surf |-> f[p], cc |-> 1] : p \in Valid(f) \ matched}
     /\ total' = total + Cardinality(Valid(f))
     /\ hist' = Append(hist, f)
Fuse == \E f \in Frames : Len(hist) < MaxFrames /\ Step(f)
              /\ ((Emit /\ Len(hist') = MaxFrames) => PrintT(<<"HIST", ToJson(hist')>>))
Next == Fuse
RECURSIVE SumCC(_)
SumCC(m) == IF m = {} THEN 0 ELSE LET x == CHOOSE y \in m : TRUE IN x.cc + SumCC(m \ {x})
Accounted == SumCC(map) = total
\* at most one point per surface and pixel, as every repeat is matched
NoDuplicates == \A x, y \in map : (x.pix = y.pix /\ x.surf = y.surf) => x = y
Count == Cardinality(map) = Cardinality({<<p, hist[i][p]>> : <<p, i>> \in {q \in Pixels \X (1..Len(hist)) : hist[q[2]][q[1]] # "none"}})
\* negative controls: matched pixels also appended; missing pixels appended
BadStep(f) == /\ Len(hist) < MaxFrames
              /\ map' = map \cup {[pix |-> p, surf |-> f[p], cc |-> 1] : p \in Valid(f)}
              /\ total' = total + Cardinality(Valid(f)) /\ hist' = Append(hist, f)
BadNext == \E f \in Frames : BadStep(f)
BadStep2(f) == /\ Len(hist) < MaxFrames
               /\ map' = map \cup {[pix |-> p, surf |-> "near", cc |-> 1] : p \in Pixels \ Valid(f)}
               /\ total' = total /\ hist' = Append(hist, f)
BadNext2 == \E f \in Frames : BadStep2(f)
=============================================================================
