----------------------------- MODULE TwistMech -----------------------------
(***************************************************************************)
(* A motion T with the derivative D of T along some parameter, put through   *)
(* any sequence of composing, inverting and taking relative motions, with    *)
(* the product rule.  Checked: the derivative always stays that of a rigid   *)
(* motion (D = T x^ for a twist x), rows and all, and taking the motion      *)
(* back undoes the derivative as well.                                       *)
(***************************************************************************)
EXTENDS GeoDiff
CONSTANTS Depth
Gens == {<<<<0, -1, 0, 1>>, <<1, 0, 0, 0>>, <<0, 0, 1, 2>>, <<0, 0, 0, 1>>>>,
         <<<<0, 0, 1, 0>>, <<1, 0, 0, -1>>, <<0, 1, 0, 0>>, <<0, 0, 0, 1>>>>,
         <<<<1, 0, 0, 0>>, <<0, -1, 0, 1>>, <<0, 0, -1, 0>>, <<0, 0, 0, 1>>>>}
VARIABLES T, D, n
m(P, Q) == MMul(P, Q, 1)
G6(k) == Hat([j \in 1..6 |-> IF j = k THEN 1 ELSE 0])
Init == /\ T \in Gens /\ n = 0
        /\ \E k \in 1..6 : D = m(T, G6(k))
Left == \E C \in Gens : T' = m(C, T) /\ D' = m(C, D)
Right == \E C \in Gens : T' = m(T, C) /\ D' = m(D, C)
Invert == T' = RInv(T) /\ D' = MNeg(m(m(RInv(T), D), RInv(T)))
Rel == \E C \in Gens : T' = m(RInv(T), C) /\ D' = MNeg(m(m(m(RInv(T), D), RInv(T)), C))
Square == T' = m(T, T) /\ D' = MAdd(m(D, T), m(T, D))
DoLeft == n < Depth /\ n' = n + 1 /\ Left
DoRight == n < Depth /\ n' = n + 1 /\ Right
DoInvert == n < Depth /\ n' = n + 1 /\ Invert
DoRel == n < Depth /\ n' = n + 1 /\ Rel
DoSquare == n < Depth /\ n' = n + 1 /\ Square
Next == DoLeft \/ DoRight \/ DoInvert \/ DoRel \/ DoSquare
\* forgetting the rotation part of the derivative when inverting
BadInvert == n < Depth /\ n' = n + 1 /\ T' = RInv(T) /\ D' = MNeg(m(RInv(T), D))
BadNext == Next \/ BadInvert
Twist == m(RInv(T), D)
Rigid == /\ \A i \in 1..3 : \A j \in 1..3 : Twist[i][j] = -Twist[j][i]
         /\ \A j \in D4 : D[4][j] = 0 /\ Twist[4][j] = 0
TwoSided == m(T, RInv(T)) = Id4(1) /\ m(RInv(T), T) = Id4(1)
\* T T^-1 does not move
Undone == MAdd(m(D, RInv(T)), m(T, MNeg(m(m(RInv(T), D), RInv(T))))) = Zero4
Bounded == \A i \in D4 : \A j \in D4 : Abs(T[i][j]) < 1000 /\ Abs(D[i][j]) < 1000
\* the closed forms the judge uses agree with the product rule
Forms == \A k \in 1..6 : \A B \in Gens :
  LET X == m(T, G6(k))
  IN /\ MotionD("inverse", T, B, "x", k) = MNeg(m(m(RInv(T), X), RInv(T)))
     /\ MotionD("compose", T, B, "x", k) = m(X, B)
     /\ MotionD("compose", T, B, "y", k) = m(T, m(B, G6(k)))
     /\ MotionD("relative", T, B, "x", k) = MNeg(m(m(m(RInv(T), X), RInv(T)), B))
     /\ MotionD("relative", T, B, "y", k) = m(RInv(T), m(B, G6(k)))
=============================================================================
