------------------------------ MODULE AlignMech ------------------------------
(***************************************************************************)
(* How the result of an alignment changes with what it is given: sources     *)
(* and targets on a line, the damped accept / reject loop in exact           *)
(* fractions, with derivatives towards moving all the sources ("s"), all     *)
(* the targets ("p") and the initial estimate ("x").  A twin runs from       *)
(* slightly moved inputs: while both take the same decisions, what they      *)
(* differ by is exactly the derivative.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Far, MaxIt, NS, NT, Lim     \* Lim: distance limit in halves, 0: none
VARIABLES src, tgt, dir, X, Y, D, j, jY, same, it
vars == <<src, tgt, dir, X, Y, D, j, jY, same, it>>
(* fractions <<n, d>>, d > 0 *)
Ab(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Gcd(_, _)
Gcd(a, b) == IF b = 0 THEN a ELSE Gcd(b, a % b)
Fr(n, d) == LET g == Gcd(Ab(n), d) IN IF n = 0 THEN <<0, 1>> ELSE <<n \div g, d \div g>>
FAdd(a, b) == LET g == Gcd(a[2], b[2]) IN TLCEval(Fr(a[1] * (b[2] \div g) + b[1] * (a[2] \div g), (a[2] \div g) * b[2]))
FNeg(a) == <<-a[1], a[2]>>
FMul(a, b) == LET g == Gcd(Ab(a[1]), b[2]) h == Gcd(Ab(b[1]), a[2])
              IN TLCEval(Fr((a[1] \div g) * (b[1] \div h), (a[2] \div h) * (b[2] \div g)))
FInv(a) == IF a[1] < 0 THEN <<-a[2], -a[1]>> ELSE <<a[2], a[1]>>
FLt(a, b) == FAdd(b, FNeg(a))[1] > 0
FLe(a, b) == FAdd(b, FNeg(a))[1] >= 0
Num(n) == <<n, 1>>
Eps == <<1, 4>>
Zero == Num(0)
One == Num(1)
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Lam(k) == IF k >= 0 THEN Num(P2(k)) ELSE <<1, P2(-k)>>
RECURSIVE FSum(_)
FSum(s) == IF s = <<>> THEN Zero ELSE FAdd(s[1], FSum(Tail(s)))
Dirs == {"s", "p", "x"}
(* who is nearest to source k at position Z, in a world moved by m towards d   *)
Off(d, m, w) == IF d = w THEN m ELSE Zero
SrcAt(k, Z, d, m) == FAdd(FAdd(Num(src[k]), Off(d, m, "s")), Z)
TgtAt(i, d, m) == FAdd(Num(tgt[i]), Off(d, m, "p"))
Sq(a) == FMul(a, a)
Res(k, i, Z, d, m) == FAdd(TgtAt(i, d, m), FNeg(SrcAt(k, Z, d, m)))
Dist(k, i, Z, d, m) == LET r == Res(k, i, Z, d, m) IN <<Ab(r[1]), r[2]>>
Near(k, Z, d, m) == LET D0 == TLCEval([i \in 1..NT |-> Dist(k, i, Z, d, m)])
                    IN CHOOSE i \in 1..NT : \A q \in 1..NT : FLt(D0[i], D0[q]) \/ (D0[i] = D0[q] /\ i <= q)
\* the nearest target, 0 when it is too far
Nears(Z, d, m) == TLCEval([k \in 1..NS |-> LET i == Near(k, Z, d, m) IN IF Lim = 0 \/ FLt(Dist(k, i, Z, d, m), Fr(Lim, 2)) THEN i ELSE 0])
Reses(c, Z, d, m) == TLCEval([k \in 1..NS |-> IF c[k] = 0 THEN Zero ELSE Res(k, c[k], Z, d, m)])
Hits(c) == Cardinality({k \in 1..NS : c[k] # 0})
S(Z, d, m) == FSum(Reses(Nears(Z, d, m), Z, d, m))
Err(Z, d, m) == LET r == Reses(Nears(Z, d, m), Z, d, m) IN FSum(TLCEval([k \in 1..NS |-> Sq(r[k])]))
Inv(h, k) == FInv(FAdd(Num(h), Lam(k)))
Cand(Z, k, d, m) == FAdd(Z, FMul(S(Z, d, m), Inv(Hits(Nears(Z, d, m)), k)))
Acc(Z, k, d, m) == FLt(Err(Cand(Z, k, d, m), d, m), Err(Z, d, m))
\* derivative of the candidate: every residual changes by (p) - (s) - dX
H == Hits(Nears(X, "x", Zero))
DCand(e, w) == FAdd(e, FMul(FMul(Num(H), FAdd(FAdd(Off(w, One, "p"), FNeg(Off(w, One, "s"))), FNeg(e))), Inv(H, j)))
Init == /\ src \in [1..NS -> 0..Far] /\ tgt \in [1..NT -> (-Far)..Far] /\ dir \in Dirs
        /\ X = Zero /\ Y = (IF dir = "x" THEN Eps ELSE Zero)
        /\ D = [w \in Dirs |-> IF w = "x" THEN One ELSE Zero]
        /\ j = 0 /\ jY = 0 /\ it = 0
        /\ same = (Nears(Zero, "x", Zero) = Nears(IF dir = "x" THEN Eps ELSE Zero, dir, Eps))
Twin == LET a == Acc(Y, jY, dir, Eps)
        IN /\ Y' = IF a THEN Cand(Y, jY, dir, Eps) ELSE Y
           /\ jY' = IF a THEN jY - 1 ELSE jY + 1
           /\ same' = (same /\ a = Acc(X, j, "x", Zero) /\ Nears(X', "x", Zero) = Nears(Y', dir, Eps))
Go == it < MaxIt /\ it' = it + 1 /\ UNCHANGED <<src, tgt, dir>>
Accept == /\ Go /\ Acc(X, j, "x", Zero)
          /\ X' = Cand(X, j, "x", Zero) /\ j' = j - 1
          /\ D' = [w \in Dirs |-> DCand(D[w], w)]
          /\ Twin
Reject == /\ Go /\ ~Acc(X, j, "x", Zero)
          /\ X' = X /\ j' = j + 1 /\ D' = D
          /\ Twin
Next == Accept \/ Reject
\* a rejected step leaves its mark on the derivative
BadReject == /\ Go /\ ~Acc(X, j, "x", Zero)
             /\ X' = X /\ j' = j + 1 /\ D' = [w \in Dirs |-> DCand(D[w], w)]
             /\ Twin
BadNext == Accept \/ BadReject
\* targets do not count
BadCand(e, w) == FAdd(e, FMul(FMul(Num(H), FAdd(FNeg(Off(w, One, "s")), FNeg(e))), Inv(H, j)))
BadAccept == /\ Go /\ Acc(X, j, "x", Zero)
             /\ X' = Cand(X, j, "x", Zero) /\ j' = j - 1
             /\ D' = [w \in Dirs |-> BadCand(D[w], w)]
             /\ Twin
BadNext2 == BadAccept \/ Reject
Secant == same => FAdd(Y, FNeg(X)) = FMul(Eps, D[dir])
\* moving sources and targets together changes nothing; moving the targets and
\* the initial estimate together moves the result along
Together == FAdd(D["s"], D["p"]) = Zero /\ FAdd(D["p"], D["x"]) = One
Forgets == FLe(Zero, D["x"]) /\ FLe(D["x"], One) /\ (it > 0 /\ j < 0 => FLt(D["x"], One))
\* every acceptance divides the influence of the estimate
Product == (j + it = 0 /\ it > 0) => FLe(D["x"], FMul(Lam(0), Inv(1, 0)))
=============================================================================
