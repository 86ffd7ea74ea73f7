-------------------------------- MODULE IcpOps --------------------------------
(***************************************************************************)
(* Point-to-plane alignment: the linear system, the damped solve, the       *)
(* accept / reject loop with its damping schedule, and the gated variant.    *)
(***************************************************************************)
EXTENDS Geometry

SgnX(a) == IF a < 0 THEN -1 ELSE IF a = 0 THEN 0 ELSE 1
RECURSIVE SumF(_)
SumF(s) == IF s = <<>> THEN 0 ELSE s[1] + SumF(Tail(s))
RECURSIVE MinOf(_)
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
(* ------------------------------------------------- the linear system      *)
(* integer sources S, targets P with normals N; th2 = (2 limit)^2, 0: none  *)
D2(a, b) == Dot3([k \in 1..3 |-> a[k] - b[k]], [k \in 1..3 |-> a[k] - b[k]])
NearestSet(p, P) == LET m == MinOf({D2(p, P[i]) : i \in 1..Len(P)}) IN {i \in 1..Len(P) : D2(p, P[i]) = m}
MinD(p, P) == MinOf({D2(p, P[i]) : i \in 1..Len(P)})
\* "in", "out", or "edge" exactly on the limit
KeepSide(p, P, th2) == IF th2 = 0 THEN "in" ELSE LET d == 4 * MinD(p, P) IN IF d < th2 THEN "in" ELSE IF d > th2 THEN "out" ELSE "edge"
RowA(s, n) == n \o Cross3(s, n)
RowB(s, d, n) == Dot3(n, [k \in 1..3 |-> d[k] - s[k]])
RECURSIVE Rows(_, _, _, _, _, _, _)
\* the rows match the sources in order; an edge source may be kept or dropped
Rows(S, P, N, th2, j, idx, ab) ==
  IF j > Len(S) THEN idx = <<>>
  ELSE LET side == KeepSide(S[j], P, th2)
           take == /\ idx # <<>>
                   /\ idx[1] + 1 \in NearestSet(S[j], P)
                   /\ ab[1][1] = RowA(S[j], N[idx[1] + 1]) /\ ab[1][2] = RowB(S[j], P[idx[1] + 1], N[idx[1] + 1])
                   /\ Rows(S, P, N, th2, j + 1, Tail(idx), Tail(ab))
           drop == Rows(S, P, N, th2, j + 1, idx, ab)
       IN IF side = "in" THEN take ELSE IF side = "out" THEN drop ELSE take \/ drop
SystemOk(S, P, N, th2, A, b, idx) ==
  /\ Len(A) = Len(idx) /\ Len(b) = Len(idx)
  /\ Rows(S, P, N, th2, 1, idx, [k \in 1..Len(idx) |-> <<A[k], b[k]>>])

(* -------------------------------------------------------- damped solve    *)
\* (A'A + (dn/dd) I) x = A'b; x observed with SC units
AtA(A, i, j) == SumF([k \in 1..Len(A) |-> A[k][i] * A[k][j]])
AtB(A, b, i) == SumF([k \in 1..Len(A) |-> A[k][i] * b[k]])
SolveOk(A, b, dn, dd, x, tol, cols) ==
  /\ Len(x) = cols
  /\ \A i \in 1..cols :
       LET row == [j \in 1..cols |-> dd * AtA(A, i, j) + (IF i = j THEN dn ELSE 0)]
           lhs == SumF([j \in 1..cols |-> row[j] * x[j]])
           mag == SumF([j \in 1..cols |-> Abs(row[j])])
       IN Abs(lhs - dd * AtB(A, b, i) * SC) <= tol * mag + 2

(* ---------------------------------------------------------- the loop      *)
(* j: exponent of the damping (damping = d0 2^j).  A step from a position    *)
(* with error e to a candidate with error ce is taken exactly when ce < e.   *)
Accepts(e, ce) == ce < e
NextJ(j, acc) == IF acc THEN j - 1 ELSE j + 1
\* errors come scaled and rounded: within the slack either outcome is possible
May(e, ce, acc) == LET slack == 4 + (IF e > ce THEN e ELSE ce) \div 20000 IN
                   IF acc THEN ce < e + slack ELSE ce > e - slack
MatClose(a, b, tol) == \A i \in 1..4 : \A k \in 1..4 : Abs(a[i][k] - b[i][k]) <= tol
\* it: [cur, nxt, cand: sequence of [j, T, e, ce, ok]]: possible exponents after it
AfterStep(J, it) ==
  {NextJ(c.j, TRUE) : c \in {it.cand[k] : k \in {k \in 1..Len(it.cand) :
       it.cand[k].j \in J /\ (~it.cand[k].ok \/ (May(it.cand[k].e, it.cand[k].ce, TRUE) /\ MatClose(it.nxt, it.cand[k].T, it.cand[k].tol)))}}}
  \cup
  {NextJ(c.j, FALSE) : c \in {it.cand[k] : k \in {k \in 1..Len(it.cand) :
       it.cand[k].j \in J /\ (~it.cand[k].ok \/ (May(it.cand[k].e, it.cand[k].ce, FALSE) /\ MatClose(it.nxt, it.cur, 1)))}}}
RECURSIVE LoopFrom(_, _, _)
\* 0 when every iteration has an explanation, else the first that has none
LoopFrom(J, its, k) ==
  IF k > Len(its) THEN 0
  ELSE LET K == AfterStep(J, its[k]) IN IF K = {} THEN k ELSE LoopFrom(K, its, k + 1)
LoopOk(its) == LoopFrom({0}, its, 1) = 0

(* ------------------------------------------- movement along one axis      *)
(* sources on the x axis, targets with normals +-x: the step is a pure      *)
(* translation S / (h + damping).  Positions in 1/1024; x2: th2 as above.   *)
U == 1024
Pos(s, X) == s * U + X
DT(s, X, t) == LET e == t.x * U - Pos(s, X) IN e * e + t.r2 * U * U
\* targets that may be nearest, allowing for rounding of X
CandT(s, X, tg) ==
  LET m == MinOf({DT(s, X, tg[i]) : i \in 1..Len(tg)})
  IN {i \in 1..Len(tg) : DT(s, X, tg[i]) <= m + 64 * U}
Sides(s, X, t, th2) == IF th2 = 0 THEN "in" ELSE LET d == DT(s, X, t) l == th2 * (U \div 4) * U
                                                 IN IF d < l - 64 * U THEN "in" ELSE IF d > l + 64 * U THEN "out" ELSE "near"
\* decided: all possible nearest targets agree on position and keeping
Decided(s, X, tg, th2) ==
  LET C == CandT(s, X, tg) IN /\ Cardinality({tg[i].x : i \in C}) = 1
                              /\ Cardinality({Sides(s, X, tg[i], th2) : i \in C}) = 1
                              /\ \A i \in C : Sides(s, X, tg[i], th2) # "near"
AllDecided(ss, X, tg, th2) == \A j \in 1..Len(ss) : Decided(ss[j], X, tg, th2)
Near1(s, X, tg) == CHOOSE i \in CandT(s, X, tg) : TRUE
Kept(ss, X, tg, th2) == SelectSeq(ss, LAMBDA s : Sides(s, X, tg[Near1(s, X, tg)], th2) = "in")
Res(s, X, tg) == tg[Near1(s, X, tg)].x * U - Pos(s, X)
SumRes(ks, X, tg) == SumF([k \in 1..Len(ks) |-> Res(ks[k], X, tg)])
Sq4(e) == LET q == (IF e < 0 THEN -e ELSE e) \div 4 IN q * q
Err1(ks, X, tg) == SumF([k \in 1..Len(ks) |-> Sq4(Res(ks[k], X, tg))])      \* 65536 units
RECURSIVE P2(_)
P2(k) == IF k <= 0 THEN 1 ELSE 2 * P2(k - 1)
\* S / (h + (dn/dd) 2^j), rounded
Ratio(num, den) == LET n == Abs(num) q == n \div den IN IF num < 0 THEN -q ELSE q
Step1(S, h, dn, dd, j) == IF j >= 0 THEN Ratio(S * dd, h * dd + dn * P2(j)) ELSE Ratio(S * dd * P2(-j), h * dd * P2(-j) + dn)
Slack1(ks, X, tg, Y) == LET f(Z) == SumF([k \in 1..Len(ks) |-> Abs(Res(ks[k], Z, tg)) \div 4]) IN 8 + 4 * (f(X) + f(Y))
\* possible exponents after moving from X to Y; {99}: undecidable from here
After1(J, sc, X, Y, first) ==
  IF 99 \in J \/ ~AllDecided(sc.s, X, sc.t, sc.th2) THEN {99}
  ELSE LET ks == Kept(sc.s, X, sc.t, sc.th2) S == SumRes(ks, X, sc.t) h == Len(ks) e == Err1(ks, X, sc.t)
       IN UNION {LET C == X + Step1(S, h, sc.dn, sc.dd, j)
                 IN IF ~AllDecided(sc.s, C, sc.t, sc.th2) THEN {99}
                    ELSE LET kc == Kept(sc.s, C, sc.t, sc.th2) ce == Err1(kc, C, sc.t)
                             \* a first step that divides exactly is compared exactly
                             exact == first /\ j = 0 /\ S # 0 /\ (S * sc.dd) % (h * sc.dd + sc.dn) = 0 /\ C % 4 = 0
                             sl == IF exact THEN 0 ELSE Slack1(ks, X, sc.t, X) + Slack1(kc, C, sc.t, C)
                         IN (IF (IF exact THEN ce < e ELSE ce < e + sl) /\ Abs(Y - C) <= 4 /\ h > 0 THEN {j - 1} ELSE {}) \cup
                            (IF (IF exact THEN ce >= e ELSE ce > e - sl) /\ Abs(Y - X) <= 4 THEN {j + 1} ELSE {}) : j \in J}
RECURSIVE Run1(_, _, _)
Run1(J, sc, k) == IF k > Len(sc.X) - 1 THEN 0
                  ELSE LET K == After1(J, sc, sc.X[k], sc.X[k + 1], k = 1) IN IF K = {} THEN k ELSE Run1(K, sc, k + 1)
\* the reported indices: each kept source's nearest target at the position
\* where the last iteration started, in order
IdxOk(sc, X, idx) ==
  AllDecided(sc.s, X, sc.t, sc.th2) =>
    LET ks == Kept(sc.s, X, sc.t, sc.th2)
    IN Len(idx) = Len(ks) /\ \A k \in 1..Len(ks) : idx[k] + 1 \in CandT(ks[k], X, sc.t)

(* nearest targets of general clouds (coordinates in 1/1024) *)
D2v(a, b) == SumF([k \in 1..3 |-> (a[k] - b[k]) * (a[k] - b[k])])
NSide(p, P, th) ==  \* th in 1/1024, 0: none
  IF th = 0 THEN "in" ELSE LET d == MinOf({D2v(p, P[i]) : i \in 1..Len(P)})
                           IN IF d < (th - 4) * (th - 4) THEN "in" ELSE IF d > (th + 4) * (th + 4) THEN "out" ELSE "near"
NearestIdx(S, P, th, idx) ==
  LET sides == [j \in 1..Len(S) |-> NSide(S[j], P, th)]
      kept == SelectSeq([j \in 1..Len(S) |-> j], LAMBDA j : sides[j] = "in")
  IN (\A j \in 1..Len(S) : sides[j] # "near") =>
       /\ Len(idx) = Len(kept)
       /\ \A k \in 1..Len(kept) :
            /\ idx[k] + 1 \in 1..Len(P)
            /\ D2v(S[kept[k]], P[idx[k] + 1]) <= MinOf({D2v(S[kept[k]], P[i]) : i \in 1..Len(P)}) + 64 * 1024

(* ------------------------------------------------------ gated variant     *)
(* 2^x by table; x in 1/256, results in 1/4096                              *)
Tbl == <<4096, 4277, 4467, 4664, 4871, 5087, 5312, 5547, 5793, 6049, 6317, 6597, 6889, 7194, 7512, 7845, 8192>>
PowF(f) == LET i == f \div 16 r == f % 16 IN Tbl[i + 1] + ((Tbl[i + 2] - Tbl[i + 1]) * r) \div 16
\* 1024 / (1 + 2^-x)
GatePos(x) == LET n == x \div 256 IN IF n > 12 THEN 1024 ELSE (1024 * 1024) \div (1024 + (1024 * 4096) \div (PowF(x % 256) * P2(n)))
Gate(x) == IF x >= 0 THEN GatePos(x) ELSE 1024 - GatePos(-x)
\* 1024 * 2^-y, y >= 0 in 1/256
Pow2Neg(y) == LET n == y \div 256 f == y % 256 v == IF f = 0 THEN 1024 ELSE PowF(256 - f) \div 8
              IN IF n > 20 THEN 0 ELSE v \div P2(n)
RECURSIVE Isqrt(_, _)
Isqrt(v, g) == LET h == (g + v \div g) \div 2 IN IF h >= g THEN g ELSE Isqrt(v, h)
\* (1 + 2^-y)^(-1/nu)
Sig(y, nu) == IF nu = 1 THEN Gate(y)
              ELSE IF nu = 2 THEN (IF y < -1536 THEN Pow2Neg((-y) \div 2)
                                   ELSE LET g == IF y >= 0 THEN Gate(y) * 1024
                                                 ELSE 1073741823 \div (1024 + (PowF((-y) % 256) * P2((-y) \div 256)) \div 4)
                                        IN IF g = 0 THEN 0 ELSE Isqrt(g, g))
              ELSE Pow2Neg(((IF y < 0 THEN -y ELSE 0) + 77) \div nu)
\* error differences in 1/256, clamped to +-70, times c / 4
Clamp70(d) == IF d > 17920 THEN 17920 ELSE IF d < -17920 THEN -17920 ELSE d
\* damping in 1/256: d (lmin + (lmax - lmin) g), lmin = 1 / lmax
NextDamp(d, g, l) == (d * (1024 + (l * l - 1) * g)) \div (l * 1024)
GradOk(sc) ==
  LET RECURSIVE Go(_, _)
      Go(k, d) ==
        IF k > Len(sc.X) - 1 THEN 0
        ELSE LET X == sc.X[k] Y == sc.X[k + 1]
             IN IF d > 20000 \/ ~AllDecided(sc.s, X, sc.t, sc.th2) THEN 0
                ELSE LET ks == Kept(sc.s, X, sc.t, sc.th2) S == SumRes(ks, X, sc.t) h == Len(ks)
                         full == IF 256 * h + d = 0 THEN 0 ELSE Ratio(S * 256, 256 * h + d)
                         C == X + full
                     IN IF ~AllDecided(sc.s, C, sc.t, sc.th2) THEN 0
                        ELSE LET kc == Kept(sc.s, C, sc.t, sc.th2)
                                 dif == Clamp70((Err1(kc, C, sc.t) - Err1(ks, X, sc.t)) \div 256)
                                 s == Sig((dif * sc.c2) \div 4, sc.nu)
                                 want == X + Ratio(full * s, 1024)
                             IN IF Abs(Y - want) > 6 + Abs(full) \div 50 THEN k
                                ELSE Go(k + 1, NextDamp(d, Gate((dif * sc.c1) \div 4), sc.l))
  IN Go(1, sc.d0)
\* general gated steps: the observed transform lies where the gate puts it
\* between the candidates at i / 16 of the full step (damping is constant)
GridOk(it) ==
  ~it.ok \/
  LET s == Sig((Clamp70(it.dif) * it.c2) \div 4, it.nu)
      i == IF s >= 1024 THEN 15 ELSE s \div 64 r == s - 64 * i
  IN \A a \in 1..4 : \A b \in 1..4 :
       LET p == it.cand[i + 1][a][b] q == it.cand[i + 2][a][b] e == it.cand[17][a][b] z == it.cand[1][a][b]
       IN Abs(it.nxt[a][b] - (p + Ratio((q - p) * r, 64))) <= 3 + it.tol + Abs(e - z) \div 100
=============================================================================
