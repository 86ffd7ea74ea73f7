------------------------------- MODULE IcpDiff -------------------------------
(***************************************************************************)
(* Derivatives of point-to-plane alignment with respect to the coordinates   *)
(* of the sources ("s"), of the targets ("p"), of the normals ("n") and the   *)
(* initial motion ("x", along its group).  Integer clouds; tangents and       *)
(* intermediate values in 1/U.                                                *)
(***************************************************************************)
EXTENDS GeoDiff
I == INSTANCE IcpOps
SumF(s) == I!SumF(s)
K3 == 1..3
K6 == 1..6
V3k(F(_)) == <<F(1), F(2), F(3)>>
V6k(F(_)) == <<F(1), F(2), F(3), F(4), F(5), F(6)>>
D6(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3] + a[4] * b[4] + a[5] * b[5] + a[6] * b[6]
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3]) + Abs(a[4]) + Abs(a[5]) + Abs(a[6])
Unit3(k) == <<IF k = 1 THEN 1 ELSE 0, IF k = 2 THEN 1 ELSE 0, IF k = 3 THEN 1 ELSE 0>>
Key(w, j, k) == w \o ToString(j) \o "." \o ToString(k)
XKey(k) == "x" \o ToString(k)
Sub3(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Act(M, p, w) == V3k(LAMBDA i : M[i][1] * p[1] + M[i][2] * p[2] + M[i][3] * p[3] + M[i][4] * w)
Gen1(k) == Hat(<<IF k = 1 THEN 1 ELSE 0, IF k = 2 THEN 1 ELSE 0, IF k = 3 THEN 1 ELSE 0, IF k = 4 THEN 1 ELSE 0, IF k = 5 THEN 1 ELSE 0, IF k = 6 THEN 1 ELSE 0>>)

(* ------------------------------------------------------------------ system *)
\* sources in play, by index, with their target: only where nothing is a tie
Sure(S, P, th2) == \A j \in 1..Len(S) : Cardinality(I!NearestSet(S[j], P)) = 1 /\ I!KeepSide(S[j], P, th2) # "edge"
KeptIdx(S, P, th2) == SelectSeq([j \in 1..Len(S) |-> j], LAMBDA j : I!KeepSide(S[j], P, th2) = "in")
NearIdx(S, P, j) == CHOOSE i \in I!NearestSet(S[j], P) : TRUE
\* tangents of row (a, b) for source j and target i; ds: [key -> direction of the source]
RowKeys(ds, i) == DOMAIN ds \cup {Key("p", i, k) : k \in K3} \cup {Key("n", i, k) : k \in K3}
RowD(s, d, n, ds, i, key) ==
  IF key \in DOMAIN ds THEN LET v == ds[key] IN [a |-> <<0, 0, 0>> \o Cross(v, n), b |-> -Dot(n, v)]
  ELSE LET k == CHOOSE k \in K3 : key = Key("p", i, k) \/ key = Key("n", i, k)
       IN IF key = Key("p", i, k) THEN [a |-> <<0, 0, 0, 0, 0, 0>>, b |-> n[k]]
          ELSE [a |-> Unit3(k) \o Cross(s, Unit3(k)), b |-> d[k] - s[k]]
OwnD(j) == [key \in {Key("s", j, k) : k \in K3} |-> Unit3(CHOOSE k \in K3 : key = Key("s", j, k))]
\* observed tangents JA, Jb (1/U) of the rows of the sources in play
SystemD(S, P, N, th2, JA, Jb) ==
  LET ks == KeptIdx(S, P, th2)
  IN /\ Len(JA) = Len(ks) /\ Len(Jb) = Len(ks)
     /\ \A r \in 1..Len(ks) :
          LET j == ks[r] i == NearIdx(S, P, j) ds == OwnD(j)
              rd == [key \in RowKeys(ds, i) |-> RowD(S[j], P[i], N[i], ds, i, key)]
          IN /\ DEq(Jb[r], [key \in DOMAIN rd |-> U * rd[key].b], 1)
             /\ \A c \in K6 : DEq(JA[r][c], [key \in DOMAIN rd |-> U * rd[key].a[c]], 1)

(* ------------------------------------------------------- damped solution   *)
\* (A'A + dn/dd) x = A'b: how x (1/U) changes with an entry of A, of b, and with the damping
SolveD(A, b, dn, dd, x, J) ==
  LET m == Len(A) c == Len(A[1])
      M == TLCEval([p \in 1..c |-> [q \in 1..c |-> dd * SumF([r \in 1..m |-> A[r][p] * A[r][q]]) + (IF p = q THEN dn ELSE 0)]])
      w == TLCEval([r \in 1..m |-> U * b[r] - SumF([q \in 1..c |-> A[r][q] * x[q]])])
      lhs(key) == [p \in 1..c |-> SumF([q \in 1..c |-> M[p][q] * G(J[q], key)])]
      mag(p) == SumF([q \in 1..c |-> Abs(M[p][q])])
      \* right-hand sides
      ra(r, q, p) == dd * ((IF p = q THEN w[r] ELSE 0) - A[r][p] * x[q])
      tola(r, q, p) == dd * ((IF p = q THEN SumF([k \in 1..c |-> Abs(A[r][k])]) ELSE 0) + Abs(A[r][p])) + 2 * mag(p) + dd
  IN /\ \A r \in 1..m : \A q \in 1..c : \A p \in 1..c : Abs(lhs(Key("a", r, q))[p] - ra(r, q, p)) <= tola(r, q, p)
     /\ \A r \in 1..m : \A p \in 1..c : Abs(lhs("b" \o ToString(r))[p] - dd * U * A[r][p]) <= 2 * mag(p) + dd
     /\ \A p \in 1..c : Abs(lhs("l")[p] + dd * x[p]) <= 2 * mag(p) + 2 * dd

(* ------------------------------------------------------------- one step    *)
\* sc: s, p, n, T (initial), th2, dn, dd; xi, dxi[key]: the step (1/U) and its tangents
Moved(sc) == TLCEval([j \in 1..Len(sc.s) |-> Act(sc.T, sc.s[j], 1)])
\* directions in which moved source j goes
SrcD(sc, j) == [key \in {Key("s", j, k) : k \in K3} \cup {XKey(k) : k \in K6} |->
                 IF key \in {XKey(k) : k \in K6} THEN LET k == CHOOSE k \in K6 : key = XKey(k) IN Act(sc.T, Act(Gen1(k), sc.s[j], 1), 0)
                 ELSE LET k == CHOOSE k \in K3 : key = Key("s", j, k) IN Act(sc.T, Unit3(k), 0)]
AllKeys(sc) == {Key("s", j, k) : j \in 1..Len(sc.s), k \in K3} \cup {Key(w, i, k) : w \in {"p", "n"}, i \in 1..Len(sc.p), k \in K3} \cup {XKey(k) : k \in K6}
\* the step solves the damped system, and its tangents follow
StepOk(sc, S0, xi, dxi) ==
  LET ks == KeptIdx(S0, sc.p, sc.th2) m == Len(ks)
      ix == TLCEval([r \in 1..m |-> NearIdx(S0, sc.p, ks[r])])
      A == TLCEval([r \in 1..m |-> I!RowA(S0[ks[r]], sc.n[ix[r]])])
      b == TLCEval([r \in 1..m |-> I!RowB(S0[ks[r]], sc.p[ix[r]], sc.n[ix[r]])])
      M == TLCEval([p \in K6 |-> [q \in K6 |-> sc.dd * SumF([r \in 1..m |-> A[r][p] * A[r][q]]) + (IF p = q THEN sc.dn ELSE 0)]])
      w == TLCEval([r \in 1..m |-> U * b[r] - D6(A[r], xi)])
      mag == TLCEval([p \in K6 |-> L1(M[p])])
      ds == TLCEval([r \in 1..m |-> SrcD(sc, ks[r])])
  IN /\ \A p \in K6 : Abs(D6(M[p], xi) - sc.dd * U * SumF([r \in 1..m |-> A[r][p] * b[r]])) <= 2 * mag[p] + 2
     /\ \A key \in AllKeys(sc) :
          LET y == V6k(LAMBDA k : G(dxi[k], key))
              rel == SelectSeq([r \in 1..m |-> r], LAMBDA r : key \in RowKeys(ds[r], ix[r]))
              rd == TLCEval([q \in 1..Len(rel) |-> LET r == rel[q] IN RowD(S0[ks[r]], sc.p[ix[r]], sc.n[ix[r]], ds[r], ix[r], key)])
          IN \A p \in K6 :
               Abs(D6(M[p], y) - sc.dd * SumF([q \in 1..Len(rel) |-> LET r == rel[q] IN rd[q].a[p] * w[r] + A[r][p] * (U * rd[q].b - D6(rd[q].a, xi))]))
                 <= 3 * mag[p] + sc.dd * (SumF([q \in 1..Len(rel) |-> LET r == rel[q] IN Abs(rd[q].a[p]) * L1(A[r]) + Abs(A[r][p]) * L1(rd[q].a)]) + 2)
(* one step ahead: the cloud moved by E, its squared residuals (1/U)          *)
Mu(a, b) == Dv(a * b, U)
Apply(E, p) == V3k(LAMBDA i : E[i][1] * p[1] + E[i][2] * p[2] + E[i][3] * p[3] + E[i][4])
Dist2(a, p) == SumF([k \in K3 |-> Mu(a[k] - U * p[k], a[k] - U * p[k])])
NearF(a, P) == CHOOSE i \in 1..Len(P) : \A q \in 1..Len(P) : Dist2(a, P[i]) <= Dist2(a, P[q])
SureF(a, P, th2) == LET i == NearF(a, P) d == Dist2(a, P[i])
                    IN /\ \A q \in 1..Len(P) : q # i => Dist2(a, P[q]) > d + 32
                       /\ th2 # 0 => Abs(4 * d - th2 * U) > 128
InF(a, P, th2) == th2 = 0 \/ 4 * Dist2(a, P[NearF(a, P)]) < th2 * U
MRow(E, v, i) == Mu(E[i][1], v[1]) + Mu(E[i][2], v[2]) + Mu(E[i][3], v[3])
\* tangents of E, from those of the step along its six directions
ELin(Ek, y) == Sq4(LAMBDA i, j : Mu(Ek[1][i][j], y[1]) + Mu(Ek[2][i][j], y[2]) + Mu(Ek[3][i][j], y[3]) + Mu(Ek[4][i][j], y[4]) + Mu(Ek[5][i][j], y[5]) + Mu(Ek[6][i][j], y[6]))
ExpAll(x) == LET r == TLCEval(<<ExpD(x, Unit6(1)), ExpD(x, Unit6(2)), ExpD(x, Unit6(3)), ExpD(x, Unit6(4)), ExpD(x, Unit6(5)), ExpD(x, Unit6(6))>>)
             IN [e |-> r[1][1], k |-> <<r[1][2], r[2][2], r[3][2], r[4][2], r[5][2], r[6][2]>>]
Sq2(v) == Mu(v, v)
\* [e: error now, ce: error one step ahead, sure, d[key]: tangent of ce - e]
Ahead(sc, S0, xi, dxi, EA) ==
  LET ks == KeptIdx(S0, sc.p, sc.th2)
      one == TLCEval([j \in 1..Len(S0) |-> Apply(EA.e, S0[j])])
      sure == \A j \in 1..Len(S0) : SureF(one[j], sc.p, sc.th2)
      kc == SelectSeq([j \in 1..Len(S0) |-> j], LAMBDA j : InF(one[j], sc.p, sc.th2))
      ic == TLCEval([r \in 1..Len(kc) |-> NearF(one[kc[r]], sc.p)])
      bc == TLCEval([r \in 1..Len(kc) |-> LET n == sc.n[ic[r]] p == sc.p[ic[r]] o == one[kc[r]] IN n[1] * (U * p[1] - o[1]) + n[2] * (U * p[2] - o[2]) + n[3] * (U * p[3] - o[3])])
      ix == TLCEval([r \in 1..Len(ks) |-> NearIdx(S0, sc.p, ks[r])])
      b == TLCEval([r \in 1..Len(ks) |-> I!RowB(S0[ks[r]], sc.p[ix[r]], sc.n[ix[r]])])
      dsk == TLCEval([j \in 1..Len(S0) |-> SrcD(sc, j)])
      dnow(key) == SumF([r \in 1..Len(ks) |-> IF key \in RowKeys(dsk[ks[r]], ix[r]) THEN 2 * b[r] * RowD(S0[ks[r]], sc.p[ix[r]], sc.n[ix[r]], dsk[ks[r]], ix[r], key).b * U ELSE 0])
      dahead(key) ==
        LET dE == TLCEval(ELin(EA.k, V6k(LAMBDA k : G(dxi[k], key))))
        IN SumF([r \in 1..Len(kc) |->
             LET j == kc[r] i == ic[r] n == sc.n[i] p == sc.p[i] o == one[j]
                 dir == IF key \in DOMAIN dsk[j] THEN dsk[j][key] ELSE <<0, 0, 0>>
                 do == V3k(LAMBDA c : dE[c][1] * S0[j][1] + dE[c][2] * S0[j][2] + dE[c][3] * S0[j][3] + dE[c][4]
                                      + EA.e[c][1] * dir[1] + EA.e[c][2] * dir[2] + EA.e[c][3] * dir[3])
                 own == SumF([k \in K3 |-> IF key = Key("n", i, k) THEN U * p[k] - o[k] ELSE IF key = Key("p", i, k) THEN U * n[k] ELSE 0])
             IN 2 * Mu(bc[r], own - Dot(n, do))])
  IN [e |-> U * SumF([r \in 1..Len(ks) |-> b[r] * b[r]]), ce |-> SumF([r \in 1..Len(kc) |-> Sq2(bc[r])]), sure |-> sure,
      d |-> TLCEval([key \in AllKeys(sc) |-> dahead(key) - dnow(key)])]
\* tangents of (exp of the step) T
TurnD(sc, EA, y, key) ==
  LET dE == TLCEval(ELin(EA.k, y))
      dT == IF key \in {XKey(k) : k \in K6} THEN MMul(sc.T, Gen1(CHOOSE k \in K6 : key = XKey(k)), 1) ELSE Zero4
  IN MAdd(MMul(dE, sc.T, 1), MMul(EA.e, dT, 1))
TakenOk(sc, EA, dxi, T1, J) ==
  /\ MatNear(T1, MMul(EA.e, sc.T, 1), 16)
  /\ \A key \in AllKeys(sc) : LET y == V6k(LAMBDA k : G(dxi[k], key))
                              IN MatNear(Along(J, key, 4), TLCEval(TurnD(sc, EA, y, key)), 20 + L1(y) \div 50)
LeftOk(sc, T1, J) ==
  /\ T1 = [i \in D4 |-> [j \in D4 |-> U * sc.T[i][j]]]
  /\ \A key \in AllKeys(sc) : MatNear(Along(J, key, 4), IF key \in {XKey(k) : k \in K6}
         THEN LET d == MMul(sc.T, Gen1(CHOOSE k \in K6 : key = XKey(k)), 1) IN [i \in D4 |-> [j \in D4 |-> U * d[i][j]]] ELSE Zero4, 1)
\* (undecided: nothing is claimed)
PlainStep(sc, S0, xi, dxi, T1, J) ==
  LET EA == TLCEval(ExpAll(xi)) a == TLCEval(Ahead(sc, S0, xi, dxi, EA)) gap == 64 + a.e \div 64
  IN IF ~a.sure THEN TRUE
     ELSE IF a.ce < a.e - gap THEN TakenOk(sc, EA, dxi, T1, J)
     ELSE IF a.ce > a.e + gap THEN LeftOk(sc, T1, J)
     ELSE TRUE
\* gated: the step times s = (1 + 2^-(c2 dif / 4))^(-1 / nu)
GateOf(dif, c, nu) == \* [s, slope of s by dif (1/U, over nu), sure]
  LET q == I!Clamp70(dif \div 4) y == (q * c) \div 4 s == I!Sig(y, nu) g == I!Gate(y)
  IN [s |-> s, k |-> IF Abs(q) = 17920 THEN 0 ELSE Dv(Mu(s, 1024 - g) * c * 710, 4096), nu |-> nu, sure |-> Abs(Abs(dif) - 70 * U) > U]
Turned(gt, d) == Dv(Mu(gt.k, d), gt.nu)
GatedStep(sc, S0, xi, dxi, T1, J) ==
  LET EA == TLCEval(ExpAll(xi)) a == TLCEval(Ahead(sc, S0, xi, dxi, EA)) gt == GateOf(a.ce - a.e, sc.c2, sc.nu)
      x1 == TLCEval(V6k(LAMBDA k : Mu(gt.s, xi[k])))
      E1 == TLCEval(ExpAll(x1))
  IN IF ~a.sure \/ ~gt.sure \/ (\E key \in DOMAIN a.d : Abs(a.d[key]) > 400 * U) THEN TRUE
     ELSE /\ MatNear(T1, MMul(E1.e, sc.T, 1), 24)
          /\ \A key \in AllKeys(sc) :
               LET y == V6k(LAMBDA k : G(dxi[k], key)) ds == Turned(gt, a.d[key])
                   y1 == TLCEval(V6k(LAMBDA k : Mu(ds, xi[k]) + Mu(gt.s, y[k])))
                   slop == Mu(Abs(ds) \div 24 + Dv(Abs(a.d[key]) * sc.c2, 200 * sc.nu) , L1(xi))
               IN MatNear(Along(J, key, 4), TLCEval(TurnD(sc, E1, y1, key)), 24 + L1(y) \div 24 + 4 * slop)

(* ------------------------------------------ several iterations in a row     *)
\* T (1/U) a motion after some iterations with tangents J1; J2: tangents of one
\* more iteration started from T, and ("y1".."y6") by moving T itself; J: of all
TwistOf(T, d) ==
  LET RtD(i, j) == Mu(T[1][i], d[1][j]) + Mu(T[2][i], d[2][j]) + Mu(T[3][i], d[3][j])
  IN [x |-> <<RtD(1, 4), RtD(2, 4), RtD(3, 4), RtD(3, 2), RtD(1, 3), RtD(2, 1)>>,
      skew |-> \A i \in K3 : \A j \in K3 : Abs(RtD(i, j) + RtD(j, i)) <= 8 + (Abs(RtD(i, j)) + Abs(RtD(j, i))) \div 100]
YKey(k) == "y" \o ToString(k)
ChainOk(keys, T, J1, J2, J) ==
  LET yk == TLCEval([k \in K6 |-> Along(J2, YKey(k), 4)])
  IN \A key \in keys :
       LET t == TLCEval(TwistOf(T, Along(J1, key, 4)))
           one == TLCEval(Along(J2, key, 4)) all == TLCEval(Along(J, key, 4))
       IN /\ t.skew
          /\ \A i \in K3 : \A j \in D4 :
               LET terms == [k \in K6 |-> Mu(t.x[k], yk[k][i][j])]
               IN Abs(all[i][j] - one[i][j] - SumF(terms)) <= 12 + (Abs(one[i][j]) + SumF([k \in K6 |-> Abs(terms[k])]) + SumF([k \in K6 |-> Abs(yk[k][i][j])])) \div 64 + L1(t.x) \div 64

(* ------------------------------------------------ gated steps along an axis *)
\* positions as in IcpOps (1/U); sc.X and its tangents sc.D by iteration; the
\* damping (1/U) carries tangents as well
AKeys(sc) == {"s" \o ToString(j) : j \in 1..Len(sc.s)} \cup {w \o ToString(i) : w \in {"p", "n"}, i \in 1..Len(sc.t)} \cup {"x"}
\* tangent of residual of source j to target i at a place with tangents D
ResD(D, j, i, key) == (IF key = "p" \o ToString(i) THEN U ELSE 0) - (IF key = "s" \o ToString(j) THEN U ELSE 0) - G(D, key)
NrmD(sc, i, key) == IF key = "n" \o ToString(i) THEN 2 * sc.t[i].sg ELSE 0          \* of n^2, per 1
AxisOk(sc) ==
  LET RECURSIVE Go(_, _, _, _)
      Go(k, lam, dl, el) ==      \* el: how far off the tangents dl may be
        IF k > Len(sc.X) - 1 THEN 0
        ELSE LET X == sc.X[k] D == sc.D[k]
             IN IF lam > 40 * U \/ ~I!AllDecided(sc.s, X, sc.t, sc.th2) \/ (\E key \in AKeys(sc) : Abs(G(D, key)) > 20 * U \/ Abs(G(dl, key)) > 60 * U) THEN 0
                ELSE LET all == [j \in 1..Len(sc.s) |-> j]
                         kept(Z) == SelectSeq(all, LAMBDA j : I!Sides(sc.s[j], Z, sc.t[I!Near1(sc.s[j], Z, sc.t)], sc.th2) = "in")
                         near(Z, ks) == [r \in 1..Len(ks) |-> I!Near1(sc.s[ks[r]], Z, sc.t)]
                         ks == TLCEval(kept(X)) ix == TLCEval(near(X, ks)) h == Len(ks)
                         r == TLCEval([q \in 1..h |-> sc.t[ix[q]].x * U - I!Pos(sc.s[ks[q]], X)])
                         S == SumF(r) H == h * U + lam
                         full == IF H = 0 THEN 0 ELSE Dv(S * U, H)
                         dS(key) == SumF([q \in 1..h |-> ResD(D, ks[q], ix[q], key) + Dv(NrmD(sc, ix[q], key) * r[q], 1)])
                         dH(key) == SumF([q \in 1..h |-> U * NrmD(sc, ix[q], key)]) + G(dl, key)
                         dfull == TLCEval([key \in AKeys(sc) |-> Dv((dS(key) - Mu(full, dH(key))) * U, H)])
                         C == X + full
                     IN IF ~I!AllDecided(sc.s, C, sc.t, sc.th2) THEN 0
                        ELSE LET kc == TLCEval(kept(C)) ic == TLCEval(near(C, kc))
                                 rc == TLCEval([q \in 1..Len(kc) |-> sc.t[ic[q]].x * U - I!Pos(sc.s[kc[q]], C)])
                                 dC == TLCEval([key \in AKeys(sc) |-> G(D, key) + dfull[key]])
                                 dif == SumF([q \in 1..Len(kc) |-> Sq2(rc[q])]) - SumF([q \in 1..h |-> Sq2(r[q])])
                                 sq(rr, i, d, key) == 2 * Mu(rr, d) + Mu(NrmD(sc, i, key) * rr, rr)
                                 dd == TLCEval([key \in AKeys(sc) |->
                                         SumF([q \in 1..Len(kc) |-> sq(rc[q], ic[q], ResD(dC, kc[q], ic[q], key), key)])
                                         - SumF([q \in 1..h |-> sq(r[q], ix[q], ResD(D, ks[q], ix[q], key), key)])])
                                 g2 == TLCEval(GateOf(dif, sc.c2, sc.nu)) g1 == TLCEval(GateOf(dif, sc.c1, 1))
                                 a == sc.l * sc.l - 1
                                 dl1 == [key \in AKeys(sc) |-> Dv(G(dl, key) * (1024 + a * g1.s), sc.l * 1024) + Dv(Mu(lam, Turned(g1, dd[key])) * a, sc.l)]
                                 el1 == [key \in AKeys(sc) |-> Dv(G(el, key) * (1024 + a * g1.s), sc.l * 1024)
                                           + Dv(Dv(Dv(Mu(lam, Abs(dd[key])) * a, sc.l) * sc.c1, 6), 256)]
                             IN IF ~g2.sure \/ ~g1.sure \/ (\E key \in AKeys(sc) : Abs(dd[key]) > 300 * U) THEN 0
                                ELSE IF \E key \in AKeys(sc) :
                                          LET ds == Turned(g2, dd[key])
                                              want == G(D, key) + Mu(ds, full) + Mu(g2.s, dfull[key])
                                              tol == 16 + (Abs(dfull[key]) + Abs(G(D, key))) \div 24
                                                        + Mu(Abs(ds) \div 12 + Dv(Abs(dd[key]) * sc.c2, 120 * sc.nu), Abs(full))
                                                        + Dv(Mu(Abs(full), Abs(G(dl, key)) \div 16 + G(el, key)) * U, H)
                                          IN Abs(G(sc.D[k + 1], key) - want) > tol
                                     THEN k
                                     ELSE Go(k + 1, Dv(lam * (1024 + a * g1.s), sc.l * 1024), TLCEval(dl1), TLCEval(el1))
  IN Go(1, sc.d0, None, None)
=============================================================================
