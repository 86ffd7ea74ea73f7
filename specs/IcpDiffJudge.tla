---------------------------- MODULE IcpDiffJudge ----------------------------
(* Judges recorded derivatives of the alignment.                              *)
EXTENDS IcpDiff, Json
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Bad == 1000000000
SaneM(J, a, b) == \A x \in 1..a : \A y \in 1..b : \A k \in DOMAIN J[x][y] : Abs(J[x][y][k]) < Bad
OverM(J, a, b, top) == \E x \in 1..a : \E y \in 1..b : \E k \in DOMAIN J[x][y] : Abs(J[x][y][k]) > top
SaneV(J) == \A x \in 1..Len(J) : \A k \in DOMAIN J[x] : Abs(J[x][k]) < Bad
OverV(J, top) == \E x \in 1..Len(J) : \E k \in DOMAIN J[x] : Abs(J[x][k]) > top
KeysM(J) == UNION {DOMAIN J[a][b] : a \in D4, b \in D4} \ {"_"}
System(s) ==
  IF ~Sure(s.s, s.p, s.th2) THEN ""
  ELSE IF ~SaneM(s.JA, Len(s.JA), 6) \/ ~SaneV(s.Jb) THEN "system: derivative is not a reasonable number"
  ELSE IF ~SystemD(s.s, s.p, s.n, s.th2, s.JA, s.Jb) THEN "system: derivative" ELSE ""
Solve(s) ==
  IF ~SaneV(s.J) \/ (\E k \in 1..Len(s.x) : Abs(s.x[k]) >= Bad) THEN "solve: derivative is not a reasonable number"
  ELSE IF OverV(s.J, 200 * U) \/ (\E k \in 1..Len(s.x) : Abs(s.x[k]) > 200 * U) THEN ""
  ELSE IF ~SolveD(s.A, s.b, s.dn, s.dd, s.x, s.J) THEN "solve: derivative" ELSE ""
Step(s) ==
  LET S0 == Moved(s)
  IN IF ~Sure(S0, s.p, s.th2) THEN ""
     ELSE IF ~SaneM(s.J, 4, 4) \/ ~SaneV(s.dxi) \/ (\E k \in K6 : Abs(s.xi[k]) >= Bad) THEN s.f \o ": derivative is not a reasonable number"
     ELSE IF OverV(s.dxi, 20 * U) \/ OverM(s.J, 4, 4, 200 * U) \/ (\E k \in K6 : Abs(s.xi[k]) > 3 * U) THEN ""
     ELSE IF KeysM(s.J) \ AllKeys(s) # {} THEN s.f \o ": derivative of something else"
     ELSE IF ~StepOk(s, S0, s.xi, s.dxi) THEN "step: derivative of the solution"
     ELSE IF s.c2 = -1 THEN (IF PlainStep(s, S0, s.xi, s.dxi, s.T1, s.J) THEN "" ELSE s.f \o ": derivative of a step")
     ELSE IF GatedStep(s, S0, s.xi, s.dxi, s.T1, s.J) THEN "" ELSE s.f \o ": derivative of a step"
Chain(s) ==
  IF ~SaneM(s.J, 4, 4) \/ ~SaneM(s.J1, 4, 4) \/ ~SaneM(s.J2, 4, 4) THEN s.f \o ": derivative is not a reasonable number"
  ELSE IF OverM(s.J, 4, 4, 30 * U) \/ OverM(s.J1, 4, 4, 30 * U) \/ OverM(s.J2, 4, 4, 30 * U) THEN ""
  ELSE IF ~ChainOk((KeysM(s.J) \cup KeysM(s.J1) \cup KeysM(s.J2)) \ {YKey(k) : k \in K6}, s.T, s.J1, s.J2, s.J) THEN s.f \o ": derivative of several iterations" ELSE ""
Axis(s) ==
  IF ~SaneV(s.D) THEN "gradICP: derivative is not a reasonable number"
  ELSE IF AxisOk(s) # 0 THEN "gradICP: derivative of gated steps along an axis" ELSE ""
\* the same tangents, no others
SameM(a, b) == \A x \in D4 : \A y \in D4 : \A k \in DOMAIN a[x][y] \cup DOMAIN b[x][y] :
                 LET p == G(a[x][y], k) q == G(b[x][y], k) IN Abs(p - q) <= 2 + Abs(q) \div 2000
Same(s) == IF \E b \in 1..Len(s.b) : ~SaneM(s.a[b], 4, 4) THEN s.f \o ": derivative is not a reasonable number"
           ELSE IF \E b \in 1..Len(s.b) : ~SameM(s.a[b], s.b[b]) THEN s.f \o ": derivative is not that of its alignment" ELSE ""
\* downsampling: the derivative of the rows kept, and of nothing else
Grid(s) == IF SaneV(<<s.b>>) /\ ~SaneV(<<s.a>>) THEN s.f \o ": derivative is not a reasonable number"
           ELSE IF \E k \in DOMAIN s.a \cup DOMAIN s.b : LET p == G(s.a, k) q == G(s.b, k) IN Abs(p - q) > 2 + Abs(q) \div 2000
           THEN s.f \o ": derivative is not that of the rows kept" ELSE ""
\* pose = motion * previous pose
Pose(s) ==
  IF \E b \in 1..Len(s.J) : ~SaneM(s.J[b], 4, 4) \/ ~SaneM(s.JT[b], 4, 4) THEN s.f \o ": derivative is not a reasonable number"
  ELSE IF \E b \in 1..Len(s.J) : OverM(s.J[b], 4, 4, 30 * U) \/ OverM(s.JT[b], 4, 4, 30 * U) THEN ""
  ELSE IF \E b \in 1..Len(s.J) : \E key \in (KeysM(s.J[b]) \cup KeysM(s.JT[b]) \cup KeysM(s.JP[b])) :
       LET dT == TLCEval(Along(s.JT[b], key, 4)) dP == TLCEval(Along(s.JP[b], key, 4)) o == TLCEval(Along(s.J[b], key, 4))
       IN \E x \in K3 : \E y \in D4 :
            LET terms == [m \in D4 |-> Mu(dT[x][m], s.P[b][m][y]) + Mu(s.T[b][x][m], dP[m][y])]
            IN Abs(o[x][y] - SumF(terms)) > 12 + SumF([m \in D4 |-> Abs(dT[x][m])]) \div 256 + SumF([m \in D4 |-> Abs(terms[m])]) \div 256
  THEN s.f \o ": derivative of the pose" ELSE ""
Clause(s) ==
  CASE s.op = "failed" -> "failed: " \o s.fail
    [] s.op = "system" -> System(s)
    [] s.op = "solve" -> Solve(s)
    [] s.op = "step" -> Step(s)
    [] s.op = "chain" -> Chain(s)
    [] s.op = "axis" -> Axis(s)
    [] s.op = "same" -> Same(s)
    [] s.op = "grid" -> Grid(s)
    [] s.op = "pose" -> Pose(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
