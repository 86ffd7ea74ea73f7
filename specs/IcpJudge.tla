-------------------------------- MODULE IcpJudge --------------------------------
(* Judges recorded calls of the alignment functions. *)
EXTENDS IcpOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Clause(s) ==
  IF s.op = "refuse" THEN (IF s.fail = "ok" THEN "accepted: " \o s.what ELSE "")
  ELSE IF s.fail # "" THEN s.what \o " failed: " \o s.fail
  ELSE IF s.mut # "" THEN s.what \o " changed its argument: " \o s.mut
  ELSE CASE s.op = "system" -> IF SystemOk(s.s, s.p, s.n, s.th2, s.A, s.b, s.idx) THEN "" ELSE "linear system"
         [] s.op = "solve" -> IF SolveOk(s.A, s.b, s.dn, s.dd, s.x, s.tol, s.cols) THEN "" ELSE "damped solution"
         [] s.op = "loop" -> IF LoopOk(s.its) THEN "" ELSE s.what \o ": accepted steps and damping"
         [] s.op = "axis" -> IF Run1({0}, s, 1) # 0 THEN s.what \o ": steps along an axis"
                             ELSE IF ~s.clean THEN s.what \o ": off-axis motion"
                             ELSE IF ~IdxOk(s, s.X[Len(s.X) - 1], s.idx) THEN s.what \o ": reported nearest targets" ELSE ""
         [] s.op = "gaxis" -> IF GradOk(s) # 0 THEN s.what \o ": gated steps along an axis"
                              ELSE IF ~s.clean THEN s.what \o ": off-axis motion"
                              ELSE IF ~IdxOk(s, s.X[Len(s.X) - 1], s.idx) THEN s.what \o ": reported nearest targets" ELSE ""
         [] s.op = "grid" -> IF \A k \in 1..Len(s.its) : GridOk(s.its[k]) THEN "" ELSE s.what \o ": gated steps"
 [] s.op = "nearest" -> IF NearestIdx(s.s, s.p, s.th, s.idx) THEN "" ELSE s.what \o ": reported nearest targets"
         [] s.op = "same" -> IF s.a = s.b THEN "" ELSE s.what
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
