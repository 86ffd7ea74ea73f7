------------------------------ MODULE FusionJudge ------------------------------
(* Judges recorded calls of the fusion functions. *)
EXTENDS FusionOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Clause(s) ==
  IF s.op = "refuse" THEN (IF s.fail = "ok" THEN "accepted: " \o s.what ELSE "")
  ELSE IF s.fail # "" THEN s.op \o " failed: " \o s.fail
  ELSE IF s.mut # "" THEN s.op \o " changed its argument: " \o s.mut
  ELSE CASE s.op = "active" -> IF ActiveOk(s.f, s.pts, s.rows) THEN "" ELSE "active map points"
         [] s.op = "similar" -> IF SimilarOk(s.f, s.m, s.rows, s.th, s.exact, s.mask, s.out) THEN "" ELSE "similar map points"
         [] s.op = "best" -> IF BestOk(s.f, s.m, s.rows, s.out) THEN "" ELSE "best correspondences"
         [] s.op = "corr" -> IF s.out = s.want THEN "" ELSE "find_correspondences is not the composition of its stages"
         [] s.op = "fuse" -> IF ~RowsOk(s.pre, s.fr, s.rows) THEN s.what \o ": invalid correspondences"
                             ELSE IF ~FuseOk(s.pre, s.fr, s.rows, s.post) THEN s.what \o ": fused map"
                             ELSE IF ~GrowthOk(s.pre, s.fr, s.rows, s.post) THEN s.what \o ": growth" ELSE ""
         [] s.op = "aggregate" -> IF AggregateOk(s.pre, s.fr, s.post) THEN "" ELSE s.what \o ": aggregated map"
         [] s.op = "alpha" -> IF \A k \in 1..Len(s.v2) : AlphaOk(s.out[k], s.v2[k], s.S) /\ s.pos[k] THEN "" ELSE "confidence of a measurement"
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
