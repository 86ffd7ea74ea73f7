-------------------------------- MODULE SlamJudge --------------------------------
(* Judges recorded SLAM sessions. *)
EXTENDS SlamOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Objs(s) == IF Changed(s) = {} THEN "" ELSE s.what \o " changed " \o s.objs[First(Changed(s))].name
C12(s) ==
  CASE s.op = "step" -> IF Objs(s) # "" THEN Objs(s)
                        ELSE IF Refused(s) \/ s.fail # "" THEN ""
                        ELSE IF ~MapsAgree(s.post, s.other) THEN s.what \o ": in place and out of place give different maps"
                        ELSE IF ~PosesAgree(s.pose, s.opose, 1) THEN s.what \o ": in place and out of place give different poses"
                        ELSE IF s.ip /\ ~s.same THEN s.what \o ": in place returned another map"
                        ELSE IF ~s.ip /\ s.same THEN s.what \o ": out of place returned its argument" ELSE ""
    [] s.op = "forward" -> Objs(s)
    [] s.op = "call" -> IF s.fail # "" THEN s.what \o " failed: " \o s.fail
                        ELSE IF Objs(s) # "" THEN Objs(s)
                        ELSE IF ~MapsAgree(s.a, s.b) THEN s.what \o ": in place and out of place give different maps" ELSE ""
    [] OTHER -> ""
C13(s) ==
  CASE s.op = "refuse" -> IF s.fail = "ok" THEN "accepted: " \o s.what ELSE ""
    [] s.op = "step" -> IF Refused(s) THEN (IF s.fail = "" THEN s.what \o ": a step without the pose or map it needs was accepted" ELSE "")
                        ELSE IF s.fail # "" THEN s.what \o " failed: " \o s.fail
                        ELSE IF MustWarn(s) /\ ~s.warned THEN s.what \o ": an unused or missing previous frame was not announced"
                        ELSE IF ~PoseOk(s) THEN s.what \o ": pose of the live frame"
                        ELSE IF ~EstimateOk(s) THEN s.what \o ": points given to the motion estimate"
                        ELSE IF ~MapOk(s) THEN s.what \o ": updated map"
                        ELSE IF s.ip /\ ~PosesAgree(s.fpose, s.pose, 0) THEN s.what \o ": pose of the frame stepped in place" ELSE ""
    [] s.op = "forward" -> IF RunRefused(s) THEN (IF s.fail = "" THEN s.what \o ": ground truth without poses was accepted" ELSE "")
                           ELSE IF s.fail # "" THEN s.what \o " failed: " \o s.fail
                           ELSE IF ~RunPosesOk(s) THEN s.what \o ": poses of the run"
                           ELSE IF ~MapsAgree(s.post, s.stepped) THEN s.what \o ": map differs from stepping frame by frame"
                           ELSE IF \E k \in 1..s.L : ~PosesAgree(s.p[k], s.sp[k], 1) THEN s.what \o ": poses differ from stepping frame by frame"
                           ELSE IF \E b \in 1..Len(s.solo) : ~MapsAgree(s.solo[b].map, [any |-> s.post.any, pts |-> <<s.post.pts[b]>>, nrm |-> <<s.post.nrm[b]>>,
                                                                                col |-> <<s.post.col[b]>>, cc |-> <<s.post.cc[b]>>])
                                THEN s.what \o ": batch element differs from running alone"
                           ELSE IF \E b \in 1..Len(s.solo) : \E k \in 1..s.L : ~MatEq(s.solo[b].p[k][1], s.p[k][b], 1)
                                THEN s.what \o ": poses of a batch element differ from running alone" ELSE ""
    [] OTHER -> ""
Clause(s) == IF s.prop = "C12" THEN C12(s) ELSE C13(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
