-------------------------------- MODULE CfgJudge --------------------------------
(* Judges recorded sessions with configuration trees. *)
EXTENDS CfgOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
First(S) == CHOOSE x \in S : \A y \in S : x <= y
Changed(s) == {k \in 1..Len(s.objs) : s.objs[k].before # s.objs[k].after /\ ~s.objs[k].may}
Rest(s) == Eq(Upd(s.pre, s.p, Sub(s.post, s.p)), s.post)
Frz(s) == IF FrozenKept(s.pre, s.post) THEN "" ELSE s.what \o ": changed a frozen configuration"
C17(s) ==
  CASE s.op = "merge" -> IF ~MergeOk(Sub(s.pre, s.p), s.a, Range(s.dep), Range(s.ren), Sub(s.post, s.p), s.refused)
                         THEN s.what \o ": " \o (IF s.refused THEN "refused merge" ELSE "merged values")
                         ELSE IF ~Rest(s) THEN s.what \o ": keys outside the merged part" ELSE IF s.shared THEN s.what \o ": shares values with its source" ELSE ""
    [] s.op = "list" -> IF ~ListOk(Sub(s.pre, s.p), s.os, s.odd, Range(s.dep), Range(s.ren), Sub(s.post, s.p), s.refused)
                        THEN s.what \o ": " \o (IF s.refused THEN "refused overrides" ELSE "overridden values")
                        ELSE IF ~Rest(s) THEN s.what \o ": keys outside the merged part" ELSE IF s.shared THEN s.what \o ": shares values with its source" ELSE ""
    [] s.op = "rename" -> IF ~s.refused THEN s.what \o ": a renamed key was accepted" ELSE IF ~s.named THEN s.what \o ": the new name of a renamed key is not given" ELSE ""
    [] OTHER -> ""
C18(s) ==
  CASE s.op \in {"merge", "list"} -> Frz(s)
    [] s.op = "set" -> IF SetOk(s.pre, s.p, s.key, s.internal, s.v, s.post, s.refused) THEN "" ELSE s.what
    [] s.op = "freeze" -> IF ~s.refused /\ Eq(s.post, Upd(s.pre, s.p, Freeze(Sub(s.pre, s.p), TRUE))) THEN "" ELSE "freeze"
    [] s.op = "defrost" -> IF ~s.refused /\ Eq(s.post, Upd(s.pre, s.p, Freeze(Sub(s.pre, s.p), FALSE))) THEN "" ELSE "defrost"
    [] s.op = "clone" -> IF s.refused \/ ~Eq(Sub(s.pre, s.p), s.got) \/ ~s.keys THEN "clone: contents or state" ELSE IF s.shared THEN "clone shares values with the original"
                         ELSE IF ~Eq(s.pre, s.post) THEN "clone changed the original" ELSE ""
    [] s.op = "new" -> IF s.refused # s.bad THEN "construction" ELSE IF s.bad THEN "" ELSE IF ~EqC(s.a, s.got) THEN "construction: contents" ELSE IF s.shared THEN "construction shares values with its source" ELSE ""
    [] s.op = "dump" -> IF s.refused \/ ~EqY(Sub(s.pre, s.p), s.got) THEN "dumping and loading" ELSE IF ~Eq(s.pre, s.post) THEN "dumping changed the configuration" ELSE ""
    [] s.op = "get" -> IF s.ok THEN "" ELSE "attribute access"
    [] s.op = "mutate" -> IF FrozenKept(s.pre, s.post) THEN "" ELSE "frozen configuration changed by " \o s.what
    [] OTHER -> ""
Clause(s) ==
  IF Changed(s) # {} THEN s.what \o " changed " \o s.objs[First(Changed(s))].name
  ELSE IF s.prop = "C17" THEN C17(s) ELSE C18(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
