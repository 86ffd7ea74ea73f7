------------------------------ MODULE AssocJudge ------------------------------
(* Judges recorded associations and file readings.                            *)
EXTENDS AssocOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Assoc(s) ==
  IF ~Within(s.a, s.b, s.off, s.tol, s.m) THEN "associate: a pair outside the allowed difference"
  ELSE IF ~OneToOne(s.m) THEN "associate: an entry is used twice"
  ELSE IF ~BestFirst(s.a, s.b, s.off, s.tol, s.m) THEN "associate: an acceptable closer pair is left out"
  ELSE IF ~InOrder(s.a, s.m) THEN "associate: pairs are not in order of time"
  ELSE ""
FileList(s) == IF s.out = Entries(s.lines, s.start, s.end) THEN "" ELSE "read_file_list: entries"
Traj(s) ==
  LET e == Poses(s.lines, s.num, s.bad) IN
  IF Len(s.out) # Len(e) \/ \E k \in 1..Len(e) : s.out[k].stamp # e[k].stamp THEN "read_trajectory: stamps"
  ELSE IF \A k \in 1..Len(e) :
            IF s.matrix THEN MatNear(s.out[k].v, T([q |-> SubSeq(e[k].v, 4, 7), t |-> SubSeq(e[k].v, 1, 3)]), 4)
            ELSE s.out[k].v = e[k].v
       THEN "" ELSE "read_trajectory: values"
Clause(s) == IF s.fail # "" THEN s.op \o " failed: " \o s.fail
             ELSE IF s.mut THEN s.op \o " modified its arguments"
             ELSE CASE s.op = "assoc" -> Assoc(s) [] s.op = "list" -> FileList(s) [] s.op = "traj" -> Traj(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
