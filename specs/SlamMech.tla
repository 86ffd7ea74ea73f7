-------------------------------- MODULE SlamMech --------------------------------
(* SLAM sessions: maps are objects on a heap, frames carry poses, a user steps *)
(* in or out of place with any previous frame and may assign returned poses.   *)
(* Poses live in a non-commutative group (permutations of three things).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS L, Depth, Odom, Posed, Emit
VARIABLES cells, objs, fp, ghost, gfp, last, lobj, canon, hist
vars == <<cells, objs, fp, ghost, gfp, last, lobj, canon, hist>>
Mul(f, g) == [k \in 1..3 |-> f[g[k]]]
Id == <<1, 2, 3>>
None == <<>>
T(s) == CASE s = 1 -> <<2, 1, 3>> [] s = 2 -> <<1, 3, 2>> [] OTHER -> <<2, 3, 1>>
GP(s) == CASE s = 1 -> <<2, 3, 1>> [] s = 2 -> <<2, 1, 3>> [] OTHER -> Id
\* what running over the whole sequence gives after s frames
RECURSIVE FPose(_)
FPose(s) == IF Odom = "gt" THEN GP(s) ELSE IF s = 1 THEN (IF Posed THEN GP(1) ELSE Id) ELSE Mul(T(s), FPose(s - 1))
FMap(s) == [k \in 1..s |-> <<k, FPose(k)>>]

\* a motion can only be estimated against a map that has points
Content(o) == cells[objs[o]]
Refused(o, s, p) == IF p = 0 \/ Odom = "gt" THEN fp[s] = None ELSE fp[p] = None \/ Content(o) = <<>>
PoseOf(s, p) == IF p = 0 \/ Odom = "gt" THEN fp[s] ELSE Mul(T(s), fp[p])
Init == /\ cells = << <<>> >> /\ objs = <<1>> /\ ghost = << <<>> >>
        /\ fp = [s \in 1..L |-> IF Posed THEN GP(s) ELSE None] /\ gfp = fp
        /\ last = Id /\ lobj = 1 /\ canon = 0 /\ hist = <<>>
More == Len(hist) < Depth
Log(r) == hist' = Append(hist, r)
CanonNext(o, s, p) == IF /\ canon >= 0 /\ o = lobj /\ s = canon + 1
                         /\ IF Odom = "gt" THEN Posed /\ fp[s] = FPose(s)
                            ELSE p = canon /\ (IF p = 0 THEN fp[1] = FPose(1) ELSE fp[p] = FPose(p))
                      THEN canon + 1 ELSE -1
StepOut(o, s, p) ==
  /\ More /\ ~Refused(o, s, p)
  /\ LET c == Append(Content(o), <<s, PoseOf(s, p)>>)
     IN /\ cells' = Append(cells, c) /\ objs' = Append(objs, Len(cells) + 1) /\ ghost' = Append(ghost, c)
        /\ last' = PoseOf(s, p) /\ lobj' = Len(objs) + 1
  /\ canon' = CanonNext(o, s, p)
  /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> FALSE]) /\ UNCHANGED <<fp, gfp>>
StepIn(o, s, p) ==
  /\ More /\ ~Refused(o, s, p)
  /\ LET c == Append(Content(o), <<s, PoseOf(s, p)>>)
     IN /\ cells' = [cells EXCEPT ![objs[o]] = c] /\ ghost' = [ghost EXCEPT ![o] = c]
  /\ last' = PoseOf(s, p) /\ lobj' = o
  /\ fp' = [fp EXCEPT ![s] = PoseOf(s, p)] /\ gfp' = [gfp EXCEPT ![s] = PoseOf(s, p)]
  /\ canon' = CanonNext(o, s, p)
  /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> TRUE]) /\ UNCHANGED objs
Refuse(o, s, p, ip) ==
  /\ More /\ Refused(o, s, p) /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> ip])
  /\ UNCHANGED <<cells, objs, fp, ghost, gfp, last, lobj, canon>>
\* the user hands a returned pose (at first: the identity) to a frame
Assign(s) ==
  /\ More /\ fp' = [fp EXCEPT ![s] = last] /\ gfp' = [gfp EXCEPT ![s] = last]
  /\ canon' = IF canon = 0 \/ (canon > 0 /\ s = canon) THEN canon ELSE -1
  /\ Log([k |-> "assign", s |-> s]) /\ UNCHANGED <<cells, objs, ghost, last, lobj>>
Out == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L : StepOut(o, s, p)
In == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L : StepIn(o, s, p)
Deny == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L, ip \in BOOLEAN : Refuse(o, s, p, ip)
Give == \E s \in 1..L : Assign(s)
Next == Out \/ In \/ Deny \/ Give
Spec == Init /\ [][Next]_vars
\* operations out of place change nothing they were given; in place only theirs
Untouched == \A o \in 1..Len(objs) : Content(o) = ghost[o]
Frames == fp = gfp
\* stepping frame by frame with the previous frame handed over is the whole run
Forward == canon > 0 => Content(lobj) = FMap(canon) /\ last = FPose(canon)
Valid == \A s \in 1..L : fp[s] = None \/ Cardinality({fp[s][k] : k \in 1..3}) = 3
EmitOk == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
(* negative controls *)
BadAlias(o, s, p) == \* the new map shares storage with the old one
  /\ More /\ ~Refused(o, s, p)
  /\ LET c == Append(Content(o), <<s, PoseOf(s, p)>>)
     IN /\ cells' = [cells EXCEPT ![objs[o]] = c] /\ objs' = Append(objs, objs[o]) /\ ghost' = Append(ghost, c)
        /\ last' = PoseOf(s, p) /\ lobj' = Len(objs) + 1
  /\ canon' = CanonNext(o, s, p) /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> FALSE]) /\ UNCHANGED <<fp, gfp>>
BadLeak(o, s, p) == \* a step out of place writes the frame's pose
  /\ More /\ ~Refused(o, s, p)
  /\ LET c == Append(Content(o), <<s, PoseOf(s, p)>>)
     IN /\ cells' = Append(cells, c) /\ objs' = Append(objs, Len(cells) + 1) /\ ghost' = Append(ghost, c)
        /\ last' = PoseOf(s, p) /\ lobj' = Len(objs) + 1
  /\ fp' = [fp EXCEPT ![s] = PoseOf(s, p)]
  /\ canon' = CanonNext(o, s, p) /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> FALSE]) /\ UNCHANGED gfp
BadOrder(o, s, p) == \* motion composed on the wrong side
  /\ More /\ ~Refused(o, s, p)
  /\ LET g == IF p = 0 \/ Odom = "gt" THEN fp[s] ELSE Mul(fp[p], T(s)) c == Append(Content(o), <<s, g>>)
     IN /\ cells' = [cells EXCEPT ![objs[o]] = c] /\ ghost' = [ghost EXCEPT ![o] = c]
        /\ last' = g /\ lobj' = o /\ fp' = [fp EXCEPT ![s] = g] /\ gfp' = [gfp EXCEPT ![s] = g]
  /\ canon' = CanonNext(o, s, p) /\ Log([k |-> "step", o |-> o, s |-> s, p |-> p, ip |-> TRUE]) /\ UNCHANGED objs
NextAlias == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L : BadAlias(o, s, p) \/ StepIn(o, s, p)
NextLeak == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L : BadLeak(o, s, p) \/ StepIn(o, s, p)
NextOrder == \E o \in 1..Len(objs), s \in 1..L, p \in 0..L : BadOrder(o, s, p) \/ StepOut(o, s, p)
=============================================================================
