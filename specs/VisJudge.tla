------------------------------- MODULE VisJudge -------------------------------
(* Judges recorded exports of clouds and frames.                             *)
EXTENDS VisOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
Diff(a, b) == IF a > b THEN a - b ELSE b - a
\* ------------------------------------------------------------------- clouds
CloudC(s) ==
  LET n == Len(s.points)
      want == Shown(n, s.lim)
      at == TLCEval(Places(s.points, s.out))
      bytes == TLCEval(Bytes(s.colors))
      wantcol == s.inccol /\ s.hascol
      wantnrm == s.incnrm /\ s.hasnrm
      near(raw, got) == LET c == Canon(raw, bytes) IN
                        IF s.kind = "open3d" THEN Diff(c, got) <= 2 ELSE Diff(c, 256 * got) <= 256
  IN IF Len(s.out) # want THEN s.kind \o ": number of points"
     ELSE IF \E k \in 1..want : at[k] = 0 THEN s.kind \o ": a point that is not in the cloud"
     ELSE IF ~Distinct(at) THEN s.kind \o ": a point is shown twice"
     ELSE IF want = n /\ s.out # s.points THEN s.kind \o ": order of the points"
     ELSE IF want > 0 /\ wantcol # s.gotcol THEN s.kind \o ": presence of colours"
     ELSE IF want > 0 /\ wantnrm # s.gotnrm THEN s.kind \o ": presence of normals"
     ELSE IF want > 0 /\ wantcol /\ (Len(s.outcol) # want \/ \E k \in 1..want : Len(s.outcol[k]) # 3) THEN s.kind \o ": number of colours"
     ELSE IF want > 0 /\ wantcol /\ \E k \in 1..want : \E j \in 1..3 : ~near(s.colors[at[k]][j], s.outcol[k][j]) THEN s.kind \o ": colours"
     ELSE IF want > 0 /\ wantnrm /\ s.outnrm # [k \in 1..want |-> s.normals[at[k]]] THEN s.kind \o ": normals"
     ELSE IF s.kind = "plotly" /\ (s.size # s.gotsize \/ ~s.markers) THEN "plotly: markers"
     ELSE IF s.kind = "plotly" /\ s.figure # s.isfigure THEN "plotly: figure or trace"
     ELSE ""
\* ------------------------------------------------------------------- frames
RgbNear(s, f, bytes) == \A y \in 1..Len(s.rgb[f]) : \A x \in 1..Len(s.rgb[f][y]) : \A j \in 1..3 :
                     Diff(Canon(s.rgb[f][y][x][j], bytes), 256 * s.outrgb[f][y][x][j]) <= 256 * 6
FlatRgb(s) == LET H == Len(s.rgb[1]) W == Len(s.rgb[1][1]) IN
              [k \in 1..(Len(s.rgb) * H * W) |-> s.rgb[((k - 1) \div (H * W)) + 1][(((k - 1) \div W) % H) + 1][((k - 1) % W) + 1]]
MaxD(s) == LET S == {s.dep[f][y][x] : f \in 1..Len(s.dep), y \in 1..Len(s.dep[1]), x \in 1..Len(s.dep[1][1])} IN CHOOSE m \in S : \A d \in S : d <= m
DepNear(s, f, ex) == \A y \in 1..Len(s.dep[f]) : \A x \in 1..Len(s.dep[f][y]) : Diff(Level(s.dep[f][y][x], ex), s.outdep[f][y][x]) <= 4
Str(k) == ToString(k)
FramesC(s) ==
  LET L == Len(s.rgb)
      m == TLCEval(MaxD(s))
      ex == TLCEval(IF m = 0 THEN 0 ELSE ExpOf(m))
      bytes == TLCEval(Bytes(FlatRgb(s)))
      per == IF s.incdep THEN 2 ELSE 1
  IN IF s.figure # s.isfigure THEN "frames: figure or list"
     ELSE IF Len(s.names) # L THEN "frames: number of frames"
     ELSE IF s.names # [k \in 1..L |-> Str(k - 1)] THEN "frames: names"
     ELSE IF \E k \in 1..L : s.kinds[k] # (IF s.incdep THEN <<"color", "depth">> ELSE <<"color">>) THEN "frames: images of a frame"
     ELSE IF s.incdep /\ \E k \in 1..L : s.traces[k] # <<0, 1>> THEN "frames: traces"
     ELSE IF \E k \in 1..L : s.imnames[k] # [j \in 1..per |-> Str(k - 1)] THEN "frames: image names"
     ELSE IF Len(s.outrgb) # L \/ \E f \in 1..L : Len(s.outrgb[f]) # Len(s.rgb[f]) \/ Len(s.outrgb[f][1]) # Len(s.rgb[f][1]) THEN "frames: image size"
     ELSE IF \E f \in 1..L : ~RgbNear(s, f, bytes) THEN "frames: colours"
     ELSE IF s.incdep /\ (Len(s.outdep) # L \/ \E f \in 1..L : Len(s.outdep[f]) # Len(s.dep[f]) \/ Len(s.outdep[f][1]) # Len(s.dep[f][1]))
          THEN "frames: depth image size"
     ELSE IF s.incdep /\ m > 0 /\ \E f \in 1..L : s.scale[f] # ScaleText(ex) THEN "frames: depth scale"
     ELSE IF s.incdep /\ \E f \in 1..L : ~DepNear(s, f, ex) THEN "frames: depths"
     ELSE IF s.figure /\ ~s.first THEN "figure: first frame"
     ELSE IF s.figure /\ s.steps # [k \in 1..L |-> <<Str(k - 1), "animate">>] THEN "figure: slider"
     ELSE IF s.figure /\ s.dur # s.ms THEN "figure: time per frame"
     ELSE ""
Ops(s) == CASE s.op = "cloud" -> CloudC(s) [] s.op = "frames" -> FramesC(s)
            [] s.op = "quality" -> IF s.ok THEN "" ELSE s.what
            [] s.op = "refuse" -> IF s.raised THEN "" ELSE "accepted: " \o s.what
Clause(s) == IF s.fail # "" THEN s.op \o " failed: " \o s.fail
             ELSE IF s.mut THEN s.op \o " modified the object shown"
             ELSE Ops(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ (i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE]))
  /\ UNCHANGED t
=============================================================================
