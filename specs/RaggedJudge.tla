------------------------------ MODULE RaggedJudge ------------------------------
(* Judges recorded conversions and downsamplings.                             *)
EXTENDS RaggedOps, Json, TLC
Traces == JsonDeserialize("traces.json")
VARIABLES t, i
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)
SplitSizes(s) == IF Len(s.sizes) = 0 THEN [k \in 1..s.x.b |-> <<>>] ELSE s.sizes
Seqs(s, name) == [k \in 1..Len(s.clouds) |-> s.clouds[k][name]]
PadC(s) ==
  LET want == IF s.equi THEN <<s.items[1].n, s.items[1].c>> ELSE IF Len(s.size) = 0 THEN Natural(s.items) ELSE s.size
  IN IF ~s.dtype THEN "list_to_padded: element type"
     ELSE IF <<s.out.b, s.out.n, s.out.c>> # <<Len(s.items), want[1], want[2]>> THEN "list_to_padded: shape"
     ELSE IF s.out.v # Pad(s.items, want, s.pv).v THEN "list_to_padded: values" ELSE ""
SplitC(s) ==
  LET want == Split(s.x, SplitSizes(s)) IN
  IF ~s.dtype THEN "padded_to_list: element type"
  ELSE IF Len(s.out) # s.x.b THEN "padded_to_list: number of items"
  ELSE IF \E k \in 1..Len(want) : s.out[k].n # want[k].n \/ s.out[k].c # want[k].c THEN "padded_to_list: shapes"
  ELSE IF \E k \in 1..Len(want) : s.out[k].v # want[k].v THEN "padded_to_list: values" ELSE ""
RoundC(s) ==
  IF Len(s.out) # Len(s.items) THEN "round trip: number of items"
  ELSE IF \E k \in 1..Len(s.items) : Solid(s.items[k]) /\ ~Same(s.out[k], s.items[k]) THEN "round trip: items" ELSE ""
Attr == {"points", "normals", "colors"}
CloudsC(s) ==
  LET ix == [b \in 1..Len(s.clouds) |-> Chosen(s.table, b, s.r)] IN
  IF Len(s.out) # Len(s.clouds) THEN "downsample_pointclouds: number of clouds"
  ELSE IF \E b \in 1..Len(s.clouds) : Len(s.out[b].points) # Len(ix[b]) THEN "downsample_pointclouds: number of points"
  ELSE IF \E b \in 1..Len(s.clouds) : s.out[b].points # Gather(s.clouds[b].points, ix[b]) THEN "downsample_pointclouds: points"
  ELSE IF \E a \in {"normals", "colors"} : a \in s.has /\ \E b \in 1..Len(s.clouds) : s.out[b][a] # Gather(s.clouds[b][a], ix[b])
       THEN "downsample_pointclouds: attributes"
  ELSE IF \E a \in {"normals", "colors"} : a \notin s.has /\ s.outhas[a] THEN "downsample_pointclouds: attributes from nowhere"
  ELSE ""
At(m, p) == m[p[1] + 1][p[2] + 1]
FrameC(s) ==
  LET px == [b \in 1..Len(s.frames) |-> GridPixels(Len(s.frames[b].valid), Len(s.frames[b].valid[1]), s.r, s.frames[b].valid)] IN
  IF Len(s.out) # Len(s.frames) THEN "downsample_rgbdimages: number of clouds"
  ELSE IF \E b \in 1..Len(px) : Len(s.out[b].points) # Len(px[b]) THEN "downsample_rgbdimages: number of points"
  ELSE IF \E b \in 1..Len(px) : \E a \in Attr : s.out[b][a] # [k \in 1..Len(px[b]) |-> At(s.frames[b][a], px[b][k])]
       THEN "downsample_rgbdimages: points, normals or colours" ELSE ""
Ops(s) == CASE s.op = "pad" -> PadC(s) [] s.op = "split" -> SplitC(s) [] s.op = "round" -> RoundC(s)
            [] s.op = "clouds" -> CloudsC([s EXCEPT !.has = {s.has[k] : k \in 1..Len(s.has)}]) [] s.op = "frames" -> FrameC(s)
            [] s.op = "refuse" -> IF s.raised THEN "" ELSE "accepted: " \o s.what
Clause(s) == IF s.fail # "" THEN s.op \o " failed: " \o s.fail
             ELSE IF s.mut THEN s.op \o " modified its arguments"
             ELSE Ops(s)
TraceInit == t \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET c == Clause(Traces[t].steps[i])
     IN IF c # "" THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c]) /\ i' = Len(Traces[t].steps) + 2
        ELSE /\ i' = i + 1
             /\ (i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE]))
  /\ UNCHANGED t
=============================================================================
