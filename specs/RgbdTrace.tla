------------------------------ MODULE RgbdTrace ------------------------------
(* Judges recorded behaviours of the real RGBDImages class (see             *)
(* PointcloudTrace for the form of a trace).                                *)
EXTENDS RgbdOps, Json, TLC

Traces == JsonDeserialize("traces.json")
VARIABLES t, i, S, G
vars == <<t, i, S, G>>
NSlots == 5
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)

Shown(s) == {s.obs[k].s : k \in 1..Len(s.obs)}
ViewNames == <<"shape", "len", "cf", "hp", "rgb", "dep", "K", "poses", "valid", "vert", "norm", "gvert", "gnorm">>
Differs(o, v) ==
  LET bad == {k \in 1..Len(ViewNames) : ~ViewOk(v, ViewNames[k], o[ViewNames[k]])}
  IN IF bad = {} THEN "" ELSE ViewNames[CHOOSE k \in bad : \A j \in bad : k <= j]
ObsClause(o, S2) ==
  LET d == [k \in 1..Len(o.views) |-> Differs(o.views[k], S2[o.s])]
      bad == {k \in 1..Len(o.views) : d[k] # ""}
  IN IF bad = {} THEN "" ELSE "slot " \o ToString(o.s) \o " view " \o d[CHOOSE k \in bad : TRUE]

TopcOk(v, s) ==
  /\ Len(s.p) = v.B /\ Len(s.n) = v.B /\ Len(s.c) = v.B
  /\ \A b \in 1..v.B : CloudOk(v, b, s.glob, s.filter, s.p[b], s.n[b], s.c[b])

Fresh == i
Groups(s) ==
  CASE s.op \in {"new", "clone", "layout"} -> [G EXCEPT ![s.r] = Fresh]
    [] "r" \in DOMAIN s -> [G EXCEPT ![s.r] = G[s.x]]
    [] OTHER -> G
Dead(s) == IF s.op = "poke" THEN {k \in 1..NSlots : G[k] = G[s.x]} ELSE {}
MetaOk(v, m) ==
  /\ m.len = v.B /\ m.cf = v.cf /\ m.hp = v.hp
  /\ m.shapes = <<IF v.cf THEN <<v.B, v.L, 3, v.H, v.W>> ELSE <<v.B, v.L, v.H, v.W, 3>>,
                  IF v.cf THEN <<v.B, v.L, 1, v.H, v.W>> ELSE <<v.B, v.L, v.H, v.W, 1>>,
                  <<v.B, 1, 4, 4>>, IF v.hp THEN <<v.B, v.L, 4, 4>> ELSE <<>> >>
  /\ \A k \in 1..Len(m.dev) : m.dev[k] = "meta"
  /\ \A k \in 1..Len(m.srcdev) : m.srcdev[k] = "cpu"
DetachOk(v, d) ==
  /\ \A k \in 1..Len(d.src) : d.src[k]
  /\ \A k \in 1..Len(d.res) : ~d.res[k]
  /\ Differs(d.views, v) = ""

Clause(s, r) ==
  IF s.op = "poke" /\ {s.dead[k] : k \in 1..Len(s.dead)} # Dead(s) THEN "harness: groups differ"
  ELSE IF s.out = "ok" /\ ~r.ok THEN s.op \o ": accepted but must be refused"
  ELSE IF s.out # "ok" /\ (r.ok \/ s.out = "crash") THEN s.op \o ": failed (" \o s.out \o ")"
  ELSE IF \E k \in 1..NSlots : r.S[k] # S[k] /\ k \notin Shown(s)
       THEN s.op \o ": no visible effect on slot " \o ToString(CHOOSE k \in 1..NSlots : r.S[k] # S[k] /\ k \notin Shown(s))
  ELSE LET c == [k \in 1..Len(s.obs) |-> ObsClause(s.obs[k], r.S)]
           bad == {k \in 1..Len(s.obs) : c[k] # ""}
       IN IF bad # {} THEN s.op \o ": " \o c[CHOOSE k \in bad : TRUE]
          ELSE IF s.op = "read" /\ ~ViewOk(S[s.x], s.view, s.val) THEN "read " \o s.view
          ELSE IF s.op = "topc" /\ ~TopcOk(S[s.x], s) THEN "point cloud of a frame"
          ELSE IF s.op = "tometa" /\ ~MetaOk(S[s.x], s.meta) THEN "tometa: attributes lost or left behind"
          ELSE IF s.op = "detachgrad" /\ ~DetachOk(S[s.x], s.det) THEN "detach: graph or contents"
          ELSE IF s.extra # "" THEN s.op \o ": " \o s.extra
          ELSE ""

TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ S = [k \in 1..NSlots |-> NoObj] /\ G = [k \in 1..NSlots |-> -k]
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET s == Traces[t].steps[i]
         r == Apply(S, s)
         c == Clause(s, r)
     IN IF c # ""
        THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c])
             /\ i' = Len(Traces[t].steps) + 2 /\ S' = S /\ G' = G
        ELSE /\ i' = i + 1
             /\ S' = [k \in 1..NSlots |-> IF k \in Dead(s) THEN NoObj ELSE r.S[k]]
             /\ G' = IF r.ok THEN [k \in 1..NSlots |-> IF k \in Dead(s) THEN -k ELSE Groups(s)[k]] ELSE G
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
