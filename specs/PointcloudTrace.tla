--------------------------- MODULE PointcloudTrace ---------------------------
(* Judges recorded behaviours of the real Pointclouds class: a trace is a   *)
(* list of API calls; each carries its outcome and every view of every      *)
(* object whose observable state changed since it was last shown.  An       *)
(* object that is not shown must be unchanged in the specification too.     *)
EXTENDS PointcloudOps, Json, TLC

Traces == JsonDeserialize("traces.json")
VARIABLES t, i, S,
          G    \* sharing group of each slot: what an in-place write to the
               \* tensors of one object may legitimately reach
vars == <<t, i, S, G>>

NSlots == 8
Verdict(x) == PrintT(<<"VERDICT", ToJson(x)>>)

Shown(s) == {s.obs[k].s : k \in 1..Len(s.obs)}
ViewNames == <<"len", "has", "nf", "num", "pl", "nl", "cl", "fl", "pp", "np", "cp", "fp", "mask">>
\* the first view that differs from what the specification says
Differs(o, w) ==
  LET bad == {k \in 1..Len(ViewNames) : o[ViewNames[k]] # w[ViewNames[k]]}
  IN IF bad = {} THEN "" ELSE ViewNames[CHOOSE k \in bad : \A j \in bad : k <= j]
ObsClause(o, S2) ==
  LET w == Views(S2[o.s])
      bad == {k \in 1..Len(o.views) : Differs(o.views[k], w) # ""}
  IN IF bad = {} THEN ""
     ELSE "slot " \o ToString(o.s) \o " view " \o Differs(o.views[CHOOSE k \in bad : TRUE], w)

(* clones, new objects and receivers of an append get tensors of their own *)
Fresh == i
Groups(s) ==
  CASE s.op \in {"new", "empty", "clone"} -> [G EXCEPT ![s.r] = Fresh]
    [] s.op = "append" -> IF Has(S[s.y], "p") THEN [G EXCEPT ![s.x] = Fresh] ELSE G
    [] "r" \in DOMAIN s -> [G EXCEPT ![s.r] = G[s.x]]
    [] OTHER -> G
Dead(s) == IF s.op = "poke" THEN {k \in 1..NSlots : G[k] = G[s.x]} ELSE {}

(* moved to another device: same attributes, every tensor there *)
ShapeOf(v, a) == IF Has(v, a) THEN <<B(v), N(v), Width(v, a)>> ELSE <<>>
MetaOk(v, m) ==
  /\ m.len = B(v) /\ m.has = Views(v).has /\ m.nf = Views(v).nf
  /\ m.shapes = <<ShapeOf(v, "p"), ShapeOf(v, "n"), ShapeOf(v, "c"), ShapeOf(v, "f")>>
  /\ \A k \in 1..Len(m.dev) : m.dev[k] = "meta"
  /\ \A k \in 1..Len(m.srcdev) : m.srcdev[k] = "cpu"
(* detaching cuts every attribute from the graph and keeps contents *)
DetachOk(v, d) ==
  /\ \A k \in 1..Len(d.src) : d.src[k]
  /\ \A k \in 1..Len(d.res) : ~d.res[k]
  /\ Differs(d.views, Views(v)) = ""

Clause(s, r) ==
  IF s.op = "poke" /\ {s.dead[k] : k \in 1..Len(s.dead)} # Dead(s) THEN "harness: groups differ"
  ELSE IF s.out = "ok" /\ ~r.ok THEN s.op \o ": accepted but must be refused"
  ELSE IF s.out # "ok" /\ r.ok THEN s.op \o ": failed (" \o s.out \o ")"
  ELSE IF \E k \in 1..NSlots : r.S[k] # S[k] /\ k \notin Shown(s)
       THEN s.op \o ": no visible effect on slot " \o ToString(CHOOSE k \in 1..NSlots : r.S[k] # S[k] /\ k \notin Shown(s))
  ELSE LET bad == {k \in 1..Len(s.obs) : ObsClause(s.obs[k], r.S) # ""}
       IN IF bad # {} THEN s.op \o ": " \o ObsClause(s.obs[CHOOSE k \in bad : TRUE], r.S)
          ELSE IF s.op = "read" /\ s.val # Views(S[s.x])[s.view] THEN "read " \o s.view
          ELSE IF s.op = "tometa" /\ ~MetaOk(S[s.x], s.meta) THEN "tometa: attributes lost or left behind"
          ELSE IF s.op = "detachgrad" /\ ~DetachOk(S[s.x], s.det) THEN "detach: graph or contents"
          ELSE IF s.extra # "" THEN s.op \o ": " \o s.extra
          ELSE ""

TraceInit == t \in 1..Len(Traces) /\ i = 1 /\ S = [k \in 1..NSlots |-> Empty] /\ G = [k \in 1..NSlots |-> -k]
TraceNext ==
  /\ i <= Len(Traces[t].steps)
  /\ LET s == Traces[t].steps[i]
         r == Apply(S, s)
         c == Clause(s, r)
     IN IF c # ""
        THEN /\ Verdict([id |-> Traces[t].id, ok |-> FALSE, step |-> i, clause |-> c])
             /\ i' = Len(Traces[t].steps) + 2 /\ S' = S /\ G' = G
        ELSE /\ i' = i + 1
             /\ S' = [k \in 1..NSlots |-> IF k \in Dead(s) THEN Empty ELSE r.S[k]]
             /\ G' = IF r.ok THEN [k \in 1..NSlots |-> IF k \in Dead(s) THEN -k ELSE Groups(s)[k]] ELSE G
             /\ i = Len(Traces[t].steps) => Verdict([id |-> Traces[t].id, ok |-> TRUE])
  /\ UNCHANGED t
=============================================================================
