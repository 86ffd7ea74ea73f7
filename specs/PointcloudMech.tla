---------------------------- MODULE PointcloudMech ----------------------------
(***************************************************************************)
(* The representation behind Pointclouds: each attribute may be held as a  *)
(* list, as a padded tensor, or both, filled in lazily; the padding mask   *)
(* and the has-attribute flags are memoised.  Contents are abstracted to   *)
(* versions (mod 2), so that a cache that survives a change is visible.    *)
(* abs/sz is the abstract batch of PointcloudOps at that abstraction; the  *)
(* invariant Coherent says every view computed from the representation is  *)
(* the view of the abstract batch.                                         *)
(* With Emit, every transition is printed: the driver walks all of them    *)
(* through the real class (with VIEW Shape: one walk per representation    *)
(* state rather than per version).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Attrs,      \* subset of {"p","n","c","f"}, containing "p"
          Emit

None == 99
VARIABLES abs,   \* attribute -> version, None if absent
          sz,    \* "eq" / "rag": all clouds of one size or not, <<>> empty batch
          L, P,  \* attribute -> version held as list / as padded tensor, or None
          memo,  \* attribute -> "unk", TRUE, FALSE
          mask,  \* sizes the memoised mask was computed for, or "none"
          rsz    \* sizes recorded by the object (num_points, N, equisized)
vars == <<abs, sz, L, P, memo, mask, rsz>>
Shape == <<[a \in Attrs |-> <<L[a] # None, P[a] # None>>], memo, mask, sz>>
ShapeJson(l, p, m, k, s) == <<[a \in Attrs |-> <<l[a] # None, p[a] # None>>], m, k, s>>

Next1(v) == (v + 1) % 2
E(op) == Emit => PrintT(<<"EDGE", ToJson(<<Shape, op, ShapeJson(L', P', memo', mask', sz')>>)>>)

Init == /\ abs = [a \in Attrs |-> None] /\ sz = "none"
        /\ L = [a \in Attrs |-> None] /\ P = [a \in Attrs |-> None]
        /\ memo = [a \in Attrs |-> "unk"] /\ mask = "none" /\ rsz = "none"
Exists == sz # "none"

(* lazily filled views *)
FillL(a) == [L EXCEPT ![a] = IF L[a] = None THEN P[a] ELSE L[a]]
FillP == [a \in Attrs |-> IF P[a] = None THEN L[a] ELSE P[a]]
HasNow(a) == IF memo[a] = "unk" THEN (IF L[a] # None \/ P[a] # None THEN "T" ELSE "F") ELSE memo[a]

New(form, has, s) ==
  /\ ~Exists
  /\ "p" \in has
  /\ abs' = [a \in Attrs |-> IF a \in has THEN 0 ELSE None]
  /\ L' = [a \in Attrs |-> IF form = "list" /\ a \in has THEN 0 ELSE None]
  /\ P' = [a \in Attrs |-> IF form = "padded" /\ a \in has THEN 0 ELSE None]
  /\ form = "padded" => s = "eq"
  /\ sz' = s /\ rsz' = s /\ mask' = "none" /\ memo' = [a \in Attrs |-> "unk"]
  /\ E([k |-> "new", form |-> form, has |-> has, sz |-> s])

ReadList(a) == /\ Exists /\ L' = FillL(a) /\ UNCHANGED <<abs, sz, P, memo, mask, rsz>>
               /\ E([k |-> "rl", a |-> a])
ReadPad(a) == /\ Exists /\ P' = FillP /\ UNCHANGED <<abs, sz, L, memo, mask, rsz>>
              /\ E([k |-> "rp", a |-> a])
ReadMask == /\ Exists /\ mask' = (IF mask = "none" THEN rsz ELSE mask)
            /\ memo' = [memo EXCEPT !["p"] = HasNow("p")]
            /\ UNCHANGED <<abs, sz, L, P, rsz>> /\ E([k |-> "rm"])
ReadHas == /\ Exists /\ memo' = [a \in Attrs |-> HasNow(a)]
           /\ UNCHANGED <<abs, sz, L, P, mask, rsz>> /\ E([k |-> "rh"])

SetList(a) ==
  LET v == IF abs[a] = None THEN 0 ELSE Next1(abs[a])
  IN /\ Exists
     /\ abs' = [abs EXCEPT ![a] = v]
     /\ L' = [FillL("p") EXCEPT ![a] = v] /\ P' = [P EXCEPT ![a] = None]
     /\ memo' = [memo EXCEPT !["p"] = "T", ![a] = "T"]
     /\ UNCHANGED <<sz, mask, rsz>> /\ E([k |-> "sl", a |-> a])
SetPad(a) ==
  LET v == IF abs[a] = None THEN 0 ELSE Next1(abs[a])
  IN /\ Exists
     /\ abs' = [abs EXCEPT ![a] = v]
     /\ P' = [FillP EXCEPT ![a] = v] /\ L' = [L EXCEPT ![a] = None]
     /\ memo' = [memo EXCEPT !["p"] = "T", ![a] = "T"]
     /\ UNCHANGED <<sz, mask, rsz>> /\ E([k |-> "sp", a |-> a])

\* offset, scale and projection: read padded points and the mask, drop the list
Arith(op) ==
  /\ Exists
  /\ abs' = [abs EXCEPT !["p"] = Next1(abs["p"])]
  /\ P' = [FillP EXCEPT !["p"] = Next1(FillP["p"])]
  /\ L' = [L EXCEPT !["p"] = None]
  /\ mask' = (IF mask = "none" THEN rsz ELSE mask)
  /\ memo' = [memo EXCEPT !["p"] = "T"]
  /\ UNCHANGED <<sz, rsz>> /\ E([k |-> "arith", op |-> op])
Turned == Attrs \cap {"p", "n"}
Rotate(op) ==
  /\ Exists
  /\ abs' = [a \in Attrs |-> IF a \in Turned /\ abs[a] # None THEN Next1(abs[a]) ELSE abs[a]]
  /\ P' = [a \in Attrs |-> IF a \in Turned /\ FillP[a] # None THEN Next1(FillP[a]) ELSE FillP[a]]
  /\ L' = [a \in Attrs |-> IF a \in Turned THEN None ELSE L[a]]
  /\ memo' = [memo EXCEPT !["p"] = "T"]
  /\ mask' = (IF op = "transform_" /\ mask = "none" THEN rsz ELSE mask)
  /\ UNCHANGED <<sz, rsz>> /\ E([k |-> "rigid", op |-> op])

\* append another batch of the same attributes; sizes change
AppendTo(s) ==
  /\ Exists
  /\ abs' = [a \in Attrs |-> IF abs[a] = None THEN None ELSE Next1(abs[a])]
  /\ LET held == [a \in Attrs |-> IF L[a] # None THEN L[a] ELSE P[a]]
         on == [a \in Attrs |-> HasNow(a) = "T"]
     IN /\ L' = [a \in Attrs |-> IF on[a] THEN Next1(held[a]) ELSE L[a]]
        /\ P' = [a \in Attrs |-> IF on[a] THEN None ELSE P[a]]
  /\ memo' = [a \in Attrs |-> HasNow(a)]
  /\ mask' = "none" /\ sz' = s /\ rsz' = s
  /\ E([k |-> "append", sz |-> s])

\* the object is replaced by its clone / by a selection of all of its clouds
Clone ==
  /\ Exists
  /\ IF L["p"] # None
     THEN P' = P
     ELSE P' = FillP
  /\ L' = (IF L["p"] # None THEN L ELSE [a \in Attrs |-> None])
  /\ memo' = [a \in Attrs |-> "unk"]
  /\ UNCHANGED <<abs, sz, mask, rsz>> /\ E([k |-> "clone"])
SelectAll ==
  /\ Exists
  /\ L' = [a \in Attrs |-> IF HasNow(a) = "T" THEN IF L[a] # None THEN L[a] ELSE P[a] ELSE None]
  /\ P' = [a \in Attrs |-> None]
  /\ memo' = [a \in Attrs |-> "unk"] /\ mask' = "none"
  /\ UNCHANGED <<abs, sz, rsz>> /\ E([k |-> "all"])
\* a new empty batch that receives this one by append
IntoEmpty ==
  /\ Exists
  /\ L' = [a \in Attrs |-> IF HasNow(a) = "T" THEN IF L[a] # None THEN L[a] ELSE P[a] ELSE None]
  /\ memo' = [a \in Attrs |-> HasNow(a)]
  /\ UNCHANGED <<abs, sz, P, mask, rsz>> /\ E([k |-> "into"])

Next ==
  \/ \E form \in {"list", "padded"}, has \in SUBSET Attrs, s \in {"eq", "rag"} : New(form, has, s)
  \/ \E a \in Attrs : ReadList(a) \/ ReadPad(a) \/ SetList(a) \/ SetPad(a)
  \/ ReadMask \/ ReadHas \/ Clone \/ SelectAll \/ IntoEmpty
  \/ \E op \in {"offset_", "scale_"} : Arith(op)
  \/ \E op \in {"rotate_", "transform_"} : Rotate(op)
  \/ \E s \in {"eq", "rag"} : AppendTo(s)

Coherent ==
  /\ rsz = sz
  /\ \A a \in Attrs :
       /\ (L[a] = None /\ P[a] = None) <=> abs[a] = None
       /\ L[a] # None => L[a] = abs[a]
       /\ P[a] # None => P[a] = abs[a]
       /\ memo[a] = "T" => abs[a] # None
       /\ memo[a] = "F" => abs[a] = None
  /\ mask # "none" => mask = sz
\* the defects found in the original class, kept as named deviations: with
\* either of these in place of the action above TLC reports a Coherent failure
BadSetList(a) ==   \* padded tensor not invalidated
  /\ Exists /\ abs' = [abs EXCEPT ![a] = 1] /\ abs[a] = 0
  /\ L' = [L EXCEPT ![a] = 1] /\ UNCHANGED <<sz, P, memo, mask, rsz>>
Spec == Init /\ [][Next]_vars
BadNext == Next \/ \E a \in Attrs : BadSetList(a)
=============================================================================
