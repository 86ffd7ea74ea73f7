------------------------------- MODULE RgbdMech -------------------------------
(***************************************************************************)
(* The caches behind RGBDImages: vertex, normal, world vertex and world    *)
(* normal maps and the valid mask are memoised and must be dropped exactly *)
(* when something they depend on is replaced.  Inputs are abstracted to    *)
(* versions (mod 2); a cache remembers the versions it was computed from.  *)
(* Coherent: a cache that is held was computed from the current inputs and *)
(* is in the current layout.                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Emit
VARIABLES dep, kk, pose, cf, pix, cache
vars == <<dep, kk, pose, cf, pix, cache>>
Maps == {"vert", "norm", "gvert", "gnorm", "valid"}
Nil == [held |-> FALSE]
NoPose == 9
Now(m) == [held |-> TRUE, cf |-> cf, dep |-> dep,
           kk |-> IF m = "valid" THEN 0 ELSE kk,
           pose |-> IF m \in {"gvert", "gnorm"} THEN pose ELSE NoPose]
Held(c) == [m \in Maps |-> c[m].held]
Shape == <<Held(cache), cf, pose = NoPose, pix>>
E(op) == Emit => PrintT(<<"EDGE", ToJson(<<Shape, op, <<Held(cache'), cf', pose' = NoPose, pix'>> >>)>>)

Init == /\ dep = 0 /\ kk = 0 /\ pose \in {0, NoPose} /\ cf \in BOOLEAN /\ pix = FALSE
        /\ cache = [m \in Maps |-> Nil]
        /\ Emit => PrintT(<<"INIT", ToJson(Shape)>>)

\* what reading a map computes on the way
Needs(m) == CASE m = "valid" -> {"valid"}
              [] m = "vert" -> {"vert", "valid"}
              [] m = "norm" -> {"norm", "vert", "valid"}
              [] m = "gvert" -> IF pose = NoPose THEN {"gvert", "vert", "valid"} ELSE {"gvert", "vert", "valid"}
              [] m = "gnorm" -> {"gnorm", "norm", "vert", "valid"}
\* a held map is returned as it is; otherwise its inputs are filled first
RECURSIVE Filled(_)
Filled(m) == IF cache[m].held THEN {}
             ELSE {m} \cup CASE m = "valid" -> {}
                             [] m = "vert" -> Filled("valid")
                             [] m = "norm" -> Filled("vert") \cup Filled("valid")
                             [] m = "gvert" -> Filled("vert") \cup (IF pose = NoPose THEN {} ELSE Filled("valid"))
                             [] m = "gnorm" -> Filled("norm")
Read(m) == /\ cache' = [x \in Maps |-> IF x \in Filled(m) THEN Now(x) ELSE cache[x]]
           /\ pix' = (pix \/ "vert" \in Filled(m))
           /\ UNCHANGED <<dep, kk, pose, cf>> /\ E([k |-> "read", m |-> m])
Drop(M) == cache' = [m \in Maps |-> IF m \in M THEN Nil ELSE cache[m]]
SetDep == /\ dep' = 1 - dep /\ Drop(Maps) /\ UNCHANGED <<kk, pose, cf, pix>> /\ E([k |-> "setdep"])
SetK == /\ kk' = 1 - kk /\ Drop(Maps \ {"valid"}) /\ UNCHANGED <<dep, pose, cf, pix>> /\ E([k |-> "setK"])
SetPoses == /\ pose' = (IF pose = NoPose THEN 0 ELSE 1 - pose) /\ Drop({"gvert", "gnorm"})
            /\ UNCHANGED <<dep, kk, cf, pix>> /\ E([k |-> "setposes"])
NoPoses == /\ pose # NoPose /\ pose' = NoPose /\ Drop({"gvert", "gnorm"})
           /\ UNCHANGED <<dep, kk, cf, pix>> /\ E([k |-> "noposes"])
SetRgb == UNCHANGED vars /\ E([k |-> "setrgb"])
Layout(c) == /\ cf' = c
             /\ cache' = [m \in Maps |-> IF cache[m].held THEN [cache[m] EXCEPT !.cf = c] ELSE Nil]
             /\ UNCHANGED <<dep, kk, pose, pix>> /\ E([k |-> "layout_", cf |-> c])
LayoutOf(c) == /\ cf' = c
               /\ cache' = [m \in Maps |-> IF cache[m].held THEN [cache[m] EXCEPT !.cf = c] ELSE Nil]
               /\ UNCHANGED <<dep, kk, pose, pix>> /\ E([k |-> "layout", cf |-> c])
Clone == UNCHANGED vars /\ E([k |-> "clone"])
\* selecting frames selects from every cache
Slice == UNCHANGED vars /\ E([k |-> "slice"])
ToCloud == /\ UNCHANGED <<dep, kk, pose, cf>>
           /\ IF cf THEN UNCHANGED <<cache, pix>>
              ELSE LET F == Filled("gvert") \cup Filled("gnorm") \cup Filled("valid")
                   IN cache' = [x \in Maps |-> IF x \in F THEN Now(x) ELSE cache[x]] /\ pix' = (pix \/ "vert" \in F)
           /\ E([k |-> "topc"])

Next == \/ \E m \in Maps : Read(m)
        \/ SetDep \/ SetK \/ SetPoses \/ NoPoses \/ SetRgb \/ Clone \/ Slice \/ ToCloud
        \/ \E c \in BOOLEAN : Layout(c) \/ LayoutOf(c)
Coherent == \A m \in Maps : cache[m].held => cache[m] = Now(m)
\* negative controls: the stale mask of the original class, a pose setter
\* that keeps the world maps, a layout change that forgets a map
BadSetDep == dep' = 1 - dep /\ Drop(Maps \ {"valid"}) /\ UNCHANGED <<kk, pose, cf, pix>>
BadSetPoses == pose' = 1 /\ pose = 0 /\ Drop({"gvert"}) /\ UNCHANGED <<dep, kk, cf, pix>>
BadLayout == cf' = ~cf /\ UNCHANGED <<dep, kk, pose, pix, cache>>
BadNext1 == Next \/ BadSetDep
BadNext2 == Next \/ BadSetPoses
BadNext3 == Next \/ BadLayout
=============================================================================
