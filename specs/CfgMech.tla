-------------------------------- MODULE CfgMech --------------------------------
(* Two configurations (an original and its clone) under every sequence of     *)
(* assignments, merges, overrides, freezing and cloning on a small tree.      *)
EXTENDS CfgOps, TLC, Json
CONSTANTS Depth, Emit, Level
VARIABLES cfg, hist, last
vars == <<cfg, hist, last>>
Leaf(t, v) == [t |-> t, v |-> v, c |-> v, y |-> v]
Node(ks, ss, nw) == [t |-> "node", fz |-> FALSE, nw |-> nw, k |-> ks, s |-> ss]
Small == Node(<<"A", "N">>, <<Leaf("int", "1"), Node(<<"B", "M">>, <<Leaf("str", "x"), Node(<<"C">>, <<Leaf("list", "1")>>, FALSE)>>, TRUE)>>, FALSE)
Tiny == Node(<<"A", "N">>, <<Leaf("int", "1"), Node(<<"C">>, <<Leaf("list", "1")>>, TRUE)>>, FALSE)
Start == IF Level = 1 THEN Tiny ELSE Small
Dep == {"D", "N.D"}
Ren == {"R"}
\* patches a merge may bring
P(ks, ss) == Node(ks, ss, FALSE)
Patches == IF Level = 1
  THEN {P(<<"A">>, <<Leaf("int", "2")>>), P(<<"A">>, <<Leaf("str", "z")>>), P(<<"N">>, <<P(<<"C">>, <<Leaf("tuple", "2")>>)>>),
        P(<<"N">>, <<P(<<"E">>, <<Leaf("int", "3")>>)>>), P(<<"D">>, <<Leaf("int", "4")>>), P(<<"R">>, <<Leaf("int", "4")>>),
        P(<<"A", "X">>, <<Leaf("int", "2"), Leaf("int", "5")>>), P(<<"N", "A">>, <<P(<<"C", "E">>, <<Leaf("list", "2"), P(<<"F">>, <<Leaf("int", "6")>>)>>), Leaf("int", "2")>>)}
  ELSE {P(<<"A">>, <<Leaf("int", "2")>>), P(<<"N">>, <<P(<<"M">>, <<P(<<"C">>, <<Leaf("tuple", "2")>>)>>)>>), P(<<"N">>, <<P(<<"M">>, <<P(<<"E">>, <<Leaf("int", "3")>>)>>)>>),
        P(<<"N">>, <<P(<<"E", "B">>, <<Leaf("int", "3"), Leaf("str", "y")>>)>>), P(<<"N">>, <<Leaf("int", "3")>>), P(<<"A", "N">>, <<Leaf("int", "2"), P(<<"B">>, <<Leaf("int", "0")>>)>>)}
Ovr(p, f, v) == [p |-> p, full |-> f, v |-> v]
Lists == {<<Ovr(<<"A">>, "A", Leaf("int", "2"))>>, <<Ovr(<<"A">>, "A", Leaf("int", "2")), Ovr(<<"X">>, "X", Leaf("int", "5"))>>,
          <<Ovr(<<"N", "C">>, "N.C", Leaf("tuple", "2")), Ovr(<<"A">>, "A", Leaf("int", "1"))>>, <<Ovr(<<"D">>, "D", Leaf("int", "5"))>>,
          <<Ovr(<<"R">>, "R", Leaf("int", "5"))>>, <<Ovr(<<"N", "E">>, "N.E", Leaf("int", "3"))>>, <<Ovr(<<"A">>, "A", Leaf("str", "q"))>>}
Paths == {<<>>, <<"N">>} \cup (IF Level = 1 THEN {} ELSE {<<"N", "M">>})
Sets == {[p |-> <<>>, key |-> "A", v |-> Leaf("int", "2")], [p |-> <<"N">>, key |-> "C", v |-> Leaf("list", "9")], [p |-> <<"N">>, key |-> "G", v |-> Leaf("none", "0")]}
More == Len(hist) < Depth
Log(r) == hist' = Append(hist, r)
Init == cfg = <<Start>> /\ hist = <<>> /\ last = "none"
DoMerge(i, a, how) ==
  /\ More /\ LET r == Merge(cfg[i], a, "", Dep, Ren) IN cfg' = [cfg EXCEPT ![i] = r.tree] /\ last' = IF r.bad THEN "refused" ELSE "ok"
  /\ Log([op |-> "merge", i |-> i, a |-> a, how |-> how])
DoList(i, os) ==
  /\ More /\ LET S == States(cfg[i], os, Dep, Ren) IN cfg' = [cfg EXCEPT ![i] = S[Len(S)]] /\ last' = IF Len(S) = Len(os) + 1 THEN "ok" ELSE "refused"
  /\ Log([op |-> "list", i |-> i, os |-> os])
DoSet(i, x) ==
  /\ More /\ PathIn(cfg[i], x.p)
  /\ LET no == SetRefused(cfg[i], x.p, FALSE, x.v)
     IN cfg' = [cfg EXCEPT ![i] = IF no THEN cfg[i] ELSE Upd(cfg[i], x.p, Put(Sub(cfg[i], x.p), x.key, x.v))] /\ last' = IF no THEN "refused" ELSE "ok"
  /\ Log([op |-> "set", i |-> i, p |-> x.p, key |-> x.key, v |-> x.v])
DoFreeze(i, p, f) ==
  /\ More /\ PathIn(cfg[i], p) /\ cfg' = [cfg EXCEPT ![i] = Upd(cfg[i], p, Freeze(Sub(cfg[i], p), f))] /\ last' = "ok"
  /\ Log([op |-> IF f THEN "freeze" ELSE "defrost", i |-> i, p |-> p])
DoClone(i) == /\ More /\ Len(cfg) < 2 /\ cfg' = Append(cfg, cfg[i]) /\ last' = "ok" /\ Log([op |-> "clone", i |-> i])
Merging == \E i \in 1..Len(cfg), a \in Patches, how \in {"other", "file"} : DoMerge(i, a, how)
Overriding == \E i \in 1..Len(cfg), os \in Lists : DoList(i, os)
Assigning == \E i \in 1..Len(cfg), x \in Sets : DoSet(i, x)
Freezing == \E i \in 1..Len(cfg), p \in Paths, f \in BOOLEAN : DoFreeze(i, p, f)
Cloning == \E i \in 1..Len(cfg) : DoClone(i)
Next == Merging \/ Overriding \/ Assigning \/ Freezing \/ Cloning
(* only freezing and defrosting change flags; frozen nodes keep their contents *)
Step == hist'[Len(hist')]
IsMerge(r) == r.op \in {"merge", "list", "set"}
Kept == [][(Len(hist') > Len(hist) /\ IsMerge(Step)) => \A i \in 1..Len(cfg) : FrozenKept(cfg[i], cfg'[i])]_vars
\* an operation on one configuration leaves the other alone
Apart == [][Len(hist') > Len(hist) => \A i \in 1..Len(cfg) : (i # Step.i \/ Step.op = "clone") => Eq(cfg[i], cfg'[i])]_vars
\* keys not named keep their values; no key disappears
RECURSIVE Named(_, _)
Named(n, key) == Has(n, key)
RECURSIVE Unnamed(_, _, _)
Unnamed(pre, a, post) == \A key \in Range(pre.k) :
   /\ Has(post, key)
   /\ ~Has(a, key) => Eq(At(pre, key), At(post, key))
   /\ (Has(a, key) /\ IsNode(At(pre, key)) /\ IsNode(At(a, key))) => Unnamed(At(pre, key), At(a, key), At(post, key))
   /\ IsNode(At(pre, key)) = IsNode(At(post, key))
Others == [][(Len(hist') > Len(hist) /\ Step.op = "merge") => Unnamed(cfg[Step.i], Step.a, cfg'[Step.i])]_vars
\* types never change
RECURSIVE Typed(_, _)
Typed(pre, post) == IF IsNode(pre) THEN IsNode(post) /\ \A key \in Range(pre.k) : Has(post, key) /\ Typed(At(pre, key), At(post, key))
                    ELSE ~IsNode(post) /\ pre.t = post.t
Types == [][Len(hist') > Len(hist) => \A i \in 1..Len(cfg) : Typed(cfg[i], cfg'[i])]_vars
EmitOk == (Emit /\ Len(hist) = Depth) => PrintT(<<"HIST", ToJson(hist)>>)
NoBad == TRUE
(* negative controls *)
BadSet(i, x) == /\ More /\ PathIn(cfg[i], x.p) /\ cfg' = [cfg EXCEPT ![i] = Upd(cfg[i], x.p, Put(Sub(cfg[i], x.p), x.key, x.v))] /\ last' = "ok"
                /\ Log([op |-> "set", i |-> i, p |-> x.p, key |-> x.key, v |-> x.v])
BadNext == Freezing \/ \E i \in 1..Len(cfg), x \in Sets : BadSet(i, x)
BadMerge(i, a) == /\ More /\ cfg' = [cfg EXCEPT ![i] = [a EXCEPT !.fz = cfg[i].fz, !.nw = cfg[i].nw]] /\ last' = "ok"
                  /\ Log([op |-> "merge", i |-> i, a |-> a, how |-> "other"])
BadNext2 == \E i \in 1..Len(cfg), a \in Patches : BadMerge(i, a)
BadClone == Cloning \/ (\E x \in Sets : More /\ PathIn(cfg[1], x.p) /\ cfg' = [j \in 1..Len(cfg) |-> Upd(cfg[j], x.p, Put(Sub(cfg[j], x.p), x.key, x.v))] /\ last' = "ok"
                     /\ Log([op |-> "set", i |-> 1, p |-> x.p, key |-> x.key, v |-> x.v]))
=============================================================================
