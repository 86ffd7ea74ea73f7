-------------------------------- MODULE CfgOps --------------------------------
(***************************************************************************)
(* Configuration trees.  A leaf is [t, v] with t a type name and v a text;   *)
(* a node is [t |-> "node", fz, nw, k, s]: frozen, new keys allowed, keys     *)
(* and subtrees in parallel.  A root also has deprecated and renamed keys,   *)
(* given separately as sets of dotted names.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Range(f) == {f[i] : i \in DOMAIN f}
IsNode(x) == x.t = "node"
Has(n, key) == \E i \in 1..Len(n.k) : n.k[i] = key
At(n, key) == n.s[CHOOSE i \in 1..Len(n.k) : n.k[i] = key]
Put(n, key, v) == IF Has(n, key) THEN LET j == CHOOSE i \in 1..Len(n.k) : n.k[i] = key IN [n EXCEPT !.s = [i \in 1..Len(n.s) |-> IF i = j THEN v ELSE n.s[i]]]
                  ELSE [n EXCEPT !.k = Append(n.k, key), !.s = Append(n.s, v)]
\* equality up to the order of keys
RECURSIVE Eq(_, _)
Eq(a, b) == IF IsNode(a) /\ IsNode(b)
            THEN /\ a.fz = b.fz /\ a.nw = b.nw /\ Range(a.k) = Range(b.k) /\ Len(a.k) = Len(b.k)
                 /\ \A key \in Range(a.k) : Eq(At(a, key), At(b, key))
            ELSE ~IsNode(a) /\ ~IsNode(b) /\ a.t = b.t /\ a.v = b.v
\* equality of contents, ignoring flags
RECURSIVE EqC(_, _)
EqC(a, b) == IF IsNode(a) /\ IsNode(b)
             THEN /\ Range(a.k) = Range(b.k) /\ Len(a.k) = Len(b.k) /\ \A key \in Range(a.k) : EqC(At(a, key), At(b, key))
             ELSE ~IsNode(a) /\ ~IsNode(b) /\ a.t = b.t /\ a.v = b.v
\* a leaf's written-down (yaml) form: tuples become lists
RECURSIVE EqY(_, _)
EqY(a, b) == IF IsNode(a) /\ IsNode(b)
             THEN /\ Range(a.k) = Range(b.k) /\ Len(a.k) = Len(b.k) /\ \A key \in Range(a.k) : EqY(At(a, key), At(b, key))
             ELSE ~IsNode(a) /\ ~IsNode(b) /\ (IF a.t = "tuple" THEN "list" ELSE a.t) = b.t /\ a.y = b.v
(* subtree at a path of keys *)
RECURSIVE Sub(_, _)
Sub(n, p) == IF p = <<>> THEN n ELSE Sub(At(n, p[1]), Tail(p))
RECURSIVE PathIn(_, _)
PathIn(n, p) == IF p = <<>> THEN TRUE ELSE IF ~IsNode(n) THEN FALSE ELSE IF ~Has(n, p[1]) THEN FALSE ELSE PathIn(At(n, p[1]), Tail(p))
RECURSIVE Upd(_, _, _)
Upd(n, p, v) == IF p = <<>> THEN v ELSE Put(n, p[1], Upd(At(n, p[1]), Tail(p), v))
RECURSIVE Freeze(_, _)
Freeze(n, f) == IF IsNode(n) THEN [n EXCEPT !.fz = f, !.s = [i \in 1..Len(n.s) |-> Freeze(n.s[i], f)]] ELSE n
\* what a new node made of a given one is: nothing frozen, no new keys
RECURSIVE Fresh(_)
Fresh(n) == IF IsNode(n) THEN [n EXCEPT !.fz = FALSE, !.nw = FALSE, !.s = [i \in 1..Len(n.s) |-> Fresh(n.s[i])]] ELSE n
Dot(p, key) == IF p = "" THEN key ELSE p \o "." \o key

(* ---------------------------------------------------------------- types   *)
Compatible(new, old) == \/ new.t = old.t \/ {new.t, old.t} = {"list", "tuple"}
Cast(new, old) == IF new.t = old.t THEN new ELSE [new EXCEPT !.t = old.t, !.v = new.c]
(* ---------------------------------------------------------------- merging *)
\* what happens to one named item: "set", "into", "skip", "refuse" or "free"
\* (a deprecated or renamed key that exists or may be added: unspecified)
Item(b, key, v, full, dep, ren) ==
  IF Has(b, key)
  THEN IF ~Compatible(v, At(b, key)) THEN "refuse"
       ELSE IF IsNode(v) THEN "into" ELSE IF b.fz THEN "refuse" ELSE "set"
  ELSE IF b.nw THEN (IF b.fz THEN "refuse" ELSE "set")
  ELSE IF full \in dep THEN "skip" ELSE "refuse"
RECURSIVE Merge(_, _, _, _, _)
\* every mergeable item merged: [tree, bad]; bad: something had to be refused
Merge(b, a, p, dep, ren) ==
  LET RECURSIVE Go(_, _, _)
      Go(i, n, bad) ==
        IF i > Len(a.k) THEN [tree |-> n, bad |-> bad]
        ELSE LET key == a.k[i] v == a.s[i] full == Dot(p, key) what == Item(n, key, v, full, dep, ren)
             IN CASE what = "set" -> Go(i + 1, Put(n, key, IF Has(n, key) THEN Cast(v, At(n, key)) ELSE Fresh(v)), bad)
                  [] what = "into" -> LET r == Merge(At(n, key), v, full, dep, ren) IN Go(i + 1, Put(n, key, r.tree), bad \/ r.bad)
                  [] what = "skip" -> Go(i + 1, n, bad)
                  [] what = "refuse" -> Go(i + 1, n, TRUE)
  IN Go(1, b, FALSE)
\* after a refused merge: every key as before or as merged
RECURSIVE Between(_, _, _)
Between(pre, best, post) ==
  /\ IsNode(post) /\ post.fz = pre.fz /\ post.nw = pre.nw
  /\ Range(pre.k) \subseteq Range(post.k) /\ Range(post.k) \subseteq Range(best.k) /\ Len(post.k) = Cardinality(Range(post.k))
  /\ \A key \in Range(post.k) :
       IF Has(pre, key) /\ IsNode(At(pre, key)) THEN Between(At(pre, key), At(best, key), At(post, key))
       ELSE \/ Eq(At(post, key), At(best, key)) \/ (Has(pre, key) /\ Eq(At(post, key), At(pre, key)))
MergeOk(pre, a, dep, ren, post, refused) ==
  LET r == Merge(pre, a, "", dep, ren)
  IN IF r.bad THEN refused /\ Between(pre, r.tree, post) ELSE ~refused /\ Eq(post, r.tree)
(* ---------------------------------------------------------- override lists *)
\* one pair: [p: path, full: dotted name, v]
One(n, o, dep, ren) ==
  IF o.full \in dep THEN [tree |-> n, bad |-> FALSE]
  ELSE IF o.full \in ren \/ ~PathIn(n, o.p) THEN [tree |-> n, bad |-> TRUE]
  ELSE LET par == SubSeq(o.p, 1, Len(o.p) - 1) old == Sub(n, o.p)
       IN IF ~Compatible(o.v, old) \/ Sub(n, par).fz THEN [tree |-> n, bad |-> TRUE]
          ELSE [tree |-> Upd(n, o.p, IF IsNode(o.v) THEN Fresh(o.v) ELSE Cast(o.v, old)), bad |-> FALSE]
RECURSIVE States(_, _, _, _)
\* states after each prefix up to the first refusal
States(n, os, dep, ren) ==
  IF os = <<>> THEN <<n>>
  ELSE LET r == One(n, os[1], dep, ren) IN IF r.bad THEN <<n>> ELSE <<n>> \o States(r.tree, Tail(os), dep, ren)
ListOk(pre, os, odd, dep, ren, post, refused) ==
  LET S == States(pre, os, dep, ren)
  IN IF odd THEN refused /\ Eq(post, pre)
     ELSE IF Len(S) = Len(os) + 1 THEN ~refused /\ Eq(post, S[Len(S)])
     ELSE refused /\ \E i \in 1..Len(S) : Eq(post, S[i])
(* -------------------------------------------------------------- assignment *)
Valid == {"int", "float", "str", "bool", "list", "tuple", "node"}
\* attribute key of the node at path p
SetRefused(n, p, internal, v) == Sub(n, p).fz \/ internal \/ v.t \notin Valid
SetOk(pre, p, key, internal, v, post, refused) ==
  IF SetRefused(pre, p, internal, v) THEN refused /\ Eq(post, pre)
  ELSE ~refused /\ Eq(post, Upd(pre, p, Put(Sub(pre, p), key, v)))
(* nothing in a frozen node differs *)
RECURSIVE FrozenKept(_, _)
FrozenKept(pre, post) ==
  IF ~IsNode(pre) THEN TRUE
  ELSE IF pre.fz THEN /\ IsNode(post) /\ Range(post.k) = Range(pre.k) /\ post.fz
                      /\ \A key \in Range(pre.k) : IF IsNode(At(pre, key)) THEN IsNode(At(post, key)) /\ FrozenKept(At(pre, key), At(post, key))
                                                   ELSE ~IsNode(At(post, key)) /\ At(post, key).t = At(pre, key).t /\ At(post, key).v = At(pre, key).v
  ELSE \A key \in Range(pre.k) : (IsNode(post) /\ Has(post, key)) => FrozenKept(At(pre, key), At(post, key))
=============================================================================
