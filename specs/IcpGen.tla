-------------------------------- MODULE IcpGen --------------------------------
(* One-axis scenarios: one or two sources, two targets competing for them; a  *)
(* far target nearer in space makes a full step raise the error, so that      *)
(* rejections happen.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT Big
VARIABLE c
Tg == {[x |-> x, r2 |-> r] : x \in {-3, 1, 2, 3, 4, 7}, r \in {0, 4, 36}}
Damps == {<<1, 1024>>, <<1, 1>>, <<3, 1>>, <<10, 1>>}
Lim == IF Big THEN {0, 25, 100, 196} ELSE {0, 196}
Cases == {[s |-> s, t |-> <<a, b>>, dn |-> d[1], dd |-> d[2], th2 |-> l] :
            s \in {<<0>>, <<0, 1>>}, a \in Tg, b \in Tg, d \in Damps, l \in Lim}
Sq(a) == a * a
Nearest(s, X, t) == IF Sq(t[1].x - s - X) + t[1].r2 <= Sq(t[2].x - s - X) + t[2].r2 THEN 1 ELSE 2
\* the nearest target's plane distance is at most its distance
Law == \A k \in 1..Len(c.s) : \A X \in -8..8 :
         LET i == Nearest(c.s[k], X, c.t)
         IN \A m \in 1..2 : Sq(c.t[i].x - c.s[k] - X) <= Sq(c.t[m].x - c.s[k] - X) + c.t[m].r2
\* negative control: the nearest target does not always have the lowest plane error
BadLaw == \A k \in 1..Len(c.s) : \A X \in -8..8 :
            LET i == Nearest(c.s[k], X, c.t) IN \A m \in 1..2 : Sq(c.t[i].x - c.s[k] - X) <= Sq(c.t[m].x - c.s[k] - X)
\* a full first step that leaves the error exactly as it was
Equal(k) == /\ Len(k.s) = 1 /\ k.dn = k.dd /\ k.th2 # 100 /\ k.th2 # 25
            /\ LET a == Nearest(0, 0, k.t) X == k.t[a].x \div 2 b == Nearest(0, X, k.t)
               IN X # 0 /\ k.t[a].x % 2 = 0 /\ a # b /\ Sq(k.t[b].x - X) = Sq(k.t[a].x)
Init == c \in Cases /\ PrintT(<<"CASE", ToJson(c @@ [eq |-> Equal(c)])>>)
Next == UNCHANGED c
=============================================================================
