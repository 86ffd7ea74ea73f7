------------------------------ MODULE FusionGen ------------------------------
(* Every competition of up to three map points for one pixel: each candidate *)
(* has a confidence, an offset from the pixel's vertex and a normal.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxCand
VARIABLE c
Offsets == {<<0, 0, 0>>, <<1, 0, 0>>, <<-1, 0, 0>>, <<0, 0, 2>>, <<0, 0, -2>>, <<0, 0, 4>>, <<0, 0, 5>>}
Cand == {[cc |-> k, o |-> o, good |-> g] : k \in {1, 2}, o \in Offsets, g \in BOOLEAN}
Lists == UNION {[1..n -> Cand] : n \in 1..MaxCand}
Th2 == 16
Sq(o) == o[1] * o[1] + o[2] * o[2] + o[3] * o[3]
Ok(x) == Sq(x.o) < Th2 /\ x.good
Idx(l) == {i \in 1..Len(l) : Ok(l[i])}
Pref(l, i, j) == l[i].cc > l[j].cc \/ (l[i].cc = l[j].cc /\ (Sq(l[i].o) < Sq(l[j].o) \/ (Sq(l[i].o) = Sq(l[j].o) /\ i < j)))
Chosen(l) == {i \in Idx(l) : \A j \in Idx(l) \ {i} : Pref(l, i, j)}
\* exactly one winner whenever there is a candidate: the preference is total
Law == /\ Cardinality(Chosen(c)) = (IF Idx(c) = {} THEN 0 ELSE 1)
       /\ \A i \in Chosen(c) : \A j \in Idx(c) : c[j].cc <= c[i].cc
\* negative control: without the point number the winner is not unique
Pref2(l, i, j) == l[i].cc > l[j].cc \/ (l[i].cc = l[j].cc /\ Sq(l[i].o) <= Sq(l[j].o))
BadLaw == Cardinality({i \in Idx(c) : \A j \in Idx(c) \ {i} : Pref2(c, i, j)}) <= 1
Init == c \in Lists /\ PrintT(<<"CASE", ToJson(c)>>)
Next == UNCHANGED c
=============================================================================
