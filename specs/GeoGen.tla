------------------------------- MODULE GeoGen -------------------------------
(* Small-scope enumeration of rigid transforms and cameras: TLC proves the   *)
(* group and pinhole laws on every one of them and emits them as test cases. *)
EXTENDS Geometry, TLC, Json
CONSTANTS Which, R
VARIABLE c
Q(r) == {q \in (-r..r) \X (-r..r) \X (-r..r) \X (-r..r) : q # <<0, 0, 0, 0>>}
\* one quaternion per rotation of the cube group: first nonzero is positive
Canon(q) == \E k \in 1..4 : q[k] > 0 /\ \A j \in 1..(k - 1) : q[j] = 0
Cube == {q \in Q(1) : Canon(q) /\ Cardinality({k \in 1..4 : q[k] # 0}) \in {1, 2, 4}}
Trans == {<<0, 0, 0>>, <<1, -2, 3>>, <<-4, 0, 5>>}
Trans1 == {<<2, -1, 3>>, <<0, 0, 0>>}

Rots == {[k |-> "rot", q |-> q] : q \in {q \in Q(R) : Canon(q)}}
Pairs == {[k |-> "pair", a |-> [q |-> x, t |-> t], b |-> [q |-> y, t |-> s]] :
            x \in Cube, y \in Cube, t \in Trans1, s \in {<<1, -2, 3>>}}
Mixed == {[k |-> "pair", a |-> [q |-> x, t |-> t], b |-> [q |-> y, t |-> s]] :
            x \in {<<1, 2, 0, 2>>, <<0, 1, 1, 1>>, <<1, 1, 1, 2>>, <<2, 0, -1, 1>>}, y \in {q \in Q(1) : Canon(q)},
            t \in Trans, s \in {<<-1, 4, 2>>}}
Cams == {[k |-> "cam", K |-> <<fx, fy, cx, cy>>, u |-> u, v |-> v, d |-> d] :
            fx \in {1, 2, 4}, fy \in {1, 3}, cx \in {0, 1, 3}, cy \in {0, 2}, u \in 0..2, v \in 0..2, d \in 0..3}
Cases == CASE Which = "rot" -> Rots [] Which = "pair" -> Pairs \cup Mixed [] Which = "cam" -> Cams

RotLaw(q) == LET M == RotN(q) n == Norm2(q)
             IN /\ MM(M, Tr(M)) = ScaleM(n * n, Ident3)
                /\ Dot3(M[1], Cross3(M[2], M[3])) = n * n * n
                /\ MV(M, <<q[1], q[2], q[3]>>) = ScaleV(n, <<q[1], q[2], q[3]>>)
                /\ RotN([i \in 1..4 |-> -q[i]]) = M
PairLaw(a, b) ==
  LET A == T(a) B == T(b)
  IN /\ RotN(QMul(a.q, b.q)) = MM(RotN(a.q), RotN(b.q))
     /\ SameT(Comp(A, Inv(A)), IdT) /\ SameT(Comp(Inv(A), A), IdT) /\ SameT(InvP(a), Inv(A))
     /\ SameT(Comp(A, Rel(a, b)), B)
     /\ SameT(Comp(Rel(a, b), Rel(b, a)), IdT)
     /\ SameT(Comp(A, IdT), A) /\ SameT(Comp(IdT, A), A)
     /\ ScaleV(B.n, ActT(A, b.t)) = Comp(A, B).t
Law == CASE c.k = "rot" -> RotLaw(c.q) [] c.k = "pair" -> PairLaw(c.a, c.b)
         [] c.k = "cam" -> ProjectsBack(c.K, c.u, c.v, c.d)
\* negative controls: the laws must be able to fail
BadLaw == CASE c.k = "rot" -> MM(RotN(c.q), RotN(c.q)) = ScaleM(Norm2(c.q) * Norm2(c.q), Ident3)
            [] c.k = "pair" -> SameT(Comp(T(c.a), T(c.b)), Comp(T(c.b), T(c.a)))
            [] c.k = "cam" -> 2 * VertX(c.K, c.u, c.d) = 4 * c.u * c.d
Init == c \in Cases /\ PrintT(<<"CASE", ToJson(c)>>)
Next == UNCHANGED c
=============================================================================
