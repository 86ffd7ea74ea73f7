------------------------------ MODULE AssocMech ------------------------------
(* The greedy mechanism over every pair of small time sets: closest pair      *)
(* first, ties in any order.  Its results are exactly the good matchings.     *)
EXTENDS AssocOps, SequencesExt, Json, TLC
CONSTANTS N, Tols, Offs
VARIABLES a, b, off, tol, m, done, want
vars == <<a, b, off, tol, m, done, want>>
Asc(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
Free(i, j) == /\ Close(a, b, off, tol, i, j) /\ \A k \in 1..Len(m) : m[k][1] # i /\ m[k][2] # j
Pairs == {<<i, j>> \in (1..Len(a)) \X (1..Len(b)) : Free(i, j)}
Closest(p) == \A q \in Pairs : D(a, b, off, p[1], p[2]) <= D(a, b, off, q[1], q[2])
ToSeq(S) == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1])
Init == /\ a \in {Asc(S) : S \in SUBSET (0..N)} /\ b \in {Asc(S) : S \in SUBSET (0..N)}
        /\ off \in {o - 1 : o \in Offs} /\ tol \in Tols /\ m = <<>> /\ done = FALSE /\ want = "any"
Take == ~done /\ \E p \in Pairs : Closest(p) /\ m' = Append(m, p) /\ UNCHANGED <<a, b, off, tol, done, want>>
Stop == ~done /\ Pairs = {} /\ done' = TRUE /\ UNCHANGED <<a, b, off, tol, m, want>>
Next == Take \/ Stop
Results == done => Good(a, b, off, tol, m)
Always == Within(a, b, off, tol, m) /\ OneToOne(m)
Emit == (~done /\ m = <<>>) => PrintT(<<"CASE", ToJson([a |-> a, b |-> b, off |-> off, tol |-> tol])>>)
\* every good matching is reached by taking closest pairs first: start from one
\* and take only its own pairs
Goods == {ToSeq(S) : S \in {X \in SUBSET Pairs : Good(a, b, off, tol, ToSeq(X))}}
InitW == /\ a \in {Asc(S) : S \in SUBSET (0..(N - 1))} /\ b \in {Asc(S) : S \in SUBSET (0..(N - 1))}
         /\ off \in {o - 1 : o \in Offs} /\ tol \in Tols /\ m = <<>> /\ done = FALSE /\ want \in Goods
Wanted(p) == \E k \in 1..Len(want) : want[k] = p
TakeW == \E p \in Pairs : Closest(p) /\ Wanted(p) /\ m' = Append(m, p) /\ UNCHANGED <<a, b, off, tol, done, want>>
NotStuck == Pairs # {} => \E p \in Pairs : Closest(p) /\ Wanted(p)
\* two good matchings never differ when no two acceptable pairs tie
\* negative controls
TakeAny == ~done /\ \E p \in Pairs : m' = Append(m, p) /\ UNCHANGED <<a, b, off, tol, done, want>>
BadNext == TakeAny \/ Stop
TakeTwice == ~done /\ Len(m) < 3 /\ \E p \in (1..Len(a)) \X (1..Len(b)) : Close(a, b, off, tol, p[1], p[2]) /\ m' = Append(m, p)
             /\ UNCHANGED <<a, b, off, tol, done, want>>
BadNext2 == TakeTwice
StopEarly == ~done /\ Len(m) > 0 /\ done' = TRUE /\ UNCHANGED <<a, b, off, tol, m, want>>
BadNext3 == Take \/ StopEarly
=============================================================================
