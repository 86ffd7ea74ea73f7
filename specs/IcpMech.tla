-------------------------------- MODULE IcpMech --------------------------------
(* The accept / reject loop over an arbitrary error landscape: positions of a *)
(* line, an arbitrary error for each, and a candidate step that shrinks with  *)
(* the damping.  TLC explores every landscape.                                *)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxPos, MaxErr, MaxIt
VARIABLES err, goal, pos, j, it, e0, moves, last
vars == <<err, goal, pos, j, it, e0, moves, last>>
P == 0..MaxPos
\* step towards the goal: halves with each doubling of the damping
Cand == LET d == goal - pos a == IF d < 0 THEN -d ELSE d k == IF j <= 0 THEN a ELSE IF j = 1 THEN a \div 2 ELSE a \div 4
        IN IF d < 0 THEN pos - k ELSE pos + k
Init == /\ err \in [P -> 0..MaxErr] /\ goal \in P /\ pos \in P
        /\ j = 0 /\ it = 0 /\ e0 = err[pos] /\ moves = <<>> /\ last = "none"
Accept == /\ it < MaxIt /\ err[Cand] < err[pos]
          /\ pos' = Cand /\ j' = j - 1 /\ it' = it + 1 /\ moves' = Append(moves, Cand - pos) /\ last' = "acc"
          /\ UNCHANGED <<err, goal, e0>>
Reject == /\ it < MaxIt /\ ~(err[Cand] < err[pos])
          /\ j' = j + 1 /\ it' = it + 1 /\ last' = "rej" /\ UNCHANGED <<err, goal, pos, e0, moves>>
Next == Accept \/ Reject
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(Tail(s))
NeverWorse == err[pos] <= e0
Schedule == j = it - 2 * Len(moves)
\* strictly decreasing: at most as many acceptances as error levels
Finite == Len(moves) <= e0
Monotone == [][err'[pos'] <= err[pos]]_vars
\* negative control: taking steps that do not lower the error
BadAccept == /\ it < MaxIt /\ pos' = Cand /\ j' = j - 1 /\ it' = it + 1 /\ moves' = Append(moves, Cand - pos) /\ last' = "acc"
             /\ UNCHANGED <<err, goal, e0>>
BadNext == BadAccept
BadEqual == /\ it < MaxIt /\ err[Cand] <= err[pos]
            /\ pos' = Cand /\ j' = j - 1 /\ it' = it + 1 /\ moves' = Append(moves, Cand - pos) /\ last' = "acc"
            /\ UNCHANGED <<err, goal, e0>>
BadNext2 == BadEqual \/ Reject
=============================================================================
