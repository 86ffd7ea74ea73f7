------------------------------- MODULE AssocOps -------------------------------
(***************************************************************************)
(* Associating two lists of time stamps, and reading stamped text files.   *)
(* Times are integers (ticks); a and b are the sequences of times in the   *)
(* order of the input; a matching is a sequence of pairs of positions.     *)
(***************************************************************************)
EXTENDS Geometry
D(a, b, off, i, j) == Abs(a[i] - (b[j] + off))
Close(a, b, off, tol, i, j) == D(a, b, off, i, j) < tol

Within(a, b, off, tol, m) == \A k \in 1..Len(m) : /\ m[k][1] \in 1..Len(a) /\ m[k][2] \in 1..Len(b)
                                                  /\ Close(a, b, off, tol, m[k][1], m[k][2])
OneToOne(m) == \A k, l \in 1..Len(m) : k # l => m[k][1] # m[l][1] /\ m[k][2] # m[l][2]
\* a pair that was not formed lost against a pair at least as close
BestFirst(a, b, off, tol, m) ==
  \A i \in 1..Len(a) : \A j \in 1..Len(b) :
    Close(a, b, off, tol, i, j) =>
      \E k \in 1..Len(m) : /\ m[k][1] = i \/ m[k][2] = j
                           /\ D(a, b, off, m[k][1], m[k][2]) <= D(a, b, off, i, j)
InOrder(a, m) == \A k \in 1..(Len(m) - 1) : a[m[k][1]] <= a[m[k + 1][1]]
Good(a, b, off, tol, m) == Within(a, b, off, tol, m) /\ OneToOne(m) /\ BestFirst(a, b, off, tol, m)

(* ------------------------------------------------------------ text files *)
(* a line is a sequence of one-character strings; "TAB" stands for a tab    *)
Sep == {" ", ",", "TAB"}
Fields(cs) ==
  LET F[k \in 0..Len(cs)] ==
        IF k = 0 THEN [done |-> <<>>, cur |-> ""]
        ELSE LET p == F[k - 1] IN
             IF cs[k] \in Sep THEN [done |-> IF p.cur = "" THEN p.done ELSE Append(p.done, p.cur), cur |-> ""]
             ELSE [done |-> p.done, cur |-> p.cur \o cs[k]]
      l == F[Len(cs)]
  IN IF l.cur = "" THEN l.done ELSE Append(l.done, l.cur)
Comment(cs) == Len(cs) > 0 /\ cs[1] = "#"
Data(lines, n) == SelectSeq([k \in 1..Len(lines) |-> k], LAMBDA k : ~Comment(lines[k]) /\ Len(Fields(lines[k])) >= n)
Min(x, y) == IF x < y THEN x ELSE y
Entries(lines, start, end) ==
  LET d == Data(lines, 2) e == IF end < 0 THEN Len(d) ELSE Min(end, Len(d)) IN
  [k \in 1..(IF e > start THEN e - start ELSE 0) |-> Fields(lines[d[start + k]])]
\* num[k] = <<tx, ty, tz, qx, qy, qz, qw>> of line k (integers), bad[k]: it has a NaN
Poses(lines, num, bad) ==
  LET d == SelectSeq(Data(lines, 1), LAMBDA k : ~bad[k] /\ ~(\A j \in 4..7 : num[k][j] = 0))
  IN [k \in 1..Len(d) |-> [stamp |-> Fields(lines[d[k]])[1], v |-> num[d[k]]]]
=============================================================================
