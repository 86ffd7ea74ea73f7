------------------------------- MODULE RaggedOps -------------------------------
(***************************************************************************)
(* Ragged lists of matrices, their padded form, and grid downsampling.     *)
(* An item is [n, c, v]: n rows of c values; a padded batch is the record   *)
(* [b, n, c, v].  Values are tokens: only equality matters.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Full(items) == {k \in 1..Len(items) : items[k].n > 0}
Natural(items) == <<MaxOf({items[k].n : k \in Full(items)}), MaxOf({items[k].c : k \in Full(items)})>>
Fits(items, size) == \A k \in Full(items) : items[k].n <= size[1] /\ items[k].c <= size[2]
Cell(it, i, j, pv) == IF it.n > 0 /\ i <= it.n /\ j <= it.c THEN it.v[i][j] ELSE pv
Pad(items, size, pv) ==
  [b |-> Len(items), n |-> size[1], c |-> size[2],
   v |-> [k \in 1..Len(items) |-> [i \in 1..size[1] |-> [j \in 1..size[2] |-> Cell(items[k], i, j, pv)]]]]
Cut(x, k, n, c) == [n |-> n, c |-> c, v |-> [i \in 1..n |-> [j \in 1..c |-> x.v[k][i][j]]]]
\* sizes[k] = <<>> (all of it), <<rows>> or <<rows, columns>>
Split(x, sizes) ==
  [k \in 1..x.b |-> LET s == sizes[k] IN
     Cut(x, k, IF Len(s) >= 1 THEN s[1] ELSE x.n, IF Len(s) >= 2 THEN s[2] ELSE x.c)]
Sizes(items) == [k \in 1..Len(items) |-> <<items[k].n, items[k].c>>]
Solid(it) == it.n > 0 /\ it.c > 0
Same(a, b) == a.n = b.n /\ (a.n > 0 => a.c = b.c) /\ a.v = b.v

(* ------------------------------------------------------------ downsampling *)
\* a table row is <<b, n, h, w>>, counted from 0
OnGrid(row, r) == row[3] % r = 0 /\ row[4] % r = 0
Kept(table, r) == SelectSeq(table, LAMBDA row : OnGrid(row, r))
OfCloud(table, b) == SelectSeq(table, LAMBDA row : row[1] = b - 1)
Chosen(table, b, r) == LET m == OfCloud(Kept(table, r), b) IN [k \in 1..Len(m) |-> m[k][2] + 1]
Gather(rows, ix) == [k \in 1..Len(ix) |-> rows[ix[k]]]
\* pixels of an h x w image in row-major order, counted from 0
Pixels(h, w) == [k \in 1..(h * w) |-> <<(k - 1) \div w, (k - 1) % w>>]
GridPixels(h, w, r, valid) == SelectSeq(Pixels(h, w), LAMBDA p : p[1] % r = 0 /\ p[2] % r = 0 /\ valid[p[1] + 1][p[2] + 1])
Ceil(a, r) == (a + r - 1) \div r
=============================================================================
