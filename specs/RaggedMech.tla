------------------------------ MODULE RaggedMech ------------------------------
(***************************************************************************)
(* The mechanisms: a padded batch is filled with the pad value and then    *)
(* overwritten block by block; splitting cuts the blocks out again; a      *)
(* table is thinned by rows of the image, then by columns, then taken      *)
(* apart by cloud; frames are thinned by striding and masking.             *)
(***************************************************************************)
EXTENDS RaggedOps, Json, TLC
CONSTANTS Items, Dim, Extra, Side, Ratios, Len4
VARIABLES pc, items, size, x, k, out, table, left, r, img, pts
vars == <<pc, items, size, x, k, out, table, left, r, img, pts>>
\* values tell item, row and column apart; 0 pads
Shape == {<<n, c>> \in (0..Dim) \X (1..Dim) : TRUE}
Item(s, b) == [n |-> s[1], c |-> s[2], v |-> [i \in 1..s[1] |-> [j \in 1..s[2] |-> 100 * b + 10 * i + j]]]
Lists == UNION {[1..m -> Shape] : m \in 1..Items}
Some(l) == \E b \in DOMAIN l : l[b][1] > 0
Quiet == /\ table = <<>> /\ left = <<>> /\ r = 1 /\ img = <<>> /\ pts = <<>>
InitPad == /\ pc = "alloc" /\ \E l \in Lists : Some(l) /\ items = [b \in DOMAIN l |-> Item(l[b], b)]
           /\ \E e \in (0..Extra) \X (0..Extra) : size = <<Natural(items)[1] + e[1], Natural(items)[2] + e[2]>>
           /\ x = <<>> /\ k = 1 /\ out = <<>> /\ Quiet
Alloc == /\ pc = "alloc" /\ pc' = "write"
         /\ x' = [b |-> Len(items), n |-> size[1], c |-> size[2],
                  v |-> [b \in 1..Len(items) |-> [i \in 1..size[1] |-> [j \in 1..size[2] |-> 0]]]]
         /\ UNCHANGED <<items, size, k, out, table, left, r, img, pts>>
Block(y, b) == [i \in 1..y.n |-> [j \in 1..y.c |-> IF i <= items[b].n /\ j <= items[b].c THEN items[b].v[i][j] ELSE y.v[b][i][j]]]
Write == /\ pc = "write" /\ k <= Len(items) /\ x' = [x EXCEPT !.v[k] = Block(x, k)] /\ k' = k + 1
         /\ UNCHANGED <<pc, items, size, out, table, left, r, img, pts>>
Filled == /\ pc = "write" /\ k > Len(items) /\ pc' = "cut" /\ k' = 1
          /\ UNCHANGED <<items, size, x, out, table, left, r, img, pts>>
CutOne == /\ pc = "cut" /\ k <= Len(items)
          /\ out' = Append(out, Cut(x, k, items[k].n, items[k].c)) /\ k' = k + 1
          /\ UNCHANGED <<pc, items, size, x, table, left, r, img, pts>>
CutAll == /\ pc = "cut" /\ k > Len(items) /\ pc' = "split" /\ UNCHANGED <<items, size, x, k, out, table, left, r, img, pts>>
NextPad == Alloc \/ Write \/ Filled \/ CutOne \/ CutAll
\* the padded form is the one the definition gives, and nothing is lost on the way
PadRight == pc \in {"cut", "split"} => x = Pad(items, size, 0)
RoundTrip == pc = "split" => /\ out = Split(x, Sizes(items))
                             /\ \A b \in 1..Len(items) : Same(out[b], items[b])
\* repadding the pieces gives the same batch
Repad == pc = "split" => Pad(out, size, 0) = x
Count == pc = "cut" => Cardinality({<<b, i, j>> \in (1..x.b) \X (1..x.n) \X (1..x.c) : x.v[b][i][j] # 0})
                       = LET S[b \in 0..Len(items)] == IF b = 0 THEN 0 ELSE S[b - 1] + items[b].n * items[b].c IN S[Len(items)]
EmitPad == pc = "alloc" => PrintT(<<"PAD", ToJson([shapes |-> Sizes(items), size |-> size])>>)

\* ---------------------------------------------------------------- table
Nothing == items = <<>> /\ size = <<>> /\ x = <<>> /\ k = 1
Rows == {<<b, n, h, w>> \in (0..1) \X (0..1) \X (0..Side) \X (0..Side) : TRUE}
InitTable == /\ pc = "rows" /\ Nothing /\ out = <<>> /\ img = <<>> /\ pts = <<>>
             /\ r \in Ratios /\ table \in UNION {[1..m -> Rows] : m \in 0..Len4} /\ left = table
ByRow == pc = "rows" /\ left' = SelectSeq(left, LAMBDA q : q[3] % r = 0) /\ pc' = "cols"
         /\ UNCHANGED <<items, size, x, k, out, table, r, img, pts>>
ByCol == pc = "cols" /\ left' = SelectSeq(left, LAMBDA q : q[4] % r = 0) /\ pc' = "apart"
         /\ UNCHANGED <<items, size, x, k, out, table, r, img, pts>>
Apart == /\ pc = "apart" /\ k <= 2 /\ k' = k + 1
         /\ out' = Append(out, LET m == SelectSeq(left, LAMBDA q : q[1] = k - 1) IN [i \in 1..Len(m) |-> m[i][2] + 1])
         /\ UNCHANGED <<pc, items, size, x, table, left, r, img, pts>>
Done == pc = "apart" /\ k > 2 /\ pc' = "thinned" /\ UNCHANGED <<items, size, x, k, out, table, left, r, img, pts>>
NextTable == ByRow \/ ByCol \/ Apart \/ Done
TableRight == pc = "thinned" => out = [b \in 1..2 |-> Chosen(table, b, r)]
\* thinning by 2 and then by 3 is thinning by 6; by 1 changes nothing
Compose == /\ Kept(Kept(table, 2), 3) = Kept(table, 6) /\ Kept(Kept(table, 2), 2) = Kept(table, 2) /\ Kept(table, 1) = table
EmitTable == pc = "rows" => PrintT(<<"TABLE", ToJson([table |-> table, r |-> r])>>)

\* --------------------------------------------------------------- frames
InitImg == /\ pc = "stride" /\ Nothing /\ out = <<>> /\ table = <<>> /\ left = <<>> /\ r \in Ratios /\ pts = <<>>
           /\ \E h \in 1..Side : \E w \in 1..Side : img \in [1..h -> [1..w -> BOOLEAN]]
Hh == Len(img)
Ww == Len(img[1])
\* every r-th row and column as an image of its own
Strided == [i \in 1..Ceil(Hh, r) |-> [j \in 1..Ceil(Ww, r) |-> <<(i - 1) * r, (j - 1) * r>>]]
Stride == pc = "stride" /\ x' = Strided /\ pc' = "mask" /\ UNCHANGED <<items, size, k, out, table, left, r, img, pts>>
\* masking visits the thinned image row by row
Mask == /\ pc = "mask" /\ k <= Len(x) * Len(x[1]) /\ k' = k + 1
        /\ LET p == x[(k - 1) \div Len(x[1]) + 1][((k - 1) % Len(x[1])) + 1] IN
           pts' = IF img[p[1] + 1][p[2] + 1] THEN Append(pts, p) ELSE pts
        /\ UNCHANGED <<pc, items, size, x, out, table, left, r, img>>
Masked == pc = "mask" /\ k > Len(x) * Len(x[1]) /\ pc' = "masked" /\ UNCHANGED <<items, size, x, k, out, table, left, r, img, pts>>
NextImg == Stride \/ Mask \/ Masked
ImgRight == pc = "masked" => pts = GridPixels(Hh, Ww, r, img)
\* a frame whose pixels are its own map thins to the same places as the table of its pixels
Agrees == pc = "masked" => LET tb == SelectSeq(Pixels(Hh, Ww), LAMBDA p : img[p[1] + 1][p[2] + 1])
                               rows == [i \in 1..Len(tb) |-> <<0, i - 1, tb[i][1], tb[i][2]>>]
                           IN Gather(tb, Chosen(rows, 1, r)) = pts
AtMost == pc = "masked" => Len(pts) <= Ceil(Hh, r) * Ceil(Ww, r)
EmitImg == pc = "stride" => PrintT(<<"IMG", ToJson([img |-> img, r |-> r])>>)

\* ---------------------------------------------------- wrong mechanisms
WriteNext == /\ pc = "write" /\ k <= Len(items) /\ k' = k + 1
             /\ x' = [x EXCEPT !.v[k] = [i \in 1..x.n |-> [j \in 1..x.c |->
                        IF i <= items[k].n /\ j <= items[k].c THEN items[k].v[i][j] ELSE IF k = 1 THEN 0 ELSE x.v[k - 1][i][j]]]]
             /\ UNCHANGED <<pc, items, size, out, table, left, r, img, pts>>
BadPad1 == Alloc \/ WriteNext \/ Filled \/ CutOne \/ CutAll
CutSmall == /\ pc = "cut" /\ k <= Len(items) /\ k' = k + 1
            /\ out' = Append(out, Cut(x, k, items[k].n, x.c))
            /\ UNCHANGED <<pc, items, size, x, table, left, r, img, pts>>
BadPad2 == Alloc \/ Write \/ Filled \/ CutSmall \/ CutAll
EitherRC == pc = "rows" /\ left' = SelectSeq(left, LAMBDA q : q[3] % r = 0 \/ q[4] % r = 0) /\ pc' = "apart"
            /\ UNCHANGED <<items, size, x, k, out, table, r, img, pts>>
BadTable1 == EitherRC \/ Apart \/ Done
ByPoint == pc = "rows" /\ left' = SelectSeq(left, LAMBDA q : q[2] % r = 0) /\ pc' = "apart"
           /\ UNCHANGED <<items, size, x, k, out, table, r, img, pts>>
BadTable2 == ByPoint \/ Apart \/ Done
\* mask first, then every r-th of what is left
MaskFirst == /\ pc = "stride" /\ pc' = "masked"
             /\ LET tb == SelectSeq(Pixels(Hh, Ww), LAMBDA p : img[p[1] + 1][p[2] + 1]) IN
                pts' = [i \in 1..Ceil(Len(tb), r) |-> tb[(i - 1) * r + 1]]
             /\ UNCHANGED <<items, size, x, k, out, table, left, r, img>>
BadImg1 == MaskFirst
=============================================================================
