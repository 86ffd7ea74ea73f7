-------------------------------- MODULE VisMech --------------------------------
(* The mechanisms behind the exports: drawing a sample, gathering every      *)
(* attribute by it, finding the display scale, and playing the figure.       *)
EXTENDS VisOps, Json, TLC
CONSTANTS N, Reds, MaxDepth, L
VARIABLES pc, red, lim, sel, out, dmax, e, cur, play
vars == <<pc, red, lim, sel, out, dmax, e, cur, play>>
Min(a, b) == IF a < b THEN a ELSE b
\* ------------------------------------------------------------------ clouds
\* point i is the number i; red[i] its raw colour
InitCloud == /\ pc = "draw" /\ red \in UNION {[1..n -> Reds] : n \in 0..N} /\ lim \in {k - 1 : k \in 0..(N + 2)} /\ sel = <<>> /\ out = <<>>
             /\ dmax = 0 /\ e = 0 /\ cur = 0 /\ play = FALSE
Free == {i \in 1..Len(red) : \A k \in 1..Len(sel) : sel[k] # i}
All == lim < 0 \/ Len(red) <= lim
Draw == /\ pc = "draw" /\ ~All /\ Len(sel) < lim /\ \E i \in Free : sel' = Append(sel, i)
        /\ UNCHANGED <<pc, red, lim, out, dmax, e, cur, play>>
DrawAll == /\ pc = "draw" /\ All /\ sel' = [i \in 1..Len(red) |-> i] /\ pc' = "gather" /\ UNCHANGED <<red, lim, out, dmax, e, cur, play>>
Drawn == /\ pc = "draw" /\ ~All /\ Len(sel) = lim /\ pc' = "gather" /\ UNCHANGED <<red, lim, sel, out, dmax, e, cur, play>>
Raws == [i \in 1..Len(red) |-> <<red[i]>>]
GatherAll == /\ pc = "gather" /\ pc' = "shown"
             /\ out' = [k \in 1..Len(sel) |-> <<sel[k], Canon(red[sel[k]], Bytes(Raws))>>]
             /\ UNCHANGED <<red, lim, sel, dmax, e, cur, play>>
NextCloud == Draw \/ DrawAll \/ Drawn \/ GatherAll
Ids == [i \in 1..Len(red) |-> i]
SampleRight == pc = "shown" => /\ Len(out) = Shown(Len(red), lim)
                               /\ Distinct([k \in 1..Len(out) |-> out[k][1]])
                               /\ (All => [k \in 1..Len(out) |-> out[k][1]] = Ids)
\* a point has the colour it has when everything is shown
ColourRight == pc = "shown" => \A k \in 1..Len(out) : out[k][2] = Canon(red[out[k][1]], Bytes(Raws))
EmitCloud == (pc = "draw" /\ sel = <<>>) => PrintT(<<"CLOUD", ToJson([red |-> red, lim |-> lim])>>)
\* ------------------------------------------------------------------- scale
Rest == red = <<>> /\ lim = 0 /\ sel = <<>> /\ out = <<>>
InitScale == pc = "scale" /\ Rest /\ dmax \in {m * k : m \in 1..MaxDepth, k \in {1, 64, 6400, 64000}} /\ e = -4 /\ cur = 0 /\ play = FALSE
Raise == pc = "scale" /\ Fits255(dmax, e + 1) /\ e' = e + 1 /\ UNCHANGED <<pc, red, lim, sel, out, dmax, cur, play>>
Settle == pc = "scale" /\ ~Fits255(dmax, e + 1) /\ pc' = "scaled" /\ UNCHANGED <<red, lim, sel, out, dmax, e, cur, play>>
NextScale == Raise \/ Settle
ScaleRight == pc = "scaled" => /\ e \in Exps /\ e = ExpOf(dmax) /\ Level(dmax, e) <= 255 /\ (dmax > 64 => Level(dmax, e) >= 25)
\* the order of depths is kept in what is shown
Monotone == pc = "scaled" => \A d \in {dmax \div 7, dmax \div 3, dmax \div 2} : Level(d, e) <= Level(dmax, e)
\* ----------------------------------------------------------------- playing
InitPlay == pc = "fig" /\ Rest /\ dmax = 0 /\ e = 0 /\ cur = 0 /\ play = FALSE
Slide == pc = "fig" /\ \E k \in 0..(L - 1) : cur' = k /\ play' = FALSE /\ UNCHANGED <<pc, red, lim, sel, out, dmax, e>>
Press == pc = "fig" /\ play' = TRUE /\ UNCHANGED <<pc, red, lim, sel, out, dmax, e, cur>>
Pause == pc = "fig" /\ play' = FALSE /\ UNCHANGED <<pc, red, lim, sel, out, dmax, e, cur>>
Tick == pc = "fig" /\ play /\ cur + 1 < L /\ cur' = cur + 1 /\ UNCHANGED <<pc, red, lim, sel, out, dmax, e, play>>
NextPlay == Slide \/ Press \/ Pause \/ Tick
InRange == cur \in 0..(L - 1)
\* ---------------------------------------------------------- wrong mechanisms
DrawAgain == /\ pc = "draw" /\ ~All /\ Len(sel) < lim /\ \E i \in 1..Len(red) : sel' = Append(sel, i)
             /\ UNCHANGED <<pc, red, lim, out, dmax, e, cur, play>>
BadCloud1 == DrawAgain \/ DrawAll \/ Drawn \/ GatherAll
\* the range of the colours decided from the sample alone
GatherLocal == /\ pc = "gather" /\ pc' = "shown"
               /\ out' = [k \in 1..Len(sel) |-> <<sel[k], Canon(red[sel[k]], Bytes([j \in 1..Len(sel) |-> <<red[sel[j]]>>]))>>]
               /\ UNCHANGED <<red, lim, sel, dmax, e, cur, play>>
BadCloud2 == Draw \/ DrawAll \/ Drawn \/ GatherLocal
\* colours not gathered by the sample
GatherFirst == /\ pc = "gather" /\ pc' = "shown"
               /\ out' = [k \in 1..Len(sel) |-> <<sel[k], Canon(red[k], Bytes(Raws))>>]
               /\ UNCHANGED <<red, lim, sel, dmax, e, cur, play>>
BadCloud3 == Draw \/ DrawAll \/ Drawn \/ GatherFirst
RaiseOver == pc = "scale" /\ e < 4 /\ Fits255(dmax, e) /\ e' = e + 1 /\ UNCHANGED <<pc, red, lim, sel, out, dmax, cur, play>>
BadScale == RaiseOver \/ Settle
TickOver == pc = "fig" /\ play /\ cur + 1 <= L /\ cur' = cur + 1 /\ UNCHANGED <<pc, red, lim, sel, out, dmax, e, play>>
BadPlay == Slide \/ Press \/ Pause \/ TickOver
=============================================================================
