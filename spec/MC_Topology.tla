----------------------------- MODULE MC_Topology -----------------------------
EXTENDS Topology
CONSTANTS MaxX, MaxY, MaxZ
VARIABLES g, c
Arrs == {"cart", "odd_row", "even_row", "odd_col", "even_col"}
Init == /\ g \in [arr : Arrs, X : 0..MaxX, Y : 0..MaxY, Z : 0..MaxZ]
        /\ c \in Coords(g)
\* walk over the grid
Next == \E d \in {"n","ne","e","se","s","sw","w","nw","u","d"} : c' = Go(g, c, d) /\ g' = g
\* the walk never leaves the grid
StaysInside == Inside(g, c)
\* the geometric neighbours are exactly those the direction table reaches
Dirs == IF IsCart(g) THEN {"n","e","s","w"} ELSE IF RowHex(g) THEN {"e","w","ne","nw","se","sw"} ELSE {"n","s","ne","nw","se","sw"}
DirectionsAgree == Adjacent(g, c) = {b \in {Go(g, c, d) : d \in Dirs} : b # c}
Symmetric == \A b \in Adjacent(g, c) : c \in Adjacent(g, b)
Irreflexive == c \notin Adjacent(g, c)
Degree == Cardinality(Adjacent(g, c)) <= (IF IsCart(g) THEN 4 ELSE 6)
Opp(d) == CASE d="n"->"s" [] d="s"->"n" [] d="e"->"w" [] d="w"->"e" [] d="ne"->"sw" [] d="sw"->"ne" [] d="nw"->"se" [] d="se"->"nw"
OppositeSteps == \A d \in Dirs : Go(g, c, d) # c => Go(g, Go(g, c, d), Opp(d)) = c
OppositesAgree == OppositePairs(g, c) = {{Go(g, c, d), Go(g, c, Opp(d))} : d \in {k \in Dirs : Go(g, c, k) # c /\ Go(g, c, Opp(k)) # c}}
EnumComplete == {Seq3(g)[k] : k \in 1..Volume(g)} = Coords(g)
=============================================================================
