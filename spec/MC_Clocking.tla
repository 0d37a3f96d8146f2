----------------------------- MODULE MC_Clocking -----------------------------
(* Scheme facts on every zone of a grid large enough to contain each scheme's period with a margin. *)
EXTENDS Clocking
CONSTANTS N
VARIABLES g, name, n, c
vars == <<g, name, n, c>>
Arrs == {"cart", "odd_row", "even_row", "odd_col", "even_col"}
S == NewStore(g, ~IsCart(g), name, n)
Init == /\ g \in [arr : Arrs, X : {N}, Y : {N}, Z : {0}] /\ name \in Names /\ n \in Phases(name)
        /\ c = <<0, 0, 0>>
\* information flow: move to an outgoing zone, or look at the next tile
Next == /\ UNCHANGED <<g, name, n>>
        /\ \E d \in {"e", "s"} : c' = Go(g, c, d)
InRange == Clk(S, c) \in 0..(n-1)
Dual == \A b \in Adjacent(g, c) : (b \in OutZones(S, c)) <=> (c \in InZones(S, b))
\* a zone never both feeds and is fed by the same neighbour
OneWay == name = "OPEN" \/ InZones(S, c) \cap OutZones(S, c) = {}
\* linear schemes have no feedback: the wave front strictly advances along the flow
NoFeedback == (name \in Linear /\ ~(name # "2DDWAVEHEX" /\ g.arr # "cart") /\ n >= 3)
   => \A b \in OutZones(S, c) : Front(S.name, g.arr, b[1], b[2]) = Front(S.name, g.arr, c[1], c[2]) + 1
\* the advertised degrees bound the real ones on Cartesian grids; columnar and row clocking let information flow straight only
Degrees == g.arr = "cart" => /\ name # "OPEN" => Cardinality(InZones(S, c)) <= MaxIn(S.name, 3)
                             /\ name # "OPEN" => Cardinality(OutZones(S, c)) <= MaxOut(S.name, 3)
\* interior zones of the feedback-capable schemes can receive and send
Live == (g.arr = "cart" /\ name \notin Linear \cup {"OPEN"} /\ c[1] \in 1..(N-1) /\ c[2] \in 1..(N-1))
   => InZones(S, c) # {} /\ OutZones(S, c) # {}
=============================================================================
