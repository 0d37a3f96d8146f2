---------------------------- MODULE MC_GateLayout ----------------------------
(* The gate-level layout machine on a small layout with a clone, exhaustively to a bounded number of operations;   *)
(* in simulation mode it prints its behaviours as operation sequences that are replayed on real layouts.           *)
EXTENDS GateLayout, Json
CONSTANTS MaxNodes, MaxOps, MaxHandles, GX, GY, Emitting
VARIABLES m, log
vars == <<m, log>>
G0 == [arr |-> "cart", X |-> GX, Y |-> GY, Z |-> 1]
Schemes == {<<"2DDWAVE", 4>>, <<"USE", 4>>, <<"ROW", 3>>}
Init == \E sc \in (IF Emitting THEN Schemes ELSE {<<"2DDWAVE", 4>>}) :
        /\ m = [ref |-> <<1>>, stores |-> <<GNew(NewStore(G0, FALSE, sc[1], sc[2]), "")>>]
        /\ log = <<[op |-> "new", X |-> GX, Y |-> GY, Z |-> 1, name |-> sc[1], n |-> sc[2]]>>
Did(e) == log' = IF Emitting THEN Append(log, e) ELSE Append(log, 0)
Do(hd, s, e) == m' = HUpd(m, hd, s) /\ Did(e)
Occupied(s) == DOMAIN s.at
\* children: any occupied tile
Children(s, k) == [1..k -> Occupied(s)]
\* a complete behaviour is printed once, by the only step that is left
Finish == Emitting /\ Len(log) = MaxOps + 1 /\ PrintT("VPGEN " \o ToJson(log)) /\ m' = m /\ log' = Append(log, 0)
Op   == /\ Len(log) <= MaxOps
        /\ \E hd \in 1..Len(m.ref) : LET s == HGet(m, hd) IN
           \/ \E t \in Coords(G0) :
                \/ Top(s) - 1 < MaxNodes /\ Do(hd, CreatePi(s, "", t), [op |-> "pi", h |-> hd, t |-> t])
                \/ Top(s) - 1 < MaxNodes /\ \E c \in Occupied(s) : Do(hd, CreatePo(s, c, "", t), [op |-> "po", h |-> hd, t |-> t, ch |-> <<c>>])
                \/ Top(s) - 1 < MaxNodes /\ \E c \in Occupied(s) : Do(hd, Create(s, Fn.buf, <<c>>, t), [op |-> "buf", h |-> hd, t |-> t, ch |-> <<c>>])
                \/ Top(s) - 1 < MaxNodes /\ \E c \in Children(s, 2) : Do(hd, Create(s, Fn.lt, c, t), [op |-> "lt", h |-> hd, t |-> t, ch |-> c])
                \/ t \in Occupied(s) /\ Do(hd, Clear(s, t), [op |-> "clear", h |-> hd, t |-> t])
                \/ \E n \in Nodes(s) : \E k \in 0..2 : \E c \in Children(s, k) :
                      Do(hd, Move(s, n, t, c), [op |-> "move", h |-> hd, t |-> t, n |-> n, ch |-> c])
           \/ \E n \in Nodes(s) : \E c \in Occupied(s) : Do(hd, Connect(s, c, n), [op |-> "connect", h |-> hd, n |-> n, ch |-> <<c>>])
           \/ Len(m.ref) < MaxHandles /\ m' = HClone(m, hd) /\ Did([op |-> "clone", h |-> hd])
           \/ Len(m.ref) < MaxHandles /\ m' = HCopy(m, hd) /\ Did([op |-> "copy", h |-> hd])
Next == Op \/ Finish
S(x) == m.stores[x]
Stores == 1..Len(m.stores)
\* tiles and placed nodes are in one-to-one correspondence; dead nodes are placed nowhere
Bijection == \A x \in Stores : /\ \A t \in DOMAIN S(x).at : N(S(x), S(x).at[t]).t = t /\ ~N(S(x), S(x).at[t]).dead
                               /\ \A n \in Nodes(S(x)) : Placed(S(x), n) => S(x).at[N(S(x), n).t] = n
                               /\ \A n \in Nodes(S(x)) : N(S(x), n).dead <=> ~Placed(S(x), n)
Counting == \A x \in Stores : NumWires(S(x)) + NumGates(S(x)) = Cardinality(DOMAIN S(x).at) /\ NumCrossings(S(x)) <= NumWires(S(x))
\* every output entry is a distinct occupied wire tile
Outputs == \A x \in Stores : \A k \in 1..Len(S(x).pos) : /\ S(x).pos[k] \in DOMAIN S(x).at /\ IsWire(S(x), S(x).at[S(x).pos[k]])
                                                         /\ \A j \in 1..(k-1) : S(x).pos[j] # S(x).pos[k]
\* the fan-in relation is the inverse of the fan-out relation, with and without regard to clocking
Dual == \A x \in Stores : \A n, q \in Nodes(S(x)) : \A clk \in BOOLEAN : (Placed(S(x), n) /\ Placed(S(x), q)) =>
          ((q \in Fanouts(S(x), clk, n)) <=> \E k \in 1..Len(Fanins(S(x), clk, q)) : Fanins(S(x), clk, q)[k] = N(S(x), n).t)
\* respecting the clocking never adds connections, and linear clocking leaves no feedback
Sub == \A x \in Stores : \A n \in Nodes(S(x)) : Fanouts(S(x), TRUE, n) \subseteq Fanouts(S(x), FALSE, n) /\ n \notin Fanouts(S(x), FALSE, n)
=============================================================================
