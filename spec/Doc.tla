-------------------------------- MODULE Doc --------------------------------
(***************************************************************************)
(* A layout given as a document (recorded from the implementation) is read *)
(* into the state representation of GateLayout, so that every notion       *)
(* defined there applies to it.                                            *)
(***************************************************************************)
EXTENDS GateLayout

DGrid(d) == [arr |-> d.arr, X |-> d.X, Y |-> d.Y, Z |-> d.Z]
IndexOf(g, c) == 1 + c[1] + (g.X+1) * (c[2] + (g.Y+1) * c[3])
FromDoc(d) ==
  LET g == DGrid(d) IN
  TLCEval([k |-> [g |-> g, hex |-> d.hex, name |-> d.scheme, n |-> d.n, reg |-> FALSE,
          ov |-> IF d.clk = <<>> THEN <<>> ELSE [c \in Coords(g) |-> d.clk[IndexOf(g, c)]],
          se |-> [c \in {d.se[p][1] : p \in 1..Len(d.se)} |-> d.se[CHOOSE p \in 1..Len(d.se) : d.se[p][1] = c][2]]],
   nd |-> [p \in 1..Len(d.nd) |-> [fn |-> d.nd[p].f, ch |-> d.nd[p].ch, t |-> d.nd[p].t, dead |-> FALSE, nm |-> d.nd[p].nm, val |-> 0, vis |-> 0]],
   at |-> [t \in {d.nd[p].t : p \in {q \in 1..Len(d.nd) : d.nd[q].t # <<>>}} |-> 1 + (CHOOSE p \in 1..Len(d.nd) : d.nd[p].t = t)],
   pis |-> d.pis, pos |-> d.pos, nm |-> d.nm])
=============================================================================
