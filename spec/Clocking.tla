------------------------------ MODULE Clocking ------------------------------
(***************************************************************************)
(* Clocking schemes and clocked layouts.  A scheme assigns each zone a     *)
(* clock number 0..n-1; information may flow from a zone to an adjacent    *)
(* zone whose number is the successor modulo n.  A clocked layout is a     *)
(* handle on a store [grid, scheme, overrides, synchronization elements];  *)
(* copying a handle shares the store, cloning makes an independent one.    *)
(***************************************************************************)
EXTENDS Topology, TLC

Table4(t, x, y) == t[1 + (y % Len(t))][1 + (x % Len(t[1]))]
TUSE   == << <<0,1,2,3>>, <<3,2,1,0>>, <<2,3,0,1>>, <<1,0,3,2>> >>
RES    == << <<3,0,1,2>>, <<0,1,0,3>>, <<1,2,3,0>>, <<0,3,2,1>> >>
ESR    == << <<3,0,1,2>>, <<0,1,2,3>>, <<1,2,3,0>>, <<0,3,2,1>> >>
CFE    == << <<0,1,0,1>>, <<3,2,3,2>> >>
RIPPLE == << <<0,1,2,3>>, <<3,2,1,0>> >>
SRS    == << <<1,0,3,2>>, <<2,3,0,1>>, <<3,2,3,0>>, <<0,1,2,1>> >>
BANCS  == << <<0,1,2>>, <<2,1,0>>, <<2,0,1>>, <<1,0,2>>, <<1,2,0>>, <<0,2,1>> >>

Linear == {"COLUMNAR", "ROW", "2DDWAVE", "2DDWAVEHEX"}
Names == Linear \cup {"OPEN", "USE", "RES", "ESR", "CFE", "RIPPLE", "SRS", "BANCS"}
\* linear schemes number the zones by a wave front; hexagonal 2DDWave advances half a zone per shifted row/column
Front(name, arr, x, y) ==
  CASE name = "COLUMNAR" -> x
    [] name = "ROW" -> y
    [] name = "2DDWAVE" -> x + y
    [] name = "2DDWAVEHEX" -> CASE arr = "odd_row" -> x + ((y+1) \div 2) [] arr = "even_row" -> x + (y \div 2)
                                [] arr = "odd_col" -> y + ((x+1) \div 2) [] arr = "even_col" -> y + (x \div 2)
                                [] OTHER -> x + y
Number(name, n, arr, x, y) ==
  CASE name = "OPEN" -> 0
    [] name \in Linear -> Front(name, arr, x, y) % n
    [] name = "USE" -> Table4(TUSE, x, y) [] name = "RES" -> Table4(RES, x, y) [] name = "ESR" -> Table4(ESR, x, y)
    [] name = "CFE" -> Table4(CFE, x, y) [] name = "RIPPLE" -> Table4(RIPPLE, x, y)
    [] name = "SRS" -> Table4(SRS, x, y) [] name = "BANCS" -> Table4(BANCS, x, y)
Phases(name) == IF name \in Linear \cup {"OPEN"} THEN {3, 4} ELSE IF name = "BANCS" THEN {3} ELSE {4}
\* the name a scheme carries; hexagonal 2DDWave degrades to 2DDWave on grids that are not hexagonal
NameOn(name, hex) == IF name = "2DDWAVEHEX" /\ ~hex THEN "2DDWAVE" ELSE name
\* fan-in and fan-out limits of the schemes on a grid whose tiles have at most f fan-ins
MaxIn(name, f) == LET lim == CASE name = "OPEN" -> f [] name \in {"2DDWAVE", "2DDWAVEHEX", "USE", "BANCS"} -> 2 [] OTHER -> 3
                  IN IF lim < f THEN lim ELSE f
MaxOut(name, f) == CASE name = "OPEN" -> f [] name \in {"RES", "ESR", "CFE", "RIPPLE", "SRS"} -> 3 [] OTHER -> 2

(* ---- clocked layouts ---- *)
NewStore(g, hex, name, n) == [g |-> g, hex |-> hex, name |-> NameOn(name, hex), n |-> n, reg |-> (name # "OPEN"), ov |-> <<>>, se |-> <<>>]
Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [j \in DOMAIN f \ {k} |-> f[j]]
Clk(s, c) == IF ~s.reg /\ c \in DOMAIN s.ov THEN s.ov[c] ELSE Number(s.name, s.n, s.g.arr, c[1], c[2])
Se(s, c) == IF c \in DOMAIN s.se THEN s.se[c] ELSE 0
Synced(s, a, b) == Se(s, a) > 0 \/ Se(s, b) > 0
\* b feeds a
Incoming(s, a, b) == a # b /\ ((Clk(s, b) + 1) % s.n = Clk(s, a) \/ Synced(s, a, b))
Outgoing(s, a, b) == a # b /\ ((Clk(s, a) + 1) % s.n = Clk(s, b) \/ Synced(s, a, b))
InZones(s, c)  == {b \in Adjacent(s.g, c) : Incoming(s, c, b)}
OutZones(s, c) == {b \in Adjacent(s.g, c) : Outgoing(s, c, b)}

(* the transitions on a store *)
Assign(s, c, k) == [s EXCEPT !.reg = FALSE, !.ov = Put(s.ov, c, k % s.n)]
Replace(s, name, n) == [NewStore(s.g, s.hex, name, n) EXCEPT !.se = s.se]
Resize(s, X, Y, Z) == [s EXCEPT !.g = [s.g EXCEPT !.X = X, !.Y = Y, !.Z = Z]]
SetSe(s, c, k) == [s EXCEPT !.se = IF k = 0 THEN Drop(s.se, c) ELSE Put(s.se, c, k)]

(* handles *)
HNew(m, s) == [ref |-> Append(m.ref, Len(m.stores) + 1), stores |-> Append(m.stores, s)]
HCopy(m, h) == [m EXCEPT !.ref = Append(m.ref, m.ref[h])]
HClone(m, h) == HNew(m, m.stores[m.ref[h]])
HUpd(m, h, s) == [m EXCEPT !.stores[m.ref[h]] = s]
HGet(m, h) == m.stores[m.ref[h]]
=============================================================================
