---------------------------- MODULE PathFinding ----------------------------
(***************************************************************************)
(* Paths in a layout.  An environment E is                                 *)
(*   [s: layout, clocked: do paths follow the clocking?, obst: is there an *)
(*    obstruction interface?, oc: obstructed tiles, on: obstructed         *)
(*    connections (ordered pairs), cross: may wires be crossed?]           *)
(* A step leads from a tile to a neighbour in the ground layer or, over a  *)
(* crossable wire there, in the layer above it.                            *)
(***************************************************************************)
EXTENDS Doc

Occupied(E, c) == c \in DOMAIN E.s.at
Blocked(E, c) == E.obst /\ (c \in E.oc \/ Occupied(E, c))
\* signals are told apart by their columns, not by their layers: a fan-in of b comes from a's column ...
FeedsSignal(E, a, b) == Occupied(E, b) /\ \E k \in 1..Len(Fanins(E.s, TRUE, E.s.at[b])) : Column(Fanins(E.s, TRUE, E.s.at[b])[k]) = Column(a)
\* ... or a fan-out of a lies in b's column
SignalFeeds(E, a, b) == Occupied(E, a) /\ \E m \in Fanouts(E.s, TRUE, E.s.at[a]) : Column(N(E.s, m).t) = Column(b)
BlockedStep(E, a, b) == E.obst /\ (<<a, b>> \in E.on \/ FeedsSignal(E, a, b) \/ SignalFeeds(E, a, b))
\* a wire in use may be crossed, unless the path is on the crossing layer right above the wire's own source
Crossable(E, a, b) ==
  /\ Occupied(E, b) /\ IsWire(E.s, E.s.at[b]) /\ ~IsPi(E.s, E.s.at[b]) /\ ~IsPo(E.s, E.s.at[b])
  /\ Fanins(E.s, TRUE, E.s.at[b]) # <<>> /\ Fanouts(E.s, TRUE, E.s.at[b]) # {}
  /\ (a[3] = 0 \/ ~(Occupied(E, Go(E.s.k.g, a, "d")) /\ FeedsSignal(E, a, b)))
Neighbours(E, a) == IF E.clocked THEN OutZones(E.s.k, a) ELSE Adjacent(E.s.k.g, a)
\* the tile reached from a in the column of neighbour b on the way to tgt, or <<>>.
\* up: may the path end on the crossing layer?
Reached(E, a, b, tgt, up) ==
  LET g == E.s.k.g
      lo == Go(g, b, "d")
      hi == Go(g, lo, "u")
      to == IF ~Blocked(E, lo) \/ lo = tgt THEN lo
            ELSE IF E.cross /\ hi # lo /\ (Crossable(E, a, lo) \/ (up /\ hi = tgt)) /\ ((hi # tgt /\ ~Blocked(E, hi)) \/ (up /\ hi = tgt)) THEN hi
            ELSE <<>>
  IN IF to # <<>> /\ ~BlockedStep(E, a, to) THEN to ELSE <<>>
Steps(E, a, tgt, up) == {Reached(E, a, b, tgt, up) : b \in Neighbours(E, a)} \ {<<>>}

IsPath(E, p, src, tgt, up) ==
  /\ Len(p) > 0 /\ p[1] = src /\ p[Len(p)] = tgt
  /\ \A k \in 1..(Len(p)-1) : p[k+1] \in Steps(E, p[k], tgt, up)
LoopFree(p) == Cardinality({p[k] : k \in 1..Len(p)}) = Len(p)
\* cost of a step: 1, or dependent on both of its tiles
Weight(w, a, c) == IF w THEN 1 + ((a[1] * 7 + a[2] * 6 + c[1] * 5 + c[2] * 3 + a[1] * c[2]) % 5) ELSE 1
Cost(w, p) == LET RECURSIVE q(_) q(k) == IF k > Len(p) THEN 0 ELSE Weight(w, p[k-1], p[k]) + q(k+1) IN q(2)
\* cheapest cost from src to tgt, or -1: settle tiles in order of their cost
MinCost(E, w, src, tgt, up) ==
  LET sc == [c \in Coords(E.s.k.g) |-> Steps(E, c, tgt, up)]
      RECURSIVE go(_, _, _)
      \* done: settled tiles; fr: function from open tiles to their best known cost
      go(d, done, fr) ==
        IF tgt \in DOMAIN fr /\ fr[tgt] = d THEN d
        ELSE IF DOMAIN fr = {} THEN -1
        ELSE LET now == {c \in DOMAIN fr : fr[c] = d}
                 dn  == done \cup now
                 rest == DOMAIN fr \ now
                 new == (UNION {sc[c] : c \in now}) \ dn
                 via(c) == {d + Weight(w, a, c) : a \in {b \in now : c \in sc[b]}}
                 best(c) == LET v == IF c \in new THEN CHOOSE x \in via(c) : \A y \in via(c) : x <= y ELSE -1
                            IN IF c \notin rest THEN v ELSE IF v = -1 \/ fr[c] < v THEN fr[c] ELSE v
             IN go(d + 1, dn, [c \in rest \cup new |-> best(c)])
  IN go(0, {}, (src :> 0))
\* all loop-free paths
AllPaths(E, src, tgt, up) ==
  LET sc == [c \in Coords(E.s.k.g) |-> Steps(E, c, tgt, up)]
      RECURSIVE ext(_)
      ext(p) == LET c == p[Len(p)] IN
        IF c = tgt THEN {p}
        ELSE UNION {ext(Append(p, b)) : b \in sc[c] \ {p[k] : k \in 1..Len(p)}}
  IN ext(<<src>>)

(* ---- distances ---- *)
Ab(n) == IF n < 0 THEN -n ELSE n
Manhattan(a, b) == Ab(a[1] - b[1]) + Ab(a[2] - b[2])
Chebyshev(a, b) == LET x == Ab(a[1] - b[1])  y == Ab(a[2] - b[2]) IN IF x < y THEN y ELSE x
Squared(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
Wave(a, b) == IF a[1] <= b[1] /\ a[2] <= b[2] THEN Manhattan(a, b) ELSE -1
=============================================================================
