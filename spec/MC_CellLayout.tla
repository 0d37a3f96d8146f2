---------------------------- MODULE MC_CellLayout ----------------------------
(* Layered cell-level layouts with two or three handles on small surfaces, exhaustively to a bounded depth. *)
EXTENDS CellLayout
CONSTANTS MaxOps, MaxHandles
VARIABLES m, n, last
vars == <<m, n, last>>
G0 == [arr |-> "cart", X |-> 1, Y |-> 0, Z |-> 0]
Pts == {<<0, 0, 0>>, <<1, 0, 0>>}
Defects == {[t |-> "DB", q |-> -1, p |-> 0], [t |-> "GUNK", q |-> 0, p |-> 0], [t |-> "NONE", q |-> 0, p |-> 0]}
Init == /\ m = LNew(M0, CNew(NewStore(G0, FALSE, "COLUMNAR", 4), FALSE, "", 1, 1)) /\ n = 0 /\ last = [h |-> 0, w |-> "", pre |-> M0]
Do(h, w, mm) == m' = mm /\ n' = n + 1 /\ last' = [h |-> h, w |-> w, pre |-> m]
Next == /\ n < MaxOps
        /\ \E h \in 1..Len(m.hd) : LET s == LC(m, h)  x == LX(m, h) IN
             \/ \E c \in Pts : \/ \E t \in {"i", "o", "x", EMPTY} : Do(h, "c", LSetC(m, h, AssignType(s, c, t)))
                               \/ \E v \in 0..1 : Do(h, "c", LSetC(m, h, AssignMode(s, c, v)))
             \/ m.hd[h].k = "defect" /\ \E c \in Pts : \/ \E d \in Defects : Do(h, "x", LSetX(m, h, AssignDefect(x, c, d)))
                                                       \/ \E b \in Pts : Do(h, "x", LSetX(m, h, MoveDefect(x, c, b)))
             \/ m.hd[h].k = "obst" /\ \E c \in Pts : Do(h, "x", LSetX(m, h, Obstruct(x, c))) \/ Do(h, "x", LSetX(m, h, Clear1(x, c)))
             \/ Len(m.hd) < MaxHandles /\ \/ Do(h, "h", LClone(m, h)) \/ Do(h, "h", LCopy(m, h))
                                          \/ m.hd[h].k = "cell" /\ \E k \in {"defect", "obst"} : Do(h, "h", LWrap(m, h, k, XNew({})))
\* inputs and outputs are exactly the cells typed so, and disjoint
Io == \A h \in 1..Len(m.hd) : LET s == LC(m, h) IN OfType(s, "i") \cap OfType(s, "o") = {} /\ \A c \in Cells(s) : s.type[c] # EMPTY
\* an operation is seen by exactly those handles that share the store it changed
Isolated == \A q \in 1..Len(last.pre.hd) : last.h = 0 \/
   /\ (LC(m, q) # LC(last.pre, q) => last.w = "c" /\ m.hd[q].c = m.hd[last.h].c)
   /\ (LX(m, q) # LX(last.pre, q) => last.w = "x" /\ m.hd[q].x = m.hd[last.h].x)
\* a new handle shows what its origin shows, except that wrapping starts with an empty surface
Fresh == last.w = "h" => LET q == Len(m.hd) IN /\ LC(m, q) = LC(m, last.h)
                                               /\ (m.hd[q].k = "defect" /\ m.hd[last.h].k = "defect") => LX(m, q) = LX(m, last.h)
\* boxes are tight: they contain everything, and something touches each side
Tight == \A h \in 1..Len(m.hd) : LET s == LC(m, h)  x == LX(m, h)  b == BB(s, x)  P == Cells(s) \cup DOMAIN x.df IN
   P # {} => /\ \A c \in P : b.min[1] <= c[1] /\ c[1] <= b.max[1] /\ b.min[2] <= c[2] /\ c[2] <= b.max[2]
             /\ \E c \in P : c[1] = b.min[1] /\ \E d \in P : d[1] = b.max[1]
\* defects are never lost by moving them to a free place
Defective == \A h \in 1..Len(m.hd) : \A c \in DOMAIN LX(m, h).df : LX(m, h).df[c].t # "NONE"
=============================================================================
