---------------------------- MODULE T_CellLayout ----------------------------
EXTENDS CellLayout, TraceCheck
Ran(q) == {q[n] : n \in 1..Len(q)}
IsSet(q, S) == Ran(q) = S /\ Len(q) = Cardinality(S)
CLInit(hh) == M0
FreshStore(e) == CNew(NewStore([arr |-> "cart", X |-> e.X, Y |-> e.Y, Z |-> e.Z], FALSE, e.name, e.n), e.sq, e.nm, e.tx, e.ty)
Dims(s, X, Y, Z) == [s EXCEPT !.k = NewStore([arr |-> "cart", X |-> X, Y |-> Y, Z |-> Z], FALSE, "OPEN", 4)]
OnlyCells(s) == MapCells(s, LAMBDA c : c)
Off(P, a) == IF P = {} THEN 0 ELSE MinOf({c[a] : c \in P})
Conv(m, e) ==
  LET s == LC(m, e.h)  g == s.k.g  x == LX(m, e.h)  P == Cells(s) \cup DOMAIN x.df IN
  CASE e.to = "norm"  -> LET dx == Off(P, 1)  dy == Off(P, 2)
                         IN <<Dims(MapCells(s, LAMBDA c : Shift(c, dx, dy)), g.X - dx, g.Y - dy, g.Z), MapDefects(x, LAMBDA c : Shift(c, dx, dy))>>
    [] e.to = "siqad" -> <<[Dims(MapCells(s, ToSiqad), g.X, g.Y \div 2, 1) EXCEPT !.sq = TRUE], MapDefects(x, ToSiqad)>>
    [] e.to \in {"row", "urow"} ->
         \* the unsigned grid cannot hold negative coordinates; the layout is moved to the origin first
         LET neg == e.to = "urow" /\ \E c \in P : c[1] < 0 \/ c[2] < 0
             dx == IF neg THEN Off(P, 1) ELSE 0
             dy == IF neg THEN Off(P, 2) ELSE 0
             F(c) == ToRow(Shift(c, dx, dy))
         IN <<[Dims(MapCells(s, F), g.X - dx, 2 * (g.Y - dy) + 1, 0) EXCEPT !.sq = FALSE], MapDefects(x, F)>>
CLStep(m, e) ==
  IF e.op \in {"span", "rnd", "alias"} THEN m ELSE
  LET s == LC(m, e.h)  x == LX(m, e.h)  C(q) == LSetC(m, e.h, q)  X(q) == LSetX(m, e.h, q) IN
  CASE e.op = "new"    -> LNew(m, FreshStore(e))
    [] e.op = "copy"   -> LCopy(m, e.h)
    [] e.op = "clone"  -> LClone(m, e.h)
    [] e.op = "wrap"   -> LWrap(m, e.h, e.kind, XNew(Ran(e.ignore)))
    [] e.op = "type"   -> C(AssignType(s, e.c, e.v))
    [] e.op = "mode"   -> C(AssignMode(s, e.c, e.v))
    [] e.op = "name"   -> C(AssignName(s, e.c, e.v))
    [] e.op = "lname"  -> C([s EXCEPT !.nm = e.v])
    [] e.op = "tsx"    -> C([s EXCEPT !.tx = e.v])
    [] e.op = "tsy"    -> C([s EXCEPT !.ty = e.v])
    [] e.op = "clk"    -> C([s EXCEPT !.k = Assign(s.k, e.c, e.v)])
    [] e.op = "scheme" -> C([s EXCEPT !.k = Replace(s.k, e.name, e.n)])
    [] e.op = "resize" -> C([s EXCEPT !.k = Resize(s.k, e.X, e.Y, e.Z)])
    [] e.op = "defect" -> X(AssignDefect(x, e.c, e.d))
    [] e.op = "mdefect" -> X(MoveDefect(x, e.a, e.b))
    [] e.op = "obst"   -> X(Obstruct(x, e.c))
    [] e.op = "unobst" -> X(Clear1(x, e.c))
    [] e.op = "obstc"  -> X(ObstructC(x, e.a, e.b))
    [] e.op = "unobstc" -> X(ClearC(x, e.a, e.b))
    [] e.op = "noobst" -> X([x EXCEPT !.oc = {}])
    [] e.op = "noobstc" -> X([x EXCEPT !.on = {}])
    [] e.op = "conv"   -> LET r == Conv(m, e)  a == LNew(m, OnlyCells(r[1])) IN
                          IF m.hd[e.h].k = "defect" THEN LWrap(a, Len(a.hd), "defect", r[2]) ELSE a
    [] OTHER -> m
Basic(s, o) ==
  LET g == s.k.g IN
  /\ <<o.X, o.Y, o.Z>> = <<g.X, g.Y, g.Z>> /\ o.nm = s.nm /\ o.tx = s.tx /\ o.ty = s.ty
  /\ o.n = Cardinality(Cells(s)) /\ o.empty = (Cells(s) = {})
  /\ IsSet(o.cells, {<<c, s.type[c], ModeAt(s, c), NameAt(s, c)>> : c \in Cells(s)})
  /\ IsSet(o.pis, OfType(s, "i")) /\ IsSet(o.pos, OfType(s, "o"))
  /\ o.np = Cardinality(OfType(s, "i")) /\ o.no = Cardinality(OfType(s, "o"))
  /\ \A p \in 1..Len(o.by) : LET b == o.by[p] IN b.n = Cardinality(OfType(s, b.t)) /\ IsSet(b.c, OfType(s, b.t))
  /\ \A p \in 1..Len(o.at) : LET b == o.at[p] IN
        /\ b.t = TypeAt(s, b.c) /\ b.m = ModeAt(s, b.c) /\ b.nm = NameAt(s, b.c) /\ b.e = (b.c \notin Cells(s))
        /\ b.pi = (TypeAt(s, b.c) = "i") /\ b.po = (TypeAt(s, b.c) = "o")
        /\ b.k = -1 \/ b.k = CellClk(s, b.c)
Box(s, x, o) == LET b == BB(s, x) IN
  /\ o.min = b.min /\ o.max = b.max /\ o.xs = b.max[1] - b.min[1] /\ o.ys = b.max[2] - b.min[2]
DefectRec(x, c) == [c |-> c, t |-> x.df[c].t, q |-> x.df[c].q, p |-> x.df[c].p]
Surf(s, x, o) ==
  LET D == DOMAIN x.df  num(P(_)) == Cardinality({c \in D : P(x.df[c])}) IN
  /\ IsSet(o.df, {DefectRec(x, c) : c \in D}) /\ o.n = Cardinality(D)
  /\ o.pos = num(LAMBDA d : d.q > 0) /\ o.neg = num(LAMBDA d : d.q < 0) /\ o.chg = num(LAMBDA d : d.q # 0) /\ o.neu = num(Neutral)
  /\ \A p \in 1..Len(o.at) : LET b == o.at[p] IN b.t = (IF b.c \in D THEN x.df[b.c].t ELSE "NONE")
  /\ \A p \in 1..Len(o.aff) : LET b == o.aff[p] IN IsSet(b.r, Affected(s, x, b.c, o.signed, b.cov, b.nov))
  /\ \A p \in 1..Len(o.all) : LET b == o.all[p] IN IsSet(b.r, AllAffected(s, x, o.signed, b.cov, b.nov))
Obst(s, x, o) ==
  /\ \A p \in 1..Len(o.at) : o.at[p].o = Obstructed(s, x, o.at[p].c)
  /\ \A p \in 1..Len(o.on) : o.on[p].o = (<<o.on[p].a, o.on[p].b>> \in x.on)
\* equality of layouts as the library defines it: the same cells with the same types, and the same defects
Same(m, p, q) == LC(m, p).type = LC(m, q).type /\ LX(m, p).df = LX(m, q).df
\* the rectangle spanned by two corners, row by row
RowOf(e, c) == IF e.sq THEN 2 * c[2] + c[3] ELSE c[2]
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a < b THEN b ELSE a
Span(e) == LET x0 == Lo(e.a[1], e.b[1])  x1 == Hi(e.a[1], e.b[1])  y0 == Lo(RowOf(e, e.a), RowOf(e, e.b))  y1 == Hi(RowOf(e, e.a), RowOf(e, e.b))
               w == x1 - x0 + 1
           IN [k \in 1..(w * (y1 - y0 + 1)) |-> AtRow([sq |-> e.sq], x0 + ((k-1) % w), y0 + ((k-1) \div w))]
CLGood(m0, m, e) ==
  /\ e.op = "span" => e.r = Span(e)
  /\ e.op = "alias" => e.got = e.want /\ e.ptr
  /\ e.op = "rnd" => e.r \in Ran(Span(e))
  /\ Len(e.obs) = Len(m.hd)
  /\ \A p \in 1..Len(m.hd) : LET s == LC(m, p)  x == LX(m, p)  o == e.obs[p] IN
       /\ o.kind = m.hd[p].k /\ Basic(s, o.b)
       /\ \A j \in 1..Len(o.box) : Box(s, x, o.box[j])
       /\ m.hd[p].k = "defect" => Surf(s, x, o.x)
       /\ m.hd[p].k = "obst" => Obst(s, x, o.x)
  /\ \A p \in 1..Len(e.same) : LET b == e.same[p] IN b.r = Same(m, b.p, b.q) /\ (b.r => b.dig)
=============================================================================
