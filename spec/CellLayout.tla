----------------------------- MODULE CellLayout -----------------------------
(***************************************************************************)
(* Cell-level layouts and what is layered on them.  A cell store is a      *)
(* clocking store plus partial maps from cells to types, modes and names.  *)
(* A handle refers to a cell store and, if it is a defect surface or an    *)
(* obstruction layout, to a second store with defects or obstructions.     *)
(* Copying a handle shares both stores, cloning duplicates both; wrapping  *)
(* a layout makes a handle on the same cells with a fresh second store.    *)
(* Cells may lie outside the layout's nominal bounds (SiDB surfaces use    *)
(* negative coordinates).                                                  *)
(***************************************************************************)
EXTENDS Clocking

CNew(k, sq, nm, tx, ty) == [k |-> k, sq |-> sq, nm |-> nm, tx |-> tx, ty |-> ty, type |-> <<>>, mode |-> <<>>, name |-> <<>>]
EMPTY == " "
AssignType(s, c, t) == IF t = EMPTY THEN [s EXCEPT !.type = Drop(s.type, c), !.mode = Drop(s.mode, c)] ELSE [s EXCEPT !.type = Put(s.type, c, t)]
AssignMode(s, c, v) == [s EXCEPT !.mode = IF v = 0 THEN Drop(s.mode, c) ELSE Put(s.mode, c, v)]
AssignName(s, c, n) == [s EXCEPT !.name = IF n = "" THEN Drop(s.name, c) ELSE Put(s.name, c, n)]
TypeAt(s, c) == IF c \in DOMAIN s.type THEN s.type[c] ELSE EMPTY
ModeAt(s, c) == IF c \in DOMAIN s.mode THEN s.mode[c] ELSE 0
NameAt(s, c) == IF c \in DOMAIN s.name THEN s.name[c] ELSE ""
Cells(s) == DOMAIN s.type
OfType(s, t) == {c \in Cells(s) : s.type[c] = t}
\* cells of one tile share its clock zone
CellClk(s, c) == Clk(s.k, <<c[1] \div s.tx, c[2] \div s.ty, c[3]>>)

(* surfaces *)
XNew(ignore) == [df |-> <<>>, ignore |-> ignore, oc |-> {}, on |-> {}]
NoX == XNew({})
AssignDefect(x, c, d) == [x EXCEPT !.df = IF d.t = "NONE" \/ d.t \in x.ignore THEN Drop(x.df, c) ELSE Put(x.df, c, d)]
\* a moved defect replaces whatever was at its new place; moving nothing does nothing
MoveDefect(x, a, b) == IF a \notin DOMAIN x.df THEN x ELSE [x EXCEPT !.df = Put(Drop(x.df, a), b, x.df[a])]
ChargedDefect(d) == d.q # 0 \/ d.t \in {"DB", "SI_VACANCY", "ARSENIC"}
Neutral(d) == ~ChargedDefect(d)
Extent(d, cov, nov) == IF ChargedDefect(d) THEN (IF cov = <<>> THEN <<26, 13>> ELSE cov) ELSE (IF nov = <<>> THEN <<1, 0>> ELSE nov)
\* dangling bonds must not be fabricated within a defect's influence
Within(s, c) == c[1] <= s.k.g.X /\ c[2] <= s.k.g.Y /\ c[3] <= s.k.g.Z
Affected(s, x, c, signed, cov, nov) ==
   IF c \notin DOMAIN x.df THEN {}
   ELSE LET e == Extent(x.df[c], cov, nov) IN
        {p \in ((c[1]-e[1])..(c[1]+e[1])) \X ((c[2]-e[2])..(c[2]+e[2])) \X {c[3]} : Within(s, p) /\ (signed \/ (p[1] >= 0 /\ p[2] >= 0))}
AllAffected(s, x, signed, cov, nov) == UNION {Affected(s, x, c, signed, cov, nov) : c \in DOMAIN x.df}
Obstruct(x, c) == [x EXCEPT !.oc = @ \cup {c}]
Clear1(x, c) == [x EXCEPT !.oc = @ \ {c}]
ObstructC(x, a, b) == [x EXCEPT !.on = @ \cup {<<a, b>>}]
ClearC(x, a, b) == [x EXCEPT !.on = @ \ {<<a, b>>}]
Obstructed(s, x, c) == c \in x.oc \/ c \in Cells(s)

(* bounding boxes: tight around cells and defects; SiQAD rows count both sublattices *)
Row(s, c) == IF s.sq THEN 2 * c[2] + c[3] ELSE c[2]
MinOf(S) == CHOOSE v \in S : \A w \in S : v <= w
MaxOf(S) == CHOOSE v \in S : \A w \in S : v >= w
AtRow(s, x, r) == IF s.sq THEN <<x, r \div 2, r % 2>> ELSE <<x, r, 0>>
Corner(s, P, F(_)) == IF P = {} THEN <<0, 0, 0>> ELSE AtRow(s, F({c[1] : c \in P}), F({Row(s, c) : c \in P}))
BB(s, x) == LET P == Cells(s) \cup DOMAIN x.df IN [min |-> Corner(s, P, MinOf), max |-> Corner(s, P, MaxOf)]

(* handles on layered stores *)
M0 == [hd |-> <<>>, cs |-> <<>>, xs |-> <<>>]
LNew(m, s) == [m EXCEPT !.hd = Append(@, [k |-> "cell", c |-> Len(m.cs) + 1, x |-> 0]), !.cs = Append(@, s)]
LCopy(m, h) == [m EXCEPT !.hd = Append(@, m.hd[h])]
LWrap(m, h, kind, x) == [m EXCEPT !.hd = Append(@, [k |-> kind, c |-> m.hd[h].c, x |-> Len(m.xs) + 1]), !.xs = Append(@, x)]
LC(m, h) == m.cs[m.hd[h].c]
LX(m, h) == IF m.hd[h].x = 0 THEN NoX ELSE m.xs[m.hd[h].x]
\* obstructions are not part of the layout: cloning an obstruction layout clones the layout below
LClone(m, h) == LET a == LNew(m, LC(m, h)) IN
   IF m.hd[h].k # "defect" THEN a
   ELSE [a EXCEPT !.hd[Len(a.hd)].k = "defect", !.hd[Len(a.hd)].x = Len(m.xs) + 1, !.xs = Append(@, LX(m, h))]
LSetC(m, h, s) == [m EXCEPT !.cs[m.hd[h].c] = s]
LSetX(m, h, x) == [m EXCEPT !.xs[m.hd[h].x] = x]

(* conversions *)
MapCells(s, F(_)) == LET mp(f) == [c \in {F(q) : q \in DOMAIN f} |-> f[CHOOSE q \in DOMAIN f : F(q) = c]]
                     IN [s EXCEPT !.type = mp(s.type), !.mode = mp([c \in DOMAIN s.mode \cap Cells(s) |-> s.mode[c]]),
                                  !.name = mp([c \in DOMAIN s.name \cap Cells(s) |-> s.name[c]])]
MapDefects(x, F(_)) == [x EXCEPT !.df = [c \in {F(q) : q \in DOMAIN x.df} |-> x.df[CHOOSE q \in DOMAIN x.df : F(q) = c]]]
ToSiqad(c) == <<c[1], c[2] \div 2, c[2] % 2>>
ToRow(c) == <<c[1], 2 * c[2] + c[3], 0>>
Shift(c, dx, dy) == <<c[1] - dx, c[2] - dy, c[3]>>
=============================================================================
