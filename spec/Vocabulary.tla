----------------------------- MODULE Vocabulary -----------------------------
(***************************************************************************)
(* The technology vocabulary: cell types and modes of the four             *)
(* technologies, tile ports, gate functions of the mapping library, SiDB   *)
(* charge states, SiDB defects, and simulation parameters.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* cell types: code point |-> the classes it belongs to *)
QCA == [e |-> {"empty"}, x |-> {"normal"}, i |-> {"input"}, o |-> {"output"}, c0 |-> {"const0", "const"}, c1 |-> {"const1", "const"}]
MolQCA == [e |-> {"empty"}, a |-> {"normal", "normal1"}, b |-> {"normal", "normal2"}, c |-> {"normal", "normal3"}, d |-> {"normal", "normal4"},
           i |-> {"input"}, o |-> {"output"}, c0 |-> {"const0", "const"}, c1 |-> {"const1", "const"}]
INML == [e |-> {"empty"}, x |-> {"normal"}, i |-> {"input"}, o |-> {"output"}, u |-> {"slant", "slantup"}, d |-> {"slant", "slantdown"},
         n |-> {"inverter"}, c |-> {"crosswire"}, f |-> {"coupler"}]
SiDB == [e |-> {"empty"}, x |-> {"normal"}, i |-> {"input"}, o |-> {"output"}, l |-> {"logic"}]
CellClasses(tech, type) == CASE tech = "qca" -> QCA[type] [] tech = "mol" -> MolQCA[type] [] tech = "inml" -> INML[type] [] tech = "sidb" -> SiDB[type]
ModeClasses(tech, mode) == IF tech \in {"inml", "sidb"} THEN {"normal"}
                           ELSE CASE mode = 0 -> {"normal"} [] mode = 1 -> {"rotated"} [] mode = 2 -> {"vertical"} [] mode = 3 -> {"crossover"}
MolClock(type) == CASE type = "b" -> 1 [] type = "c" -> 2 [] type = "d" -> 3 [] OTHER -> 0

(* ports: positions <<x, y>>, directions 0..8 clockwise from north; flags play no role in identity *)
PosLt(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2])
DirName == <<"N", "NE", "E", "SE", "S", "SW", "W", "NW", "?">>

(* Boolean functions as sequences of 2^n bits; bit m+1 is the value under minterm m (first variable = least significant) *)
Bit(m, v) == (m \div (2^v)) % 2
TT(n, F(_)) == [m1 \in 1..(2^n) |-> F(m1 - 1)]
A(m) == Bit(m, 0)
B(m) == Bit(m, 1)
C(m) == Bit(m, 2)
N(b) == 1 - b
Mx(a, b) == IF a > b THEN a ELSE b
X(a, b) == (a + b) % 2
F_zero(m) == 0
F_one(m) == 1
F_buf(m) == A(m)
F_inv(m) == N(A(m))
F_and(m) == A(m) * B(m)
F_nand(m) == N(A(m) * B(m))
F_or(m) == Mx(A(m), B(m))
F_nor(m) == N(Mx(A(m), B(m)))
F_xor(m) == X(A(m), B(m))
F_xnor(m) == N(X(A(m), B(m)))
F_lt(m) == IF A(m) < B(m) THEN 1 ELSE 0
F_gt(m) == IF A(m) > B(m) THEN 1 ELSE 0
F_le(m) == IF A(m) <= B(m) THEN 1 ELSE 0
F_ge(m) == IF A(m) >= B(m) THEN 1 ELSE 0
F_and3(m) == A(m) * B(m) * C(m)
F_xorand(m) == A(m) * X(B(m), C(m))
F_orand(m) == A(m) * Mx(B(m), C(m))
F_onehot(m) == IF A(m) + B(m) + C(m) = 1 THEN 1 ELSE 0
F_maj(m) == IF A(m) + B(m) + C(m) >= 2 THEN 1 ELSE 0
F_gamble(m) == IF A(m) + B(m) + C(m) \in {0, 3} THEN 1 ELSE 0
F_dot(m) == X(A(m), Mx(C(m), A(m) * B(m)))
F_mux(m) == IF C(m) = 1 THEN B(m) ELSE A(m)
F_andxor(m) == X(A(m), B(m) * C(m))
GateTT(g) == CASE g = "zero" -> TT(0, F_zero) [] g = "one" -> TT(0, F_one) [] g = "buf" -> TT(1, F_buf) [] g = "inv" -> TT(1, F_inv)
  [] g = "and2" -> TT(2, F_and) [] g = "nand2" -> TT(2, F_nand) [] g = "or2" -> TT(2, F_or) [] g = "nor2" -> TT(2, F_nor)
  [] g = "xor2" -> TT(2, F_xor) [] g = "xnor2" -> TT(2, F_xnor) [] g = "lt2" -> TT(2, F_lt) [] g = "gt2" -> TT(2, F_gt)
  [] g = "le2" -> TT(2, F_le) [] g = "ge2" -> TT(2, F_ge) [] g = "and3" -> TT(3, F_and3) [] g = "xor_and" -> TT(3, F_xorand)
  [] g = "or_and" -> TT(3, F_orand) [] g = "onehot" -> TT(3, F_onehot) [] g = "maj3" -> TT(3, F_maj) [] g = "gamble" -> TT(3, F_gamble)
  [] g = "dot" -> TT(3, F_dot) [] g = "mux" -> TT(3, F_mux) [] g = "and_xor" -> TT(3, F_andxor)
(* a decayed gate computes the 3-input function with inputs tied together, fixed, or permuted: every input of f is
   connected to one of the decayed gate's n inputs or to a constant *)
Conn(n) == [1..3 -> 0..(n + 1)]                   \* 0..n-1: that input;  n: constant 0;  n+1: constant 1
Val(n, cn, m, v) == IF cn[v] < n THEN Bit(m, cn[v]) ELSE cn[v] - n
Sub3(f, n, cn) == [m1 \in 1..(2^n) |-> f[1 + Val(n, cn, m1-1, 1) + 2 * Val(n, cn, m1-1, 2) + 4 * Val(n, cn, m1-1, 3)]]
Decays(f, n) == {Sub3(f, n, cn) : cn \in Conn(n)}

(* charge states: -1, 0, +1, and 127 for "none" *)
SignToState(s) == IF s \in {-1, 0, 1} THEN s ELSE 127
StateToSign(c) == IF c \in {-1, 1} THEN c ELSE 0
Sym(c) == CASE c = -1 -> "-" [] c = 0 -> "0" [] c = 1 -> "+" [] OTHER -> ""
RECURSIVE ChargeStr(_)
ChargeStr(q) == IF q = <<>> THEN "" ELSE Sym(Head(q)) \o ChargeStr(Tail(q))
StatesFor(base) == IF base = 2 THEN <<-1, 0>> ELSE <<-1, 0, 1>>

(* defects: type codes as in the enumeration NONE, DB, SI_VACANCY, ..., ARSENIC, UNKNOWN *)
DNone == 0
ChargedTypes == {1, 2, 13}
ChargedDefect(t, q) == q # 0 \/ t \in ChargedTypes
NeutralDefect(t, q) == t # DNone /\ ~ChargedDefect(t, q)
\* ow = <<>>: no override given, otherwise <<h, v>>
Extent(t, q, cow, now) == IF ChargedDefect(t, q) THEN (IF cow = <<>> THEN <<26, 13>> ELSE cow)
                          ELSE IF NeutralDefect(t, q) THEN (IF now = <<>> THEN <<1, 0>> ELSE now) ELSE <<0, 0>>
ASSUME \A t \in 0..14, q \in -2..2 : (ChargedDefect(t, q) /\ NeutralDefect(t, q)) = FALSE
=============================================================================
