-------------------------------- MODULE Sdfg --------------------------------
(***************************************************************************)
(* The meaning of a structured SDFG: a small-step machine.                 *)
(*                                                                         *)
(* A program is a flat sequence of elements (sequence, block, if, for, map,*)
(* while, break, continue, return); the machine keeps a stack of frames,   *)
(* the values of variables (scalars and pointers) and a heap of objects.   *)
(* One step executes one child of a sequence together with the transition  *)
(* that follows it, or one loop decision.  A map may execute its remaining *)
(* iterations in any order; the assignments of one transition may be       *)
(* executed in any order.  Everything else is deterministic.               *)
(*                                                                         *)
(* Values are integers (floating-point programs are run on integers, where *)
(* the operations used are exact).  UNSPEC stands for a value the program  *)
(* does not define (uninitialised, overflow, division by zero); branching  *)
(* on it, or using it as an address, makes the run undefined.              *)
(* A pointer is obj * 10^6 + 5*10^5 + byte offset.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

UNSPEC == 2147483647
NAN == 2147483645      \* only where a caller passes it: the arithmetic of not-a-number
LIM == 1073741823
PB == 1000000
PO == 500000

Clip(x) == IF x > LIM \/ x < -LIM THEN UNSPEC ELSE x
Ab(x) == IF x < 0 THEN -x ELSE x
AddV(a, b) == IF a = UNSPEC \/ b = UNSPEC THEN UNSPEC ELSE Clip(a + b)
MulV(a, b) == IF a = 0 \/ b = 0 THEN (IF a = UNSPEC \/ b = UNSPEC THEN UNSPEC ELSE 0)
              ELSE IF a = UNSPEC \/ b = UNSPEC THEN UNSPEC
              ELSE IF a = 1 THEN b ELSE IF b = 1 THEN a
              ELSE IF (Ab(a) <= 32767 /\ Ab(b) <= 32767) THEN Clip(a * b)
              ELSE IF Ab(b) < Ab(a) /\ Ab(a) <= LIM \div Ab(b) THEN a * b
              ELSE IF Ab(a) <= Ab(b) /\ Ab(b) <= LIM \div Ab(a) THEN a * b ELSE UNSPEC
NegV(a) == IF a = UNSPEC THEN UNSPEC ELSE -a
SubV(a, b) == AddV(a, NegV(b))
\* integer division towards zero
TDiv(a, b) == IF a = UNSPEC \/ b = UNSPEC \/ b = 0 THEN UNSPEC
              ELSE LET q == Ab(a) \div Ab(b) IN IF (a < 0) # (b < 0) THEN -q ELSE q
TMod(a, b) == IF a = UNSPEC \/ b = UNSPEC \/ b = 0 THEN UNSPEC
              ELSE LET q == Ab(a) % Ab(b) IN IF a < 0 THEN -q ELSE q
RECURSIVE PowV(_, _)
PowV(a, n) == IF n = UNSPEC \/ n < 0 THEN UNSPEC ELSE IF n = 0 THEN 1 ELSE MulV(a, PowV(a, n - 1))
Tst(b) == IF b THEN 1 ELSE 0

(* ----------------------------------------------------------- expressions *)
RECURSIVE Ev(_, _), SumE(_, _, _), ProdE(_, _, _), MaxE(_, _, _), MinE(_, _, _), AllE(_, _, _), AnyE(_, _, _)
SumE(s, i, v) == IF i > Len(s) THEN 0 ELSE AddV(Ev(s[i], v), SumE(s, i + 1, v))
ProdE(s, i, v) == IF i > Len(s) THEN 1 ELSE MulV(Ev(s[i], v), ProdE(s, i + 1, v))
MaxE(s, i, v) == LET x == Ev(s[i], v) IN
    IF i = Len(s) THEN x ELSE LET y == MaxE(s, i + 1, v) IN
    IF x = UNSPEC \/ y = UNSPEC THEN UNSPEC ELSE IF x > y THEN x ELSE y
MinE(s, i, v) == LET x == Ev(s[i], v) IN
    IF i = Len(s) THEN x ELSE LET y == MinE(s, i + 1, v) IN
    IF x = UNSPEC \/ y = UNSPEC THEN UNSPEC ELSE IF x < y THEN x ELSE y
\* conjunction: false as soon as one conjunct is false
AllE(s, i, v) == IF i > Len(s) THEN 1 ELSE
    LET x == Ev(s[i], v) y == AllE(s, i + 1, v) IN
    IF x = 0 \/ y = 0 THEN 0 ELSE IF x = UNSPEC \/ y = UNSPEC THEN UNSPEC ELSE 1
AnyE(s, i, v) == IF i > Len(s) THEN 0 ELSE
    LET x == Ev(s[i], v) y == AnyE(s, i + 1, v) IN
    IF (x # 0 /\ x # UNSPEC) \/ (y # 0 /\ y # UNSPEC) THEN 1 ELSE IF x = UNSPEC \/ y = UNSPEC THEN UNSPEC ELSE 0
Cmp(a, b, op) == IF a = UNSPEC \/ b = UNSPEC THEN UNSPEC
    ELSE CASE op = "<" -> Tst(a < b) [] op = "<=" -> Tst(a <= b) [] op = "==" -> Tst(a = b) [] OTHER -> Tst(a # b)
Ev(e, v) ==
    CASE e.k = "n" -> e.v
      [] e.k = "s" -> IF e.s \in DOMAIN v THEN v[e.s] ELSE UNSPEC
      [] e.k = "null" -> 0
      [] e.k = "+" -> SumE(e.a, 1, v)
      [] e.k = "*" -> ProdE(e.a, 1, v)
      [] e.k = "^" -> PowV(Ev(e.a[1], v), Ev(e.a[2], v))
      [] e.k = "max" -> MaxE(e.a, 1, v)
      [] e.k = "min" -> MinE(e.a, 1, v)
      [] e.k \in {"<", "<=", "==", "!="} -> Cmp(Ev(e.a[1], v), Ev(e.a[2], v), e.k)
      [] e.k = "and" -> AllE(e.a, 1, v)
      [] e.k = "or" -> AnyE(e.a, 1, v)
      [] e.k = "not" -> LET x == Ev(e.a[1], v) IN IF x = UNSPEC THEN UNSPEC ELSE Tst(x = 0)
      [] e.k = "idiv" -> TDiv(Ev(e.a[1], v), Ev(e.a[2], v))
      [] e.k = "imod" -> TMod(Ev(e.a[1], v), Ev(e.a[2], v))
      [] e.k = "iabs" -> LET x == Ev(e.a[1], v) IN IF x = UNSPEC THEN UNSPEC ELSE Ab(x)
      [] e.k \in {"zext_i64", "trunc_i32"} -> Ev(e.a[1], v)
      [] OTHER -> UNSPEC

(* ----------------------------------------------------------------- types *)
Size(t) == CASE t \in {"i64", "u64", "f64", "ptr"} -> 8 [] t \in {"i32", "u32", "f32"} -> 4
             [] t \in {"i16", "u16"} -> 2 [] OTHER -> 1
\* a value stored in a variable or cell of type t; outside the range of the type it is not specified
Conv(x, t) == IF x = UNSPEC THEN UNSPEC
    ELSE IF x = NAN THEN (IF t \in {"f64", "f32"} THEN NAN ELSE UNSPEC)
    ELSE CASE t = "bool" -> IF x = 0 THEN 0 ELSE 1
           [] t \in {"u64", "u32"} -> IF x < 0 THEN UNSPEC ELSE x
           [] t = "u16" -> IF x < 0 \/ x > 65535 THEN UNSPEC ELSE x
           [] t = "u8" -> IF x < 0 \/ x > 255 THEN UNSPEC ELSE x
           [] t = "i16" -> IF x < -32768 \/ x > 32767 THEN UNSPEC ELSE x
           [] t = "i8" -> IF x < -128 \/ x > 127 THEN UNSPEC ELSE x
           [] OTHER -> x

(* ------------------------------------------------------------------ heap *)
\* an object: b bytes, cells of sz bytes (0: not yet known), fill (initial content), d (cells)
NewObj(b, fill) == [b |-> b, sz |-> 0, fill |-> fill, d |-> <<>>]
MkPtr(o, off) == o * PB + PO + off
ObjOf(p) == p \div PB
OffOf(p) == (p % PB) - PO
Typed(o, s) == IF o.sz = 0 THEN [o EXCEPT !.sz = s, !.d = [i \in 1..(o.b \div s) |-> o.fill]] ELSE o
Valid(h, p, s) ==
    /\ p # UNSPEC /\ p >= PB /\ ObjOf(p) <= Len(h)
    /\ LET o == h[ObjOf(p)] f == OffOf(p) IN
       /\ f >= 0 /\ f + s <= o.b /\ f % s = 0 /\ o.sz \in {0, s}
ReadCell(h, p, s) == LET o == h[ObjOf(p)] IN IF o.sz = 0 THEN o.fill ELSE o.d[OffOf(p) \div s + 1]
WriteCell(h, p, s, x) == [h EXCEPT ![ObjOf(p)] = [Typed(@, s) EXCEPT !.d[OffOf(p) \div s + 1] = x]]

\* machine part that data flow works on: v variables, h heap, ok
AddrOf(pl, v) == LET f == Ev(pl.off, v) b == IF pl.c \in DOMAIN v THEN v[pl.c] ELSE UNSPEC IN
    IF f = UNSPEC \/ b = UNSPEC THEN UNSPEC
    ELSE IF Ab(f) > 50000 \/ b < PB THEN UNSPEC ELSE b + f * Size(pl.t)

Bad(s) == [s EXCEPT !.ok = FALSE]
\* <<ok, value>>
Load(s, pl) ==
    IF pl.k = TRUE THEN <<TRUE, IF "n" \in DOMAIN pl THEN pl.n ELSE 0>>
    ELSE IF pl.v = TRUE THEN <<TRUE, s.v[pl.c]>>
    ELSE LET a == AddrOf(pl, s.v) IN
         IF ~Valid(s.h, a, Size(pl.t)) THEN <<FALSE, UNSPEC>> ELSE <<TRUE, ReadCell(s.h, a, Size(pl.t))>>
Store(s, pl, x) ==
    IF pl.v = TRUE THEN [s EXCEPT !.v[pl.c] = Conv(x, pl.t)]
    ELSE LET a == AddrOf(pl, s.v) IN
         IF ~Valid(s.h, a, Size(pl.t)) THEN Bad(s) ELSE [s EXCEPT !.h = WriteCell(@, a, Size(pl.t), Conv(x, pl.t))]
RECURSIVE StoreAll(_, _, _, _)
StoreAll(s, outs, i, x) == IF i > Len(outs) THEN s ELSE StoreAll(Store(s, outs[i], x), outs, i + 1, x)

(* -------------------------------------------------------------- tasklets *)
HasU(s) == \E i \in 1..Len(s) : s[i] = UNSPEC
NonNeg(s) == \A i \in 1..Len(s) : s[i] >= 0
RECURSIVE BitOp(_, _, _, _)
BitOp(a, b, op, n) == IF n = 0 THEN 0 ELSE
    LET x == a % 2 y == b % 2
        z == CASE op = "and" -> IF x + y = 2 THEN 1 ELSE 0 [] op = "or" -> IF x + y > 0 THEN 1 ELSE 0 [] OTHER -> (x + y) % 2
    IN z + 2 * BitOp(a \div 2, b \div 2, op, n - 1)
\* two's complement: the low 20 bits, and the operation on the signs
Bits(a, b, op) == IF Ab(a) > 1048575 \/ Ab(b) > 1048575 THEN UNSPEC
    ELSE BitOp(a, b, op, 20) - 1048576 * BitOp(Tst(a < 0), Tst(b < 0), op, 1)
Pow2(n) == 2 ^ n
Hash1(f, x) == ((Len(f) * 7 + 11) * (Ab(x) % 20011) + (IF x < 0 THEN 13 ELSE 0) + Len(f)) % 10007
\* integers of w bits read as unsigned, and unsigned values put back
Width(t) == CASE t \in {"i8", "u8"} -> 8 [] t \in {"i16", "u16"} -> 16 [] t \in {"i32", "u32"} -> 32 [] OTHER -> 64
AsU(x, t) == IF x >= 0 THEN x ELSE IF Width(t) <= 16 THEN x + Pow2(Width(t)) ELSE UNSPEC
FromU(x, t) == IF x = UNSPEC THEN UNSPEC
               ELSE IF t \in {"i8", "i16"} /\ x < Pow2(Width(t)) /\ x >= Pow2(Width(t) - 1) THEN x - Pow2(Width(t)) ELSE x
\* order of the unsigned readings: negative numbers are the large ones
ULt(a, b) == IF (a < 0) = (b < 0) THEN a < b ELSE b < 0
UOPS == {"int_udiv", "int_urem", "int_lshr", "int_umin", "int_umax", "int_ucmp", "int_uge", "int_ugt", "int_ule", "int_ult"}
FTESTS == {"fp_oeq", "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord", "fp_ueq", "fp_une", "fp_uge", "fp_ugt", "fp_ule", "fp_ult", "fp_uno"}
Task(c, a) ==
    IF HasU(a) THEN UNSPEC
    ELSE IF \E i \in 1..Len(a) : a[i] = NAN THEN
        (IF c \in {"fp_oeq", "fp_one", "fp_oge", "fp_ogt", "fp_ole", "fp_olt", "fp_ord"} THEN 0
         ELSE IF c \in FTESTS THEN 1 ELSE NAN)
    ELSE IF c \in UOPS /\ ~NonNeg(a) THEN UNSPEC
    ELSE CASE c = "assign" -> a[1]
      [] c = "fp_neg" -> -a[1]
      [] c \in {"fp_add", "int_add"} -> AddV(a[1], a[2])
      [] c \in {"fp_sub", "int_sub"} -> SubV(a[1], a[2])
      [] c \in {"fp_mul", "int_mul"} -> MulV(a[1], a[2])
      [] c = "fp_div" -> IF a[2] = 0 \/ a[1] % Ab(a[2]) # 0 THEN UNSPEC ELSE TDiv(a[1], a[2])
      [] c = "fp_rem" -> TMod(a[1], a[2])
      [] c = "fp_fma" -> AddV(MulV(a[1], a[2]), a[3])
      [] c \in {"fp_oeq", "fp_ueq", "int_eq"} -> Tst(a[1] = a[2])
      [] c \in {"fp_one", "fp_une", "int_ne"} -> Tst(a[1] # a[2])
      [] c \in {"fp_oge", "fp_uge", "int_sge", "int_uge"} -> Tst(a[1] >= a[2])
      [] c \in {"fp_ogt", "fp_ugt", "int_sgt", "int_ugt"} -> Tst(a[1] > a[2])
      [] c \in {"fp_ole", "fp_ule", "int_sle", "int_ule"} -> Tst(a[1] <= a[2])
      [] c \in {"fp_olt", "fp_ult", "int_slt", "int_ult"} -> Tst(a[1] < a[2])
      [] c = "fp_ord" -> 1
      [] c = "fp_uno" -> 0
      [] c \in {"int_sdiv", "int_udiv"} -> TDiv(a[1], a[2])
      [] c \in {"int_srem", "int_urem"} -> TMod(a[1], a[2])
      [] c = "int_and" -> Bits(a[1], a[2], "and")
      [] c = "int_or" -> Bits(a[1], a[2], "or")
      [] c = "int_xor" -> Bits(a[1], a[2], "xor")
      [] c = "int_shl" -> IF a[1] < 0 \/ a[2] < 0 \/ a[2] > 12 THEN UNSPEC ELSE MulV(a[1], Pow2(a[2]))
      [] c \in {"int_ashr", "int_lshr"} -> IF a[2] < 0 \/ a[2] > 12 THEN UNSPEC ELSE a[1] \div Pow2(a[2])
      [] c \in {"int_smin", "int_umin"} -> IF a[1] < a[2] THEN a[1] ELSE a[2]
      [] c \in {"int_smax", "int_umax"} -> IF a[1] > a[2] THEN a[1] ELSE a[2]
      [] c \in {"int_scmp", "int_ucmp"} -> IF a[1] < a[2] THEN -1 ELSE IF a[1] > a[2] THEN 1 ELSE 0
      [] c = "int_abs" -> Ab(a[1])
      [] OTHER -> UNSPEC

\* with the types of the operands (ts) and of the result (u)
TaskT(c, a, ts, u) ==
    IF c \notin UOPS \/ NonNeg(a) \/ HasU(a) THEN Task(c, a)
    ELSE IF \E i \in 1..Len(ts) : ts[i] # ts[1] THEN UNSPEC
    ELSE CASE c = "int_ult" -> Tst(ULt(a[1], a[2])) [] c = "int_ugt" -> Tst(ULt(a[2], a[1]))
           [] c = "int_ule" -> Tst(~ULt(a[2], a[1])) [] c = "int_uge" -> Tst(~ULt(a[1], a[2]))
           [] c = "int_ucmp" -> IF ULt(a[1], a[2]) THEN -1 ELSE IF ULt(a[2], a[1]) THEN 1 ELSE 0
           [] c = "int_umin" /\ u = ts[1] -> IF ULt(a[1], a[2]) THEN a[1] ELSE a[2]
           [] c = "int_umax" /\ u = ts[1] -> IF ULt(a[1], a[2]) THEN a[2] ELSE a[1]
           [] c \in {"int_udiv", "int_urem", "int_lshr"} /\ Width(u) >= Width(ts[1]) -> FromU(Task(c, [i \in 1..Len(a) |-> AsU(a[i], ts[i])]), u)
           [] OTHER -> UNSPEC

RECURSIVE LoadAll(_, _, _)
LoadAll(s, ins, i) == IF i > Len(ins) THEN <<TRUE, <<>>>> ELSE
    LET x == Load(s, ins[i]) r == LoadAll(s, ins, i + 1) IN <<x[1] /\ r[1], <<x[2]>> \o r[2]>>

(* ---------------------------------------------------------- library nodes *)
EvAll(es, v) == [i \in 1..Len(es) |-> Ev(es[i], v)]
RECURSIVE ProdS(_, _)
ProdS(s, i) == IF i > Len(s) THEN 1 ELSE s[i] * ProdS(s, i + 1)
\* all index vectors of a shape, as a set
Idx(sh) == IF Len(sh) = 0 THEN {<<>>} ELSE
    {f \in [1..Len(sh) -> 0..(LET M == CHOOSE m \in {sh[i] : i \in 1..Len(sh)} : \A i \in 1..Len(sh) : sh[i] <= m IN M)] :
        \A i \in 1..Len(sh) : f[i] < sh[i]}
RECURSIVE Dot(_, _, _)
Dot(x, y, i) == IF i > Len(x) THEN 0 ELSE x[i] * y[i] + Dot(x, y, i + 1)
TAddr(s, c, ix) ==
    LET st == EvAll(c.strides, s.v) o == Ev(c.off, s.v) b == s.v[c.c] IN
    IF b = UNSPEC \/ o = UNSPEC \/ HasU(st) \/ b < PB THEN UNSPEC ELSE b + (o + Dot(ix, st, 1)) * Size(c.t)
\* element of a tensor operand at an index vector (scalars ignore it)
TGet(s, c, ix) ==
    IF c.bt = "const" THEN (IF "n" \in DOMAIN c THEN c.n ELSE 0)
    ELSE IF c.bt = "place" THEN Load(s, c)[2]
    ELSE IF Len(c.shape) = 0 /\ s.v[c.c] < PB THEN s.v[c.c]
    ELSE IF Len(c.shape) = 0 THEN (LET a == TAddr(s, c, <<>>) IN IF Valid(s.h, a, Size(c.t)) THEN ReadCell(s.h, a, Size(c.t)) ELSE UNSPEC)
    ELSE LET a == TAddr(s, c, ix) IN IF Valid(s.h, a, Size(c.t)) THEN ReadCell(s.h, a, Size(c.t)) ELSE UNSPEC
TOk(s, c, ixs) == c.bt # "tensor" \/ \A ix \in ixs : Valid(s.h, TAddr(s, c, ix), Size(c.t))
\* write f[ix] to all indices; all values are computed from the state before
RECURSIVE TPutAll(_, _, _, _)
TPutAll(s, c, ixs, f) == IF ixs = {} THEN s ELSE
    LET ix == CHOOSE x \in ixs : TRUE a == TAddr(s, c, ix) IN
    IF ~Valid(s.h, a, Size(c.t)) THEN Bad(s)
    ELSE TPutAll([s EXCEPT !.h = WriteCell(@, a, Size(c.t), Conv(f[ix], c.t))], c, ixs \ {ix}, f)
Un(code, x) == IF x = UNSPEC THEN UNSPEC ELSE
    CASE code = "Abs" -> Ab(x) [] code = "ReLU" -> IF x > 0 THEN x ELSE 0 [] code \in {"Fill", "Cast"} -> x
      [] OTHER -> UNSPEC
Bin(code, x, y) == IF x = UNSPEC \/ y = UNSPEC THEN UNSPEC ELSE
    CASE code = "Add" -> AddV(x, y) [] code = "Sub" -> SubV(x, y) [] code = "Mul" -> MulV(x, y)
      [] code = "Div" -> IF y = 0 \/ x % Ab(y) # 0 THEN UNSPEC ELSE TDiv(x, y)
      [] code = "Maximum" -> IF x > y THEN x ELSE y [] code = "Minimum" -> IF x < y THEN x ELSE y
      [] OTHER -> UNSPEC
RECURSIVE Fold(_, _, _)
Fold(op, xs, i) == IF i = Len(xs) THEN xs[i] ELSE LET a == xs[i] b == Fold(op, xs, i + 1) IN
    IF a = UNSPEC \/ b = UNSPEC THEN UNSPEC ELSE CASE op = "sum" -> AddV(a, b) [] op = "max" -> IF a > b THEN a ELSE b [] OTHER -> IF a < b THEN a ELSE b
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o SeqOf(S \ {x})
\* the values of g over a set of indices, as a sequence (duplicates kept)
Over(S, g(_)) == LET q == SeqOf(S) IN [i \in 1..Len(q) |-> g(q[i])]
LinEls(sh) == ProdS(sh, 1)

LibElem(s, o) ==
    LET sh == EvAll(o.shape, s.v) ixs == Idx(sh) IN
    IF HasU(sh) THEN Bad(s)
    ELSE CASE o.code \in {"Abs", "ReLU", "Fill", "Cast"} ->
              IF ~TOk(s, o["in"].X, IF Len(o["in"].X.shape) = 0 THEN {<<>>} ELSE ixs) /\ o["in"].X.bt = "tensor" /\ Len(o["in"].X.shape) > 0 THEN Bad(s)
              ELSE TPutAll(s, o.out.Y, ixs, [ix \in ixs |-> Un(o.code, TGet(s, o["in"].X, ix))])
           [] OTHER ->
              TPutAll(s, o.out.C, ixs, [ix \in ixs |-> Bin(o.code, TGet(s, o["in"].A, ix), TGet(s, o["in"].B, ix))])
LibTask(s, o) ==
    LET sh == EvAll(o.shape, s.v) ixs == Idx(sh) IN
    IF HasU(sh) THEN Bad(s)
    ELSE TPutAll(s, o.out["_out"], ixs, [ix \in ixs |-> Task(o.tl, [i \in 1..Len(o.ins) |-> TGet(s, o["in"][o.ins[i]], ix)])])
LibReduce(s, o) ==
    LET sh == EvAll(o.shape, s.v)
        ax == {o.axes[i] + 1 : i \in 1..Len(o.axes)}
        kept == SelectSeq([i \in 1..Len(sh) |-> i], LAMBDA i : i \notin ax)
        osh == IF o.keep THEN [i \in 1..Len(sh) |-> IF i \in ax THEN 1 ELSE sh[i]] ELSE [i \in 1..Len(kept) |-> sh[kept[i]]]
        oix == Idx(osh)
        \* the input positions that contribute to an output position
        src(ix) == {f \in Idx(sh) : IF o.keep THEN \A i \in 1..Len(sh) : i \in ax \/ f[i] = ix[i]
                                    ELSE \A i \in 1..Len(kept) : f[kept[i]] = ix[i]}
        op == CASE o.code \in {"Sum", "Mean"} -> "sum" [] o.code = "Max" -> "max" [] OTHER -> "min"
        red(ix) == LET r == Fold(op, Over(src(ix), LAMBDA f : TGet(s, o["in"].X, f)), 1) n == Cardinality(src(ix)) IN
                   IF o.code # "Mean" THEN r ELSE IF r = UNSPEC \/ r % n # 0 THEN UNSPEC ELSE TDiv(r, n)
    IN IF HasU(sh) \/ \E i \in 1..Len(sh) : sh[i] <= 0 THEN Bad(s)
       ELSE IF o.out.Y.bt = "tensor" /\ Len(o.out.Y.shape) > 0 THEN TPutAll(s, o.out.Y, oix, [ix \in oix |-> red(ix)])
       ELSE IF o.out.Y.bt = "place" THEN Store(s, o.out.Y, red(CHOOSE ix \in oix : TRUE))
       ELSE LET y == red(CHOOSE ix \in oix : TRUE) IN
            IF s.v[o.out.Y.c] # UNSPEC /\ s.v[o.out.Y.c] >= PB THEN TPutAll(s, o.out.Y, {<<>>}, [ix \in {<<>>} |-> y])
            ELSE [s EXCEPT !.v[o.out.Y.c] = Conv(y, o.out.Y.t)]
LibTranspose(s, o) ==
    LET sh == EvAll(o.shape, s.v) p == o.perm
        osh == [i \in 1..Len(sh) |-> sh[p[i] + 1]] oix == Idx(osh)
        \* output index ix comes from the input index whose dimension p[i] is ix[i]
        from(ix) == [d \in 1..Len(sh) |-> ix[CHOOSE i \in 1..Len(sh) : p[i] + 1 = d]]
    IN IF HasU(sh) THEN Bad(s) ELSE TPutAll(s, o.out.Y, oix, [ix \in oix |-> TGet(s, o["in"].X, from(ix))])
LibBroadcast(s, o) ==
    LET sh == EvAll(o.shape, s.v) osh == EvAll(o.oshape, s.v) oix == Idx(osh)
        d == Len(osh) - Len(sh)
        from(ix) == [i \in 1..Len(sh) |-> IF sh[i] = 1 THEN 0 ELSE ix[i + d]]
    IN IF HasU(sh) \/ HasU(osh) THEN Bad(s) ELSE TPutAll(s, o.out.Y, oix, [ix \in oix |-> TGet(s, o["in"].X, from(ix))])
LibMatMul(s, o) ==
    LET sa == EvAll(o.sa, s.v) sb == EvAll(o.sb, s.v)
        ra == Len(sa) rb == Len(sb) M == sa[ra - 1] K == sa[ra] N == sb[rb]
        r == IF ra > rb THEN ra ELSE rb
        bd(q, x, i) == LET j == i - (r - x) IN IF j < 1 THEN 1 ELSE q[j]      \* batch dimension i of an operand
        osh == [i \in 1..r |-> IF i = r THEN N ELSE IF i = r - 1 THEN M ELSE
                 (IF bd(sa, ra, i) > bd(sb, rb, i) THEN bd(sa, ra, i) ELSE bd(sb, rb, i))]
        oix == Idx(osh)
        ia(ix, k) == [i \in 1..ra |-> IF i = ra THEN k ELSE IF i = ra - 1 THEN ix[r - 1] ELSE IF sa[i] = 1 THEN 0 ELSE ix[i + r - ra]]
        ib(ix, k) == [i \in 1..rb |-> IF i = rb THEN ix[r] ELSE IF i = rb - 1 THEN k ELSE IF sb[i] = 1 THEN 0 ELSE ix[i + r - rb]]
    IN IF HasU(sa) \/ HasU(sb) THEN Bad(s)
       ELSE TPutAll(s, o.out.Y, oix, [ix \in oix |->
            Fold("sum", <<0>> \o [k \in 1..K |-> MulV(TGet(s, o["in"].A, ia(ix, k - 1)), TGet(s, o["in"].B, ib(ix, k - 1)))], 1)])
\* ONNX convolution, groups and dilations included
LibConv(s, o) ==
    LET sh == EvAll(o.shape, s.v) ks == EvAll(o.kernel, s.v) st == EvAll(o.strides, s.v) pd == EvAll(o.pads, s.v)
        dl == EvAll(o.dil, s.v) oc == Ev(o.oc, s.v) g == Ev(o.group, s.v)
        n == Len(ks)
        osp == [i \in 1..n |-> ((sh[i + 2] + pd[i] + pd[i + n] - dl[i] * (ks[i] - 1) - 1) \div st[i]) + 1]
        osh == <<sh[1], oc>> \o osp
        oix == Idx(osh)
        cg == sh[2] \div g og == oc \div g
        kix == Idx(<<cg>> \o ks)
        pos(ix, k) == [i \in 1..n |-> ix[i + 2] * st[i] - pd[i] + k[i + 1] * dl[i]]
        inb(ix, k) == \A i \in 1..n : pos(ix, k)[i] >= 0 /\ pos(ix, k)[i] < sh[i + 2]
        xi(ix, k) == <<ix[1], (ix[2] \div og) * cg + k[1]>> \o pos(ix, k)
        wi(ix, k) == <<ix[2]>> \o k
        val(ix) == Fold("sum", <<IF "B" \in DOMAIN o["in"] THEN TGet(s, o["in"].B, <<ix[2]>>) ELSE 0>> \o
            Over({k \in kix : inb(ix, k)}, LAMBDA k : MulV(TGet(s, o["in"].X, xi(ix, k)), TGet(s, o["in"].W, wi(ix, k)))), 1)
    IN IF HasU(sh) \/ HasU(ks) THEN Bad(s) ELSE TPutAll(s, o.out.Y, oix, [ix \in oix |-> val(ix)])
\* cells of a raw pointer operand
PGet(s, c, i) == LET b == s.v[c.c] a == IF b = UNSPEC \/ b < PB THEN UNSPEC ELSE b + i * Size(c.t) IN
    IF Valid(s.h, a, Size(c.t)) THEN ReadCell(s.h, a, Size(c.t)) ELSE UNSPEC
RECURSIVE PPutAll(_, _, _, _)
PPutAll(s, c, S, f) == IF S = {} THEN s ELSE
    LET i == CHOOSE x \in S : TRUE b == s.v[c.c] a == IF b = UNSPEC \/ b < PB THEN UNSPEC ELSE b + i * Size(c.t) IN
    IF ~Valid(s.h, a, Size(c.t)) THEN Bad(s) ELSE PPutAll([s EXCEPT !.h = WriteCell(@, a, Size(c.t), f[i])], c, S \ {i}, f)
LibDot(s, o) ==
    LET n == Ev(o.n, s.v) ix == Ev(o.incx, s.v) iy == Ev(o.incy, s.v)
        r == Fold("sum", <<0>> \o [k \in 1..n |-> MulV(PGet(s, o["in"]["__x"], (k - 1) * ix), PGet(s, o["in"]["__y"], (k - 1) * iy))], 1)
    IN IF o.out["__out"].bt = "place" THEN Store(s, o.out["__out"], r) ELSE PPutAll(s, o.out["__out"], {0}, [i \in {0} |-> r])
Scal(s, c) == IF c.bt = "const" THEN (IF "n" \in DOMAIN c THEN c.n ELSE 0) ELSE IF c.bt = "place" THEN Load(s, c)[2] ELSE TGet(s, c, <<>>)
LibGemm(s, o) ==
    LET m == Ev(o.m, s.v) n == Ev(o.n, s.v) k == Ev(o.k, s.v) lda == Ev(o.lda, s.v) ldb == Ev(o.ldb, s.v) ldc == Ev(o.ldc, s.v)
        al == Scal(s, o["in"]["__alpha"]) be == Scal(s, o["in"]["__beta"])
        at(r, c, ld) == IF o.row THEN r * ld + c ELSE c * ld + r
        A(i, p) == PGet(s, o["in"]["__A"], IF o.ta THEN at(p, i, lda) ELSE at(i, p, lda))
        B(p, j) == PGet(s, o["in"]["__B"], IF o.tb THEN at(j, p, ldb) ELSE at(p, j, ldb))
        cell(i, j) == at(i, j, ldc)
        S == {cell(i, j) : i \in 0..m - 1, j \in 0..n - 1}
        ij(x) == CHOOSE q \in (0..m - 1) \X (0..n - 1) : cell(q[1], q[2]) = x
        val(i, j) == AddV(MulV(al, Fold("sum", <<0>> \o [p \in 1..k |-> MulV(A(i, p - 1), B(p - 1, j))], 1)),
                          IF be = 0 THEN 0 ELSE MulV(be, PGet(s, o["in"]["__C"], cell(i, j))))
    IN PPutAll(s, o.out["__C"], S, [x \in S |-> val(ij(x)[1], ij(x)[2])])
\* memory
RECURSIVE CopyCells(_, _, _, _, _, _)
CopyCells(h, d, vals, i, sz, n) == IF i > n THEN h ELSE CopyCells(WriteCell(h, d + (i - 1) * sz, sz, vals[i]), d, vals, i + 1, sz, n)
LibCopy(s, o) ==
    LET n == Ev(o.count, s.v) d == s.v[o.out["_dst"].c] p == s.v[o["in"]["_src"].c] IN
    IF n = UNSPEC \/ d = UNSPEC \/ p = UNSPEC \/ n < 0 \/ d < PB \/ p < PB THEN Bad(s)
    ELSE LET oz == s.h[ObjOf(p)].sz z == IF oz # 0 THEN oz ELSE s.h[ObjOf(d)].sz IN
         IF n = 0 THEN s
         ELSE IF z = 0 \/ n % z # 0 \/ ~Valid(s.h, p, z) \/ ~Valid(s.h, d, z) \/ ~Valid(s.h, p + n - z, z) \/ ~Valid(s.h, d + n - z, z) THEN Bad(s)
         ELSE IF o.code = "memcpy" /\ ObjOf(p) = ObjOf(d) /\ Ab(p - d) < n THEN Bad(s)
         ELSE [s EXCEPT !.h = CopyCells(@, d, [i \in 1..(n \div z) |-> ReadCell(s.h, p + (i - 1) * z, z)], 1, z, n \div z)]
LibSet(s, o) ==
    LET n == Ev(o.num, s.v) x == Ev(o.value, s.v) d == s.v[o.out["_ptr"].c] IN
    IF n = UNSPEC \/ d = UNSPEC \/ n < 0 \/ d < PB THEN Bad(s)
    ELSE LET ob == s.h[ObjOf(d)] z == ob.sz y == IF x = 0 THEN 0 ELSE IF z = 1 THEN x ELSE UNSPEC IN
         IF n = 0 THEN s
         ELSE IF z = 0 THEN (IF OffOf(d) = 0 /\ n = ob.b THEN [s EXCEPT !.h[ObjOf(d)].fill = IF x = 0 THEN 0 ELSE UNSPEC] ELSE Bad(s))
         ELSE IF n % z # 0 \/ ~Valid(s.h, d, z) \/ ~Valid(s.h, d + n - z, z) THEN Bad(s)
         ELSE [s EXCEPT !.h = CopyCells(@, d, [i \in 1..(n \div z) |-> y], 1, z, n \div z)]
LibAlloc(s, o, fill) ==
    LET n == Ev(o.size, s.v) IN
    IF n = UNSPEC \/ n < 0 \/ n > 400000 \/ Len(s.h) > 900 THEN Bad(s)
    ELSE [s EXCEPT !.h = Append(@, NewObj(n, fill)), !.v[o.out["_ret"].c] = MkPtr(Len(s.h) + 1, 0)]
LibFree(s, o) ==
    LET p == s.v[o["in"]["_ptr"].c] IN
    IF p = 0 THEN s
    ELSE IF p = UNSPEC \/ p < PB \/ ObjOf(p) > Len(s.h) \/ OffOf(p) # 0 \/ s.h[ObjOf(p)].b < 0 THEN Bad(s)
    ELSE [s EXCEPT !.h[ObjOf(p)].b = -1]
LibMath(s, o) ==
    LET a == LoadAll(s, [i \in 1..Len(o.ins) |-> o["in"][o.ins[i]]], 1) x == a[2] IN
    IF ~a[1] THEN Bad(s)
    ELSE LET r == IF HasU(x) THEN UNSPEC
                  ELSE CASE o.fn \in {"fabs"} -> Ab(x[1])
                         [] o.fn \in {"fmax"} -> IF x[1] > x[2] THEN x[1] ELSE x[2]
                         [] o.fn \in {"fmin"} -> IF x[1] < x[2] THEN x[1] ELSE x[2]
                         [] o.fn \in {"floor", "ceil", "trunc", "round", "rint", "nearbyint"} -> x[1]
                         [] Len(x) = 1 -> Hash1(o.fn, x[1])
                         [] OTHER -> UNSPEC
         IN Store(s, o.out["_out"], r)
Lib(s, o) ==
    CASE o.code \in {"Abs", "ReLU", "Fill", "Cast", "Add", "Sub", "Mul", "Div", "Maximum", "Minimum"} -> LibElem(s, o)
      [] o.code = "Tasklet" -> LibTask(s, o)
      [] o.code \in {"Sum", "Max", "Min", "Mean"} -> LibReduce(s, o)
      [] o.code = "Transpose" -> LibTranspose(s, o)
      [] o.code = "Broadcast" -> LibBroadcast(s, o)
      [] o.code = "MatMul" -> LibMatMul(s, o)
      [] o.code = "Conv" -> LibConv(s, o)
      [] o.code = "DOT" -> LibDot(s, o)
      [] o.code = "GEMM" -> LibGemm(s, o)
      [] o.code \in {"memcpy", "memmove"} -> LibCopy(s, o)
      [] o.code = "memset" -> LibSet(s, o)
      [] o.code = "malloc" -> LibAlloc(s, o, UNSPEC)
      [] o.code = "calloc" -> LibAlloc(s, o, 0)
      [] o.code = "free" -> LibFree(s, o)
      [] o.code = "cmath" -> LibMath(s, o)
      [] OTHER -> Bad(s)

(* ------------------------------------------------------------ data flow *)
Op(s, o) ==
    CASE o.op = "t" -> LET a == LoadAll(s, o.ins, 1) IN
                       IF ~a[1] THEN Bad(s)
                       ELSE StoreAll(s, o.outs, 1, TaskT(o.code, a[2], [i \in 1..Len(o.ins) |-> IF "t" \in DOMAIN o.ins[i] THEN o.ins[i].t ELSE "?"], o.outs[1].t))
      [] o.op = "ref" -> IF o.src.k = TRUE THEN [s EXCEPT !.v[o.dst] = 0]
                         ELSE LET a == AddrOf(o.src, s.v) IN [s EXCEPT !.v[o.dst] = a]
      [] o.op = "dsrc" -> LET p == s.v[o.src.c] IN
                          IF ~Valid(s.h, p, Size(o.t)) THEN Bad(s) ELSE [s EXCEPT !.v[o.dst] = ReadCell(s.h, p, Size(o.t))]
      [] o.op = "ddst" -> LET p == s.v[o.dst] x == IF o.src.k = TRUE THEN (IF "n" \in DOMAIN o.src THEN o.src.n ELSE 0) ELSE s.v[o.src.c] IN
                          IF ~Valid(s.h, p, Size(o.t)) THEN Bad(s) ELSE [s EXCEPT !.h = WriteCell(@, p, Size(o.t), x)]
      [] OTHER -> Lib(s, o)
RECURSIVE Ops(_, _, _)
Ops(s, os, i) == IF i > Len(os) \/ ~s.ok THEN s ELSE Ops(Op(s, os[i]), os, i + 1)

(* --------------------------------------------------------------- machine *)
\* transition assignments, one after the other in the given order
RECURSIVE AssignSeq(_, _, _, _)
AssignSeq(v, tr, ord, i) == IF i > Len(ord) THEN v ELSE
    LET a == tr[ord[i]] IN AssignSeq([v EXCEPT ![a.s] = Conv(Ev(a.e, v), a.t)], tr, ord, i + 1)
Id(n) == [i \in 1..n |-> i]
Perms(n) == IF n <= 1 THEN {Id(n)} ELSE IF n <= 3 THEN {f \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => f[i] # f[j]}
            ELSE {Id(n), [i \in 1..n |-> n + 1 - i]}
AfterTr(v, tr, any) == IF any THEN {AssignSeq(v, tr, p, 1) : p \in Perms(Len(tr))} ELSE {AssignSeq(v, tr, Id(Len(tr)), 1)}

Frame(e, i, it) == [e |-> e, i |-> i, it |-> it]
Top(m) == m.st[Len(m.st)]
Pop(st) == SubSeq(st, 1, Len(st) - 1)
Fail(m) == [m EXCEPT !.out = "undef"]
SetTop(m, f) == [m EXCEPT !.st[Len(m.st)] = f]

\* the iterations of a map, in the order of its loop; <<ok, seq>>
RECURSIVE MapIts(_, _, _, _)
MapIts(el, v, x, n) ==
    LET w == [v EXCEPT ![el.iv] = x] c == Ev(el.cond, w) IN
    IF x = UNSPEC \/ c = UNSPEC \/ n > 40 THEN <<FALSE, <<>>>>
    ELSE IF c = 0 THEN <<TRUE, <<>>>>
    ELSE LET r == MapIts(el, v, Conv(Ev(el.upd, w), el.ivt), n + 1) IN <<r[1], <<x>> \o r[2]>>

\* the child of the sequence on top of the stack is finished: run its transition and go on
Finish(D, m, any) ==
    IF m.st = <<>> THEN {[m EXCEPT !.out = "done"]}
    ELSE LET f == Top(m) el == D.els[f.e] IN
         IF el.k = "seq" THEN {[SetTop(m, Frame(f.e, f.i + 1, {})) EXCEPT !.v = w] : w \in AfterTr(m.v, el.tr[f.i], any)}
         ELSE {m}                             \* loop frame: the body is finished, next step decides

IsLoop(D, f) == D.els[f.e].k \in {"for", "map", "while"}
InnerLoop(D, m) == LET L == {i \in 1..Len(m.st) : IsLoop(D, m.st[i])} IN
    IF L = {} THEN 0 ELSE CHOOSE i \in L : \A j \in L : j <= i

Returned(el, v) == IF el.data = "" THEN (IF "n" \in DOMAIN el THEN el.n ELSE 0) ELSE IF el.data \in DOMAIN v THEN v[el.data] ELSE UNSPEC
\* enter the element e (child of the sequence on top)
Enter(D, m, e, any) ==
    LET el == D.els[e] IN
    CASE el.k = "block" ->
            LET s == Ops([v |-> m.v, h |-> m.h, ok |-> TRUE], el.ops, 1) IN
            IF ~s.ok THEN {Fail(m)} ELSE Finish(D, [m EXCEPT !.v = s.v, !.h = s.h], any)
      [] el.k = "seq" -> {[m EXCEPT !.st = Append(@, Frame(e, 1, {}))]}
      [] el.k = "cfg" -> {[m EXCEPT !.st = Append(@, Frame(e, el.start, {}))]}
      [] el.k = "if" ->
            LET c == [i \in 1..Len(el.cs) |-> Ev(el.cs[i].c, m.v)]
                t == {i \in 1..Len(c) : c[i] # 0}
                i == CHOOSE x \in t : \A y \in t : x <= y IN
            IF t = {} THEN Finish(D, m, any)
            ELSE IF c[i] = UNSPEC THEN {Fail(m)}
            ELSE {[m EXCEPT !.st = Append(Append(@, Frame(e, 1, {})), Frame(el.cs[i].b, 1, {}))]}
      [] el.k = "for" ->
            LET x == Conv(Ev(el.init, m.v), el.ivt) IN {[m EXCEPT !.v[el.iv] = x, !.st = Append(@, Frame(e, 0, {}))]}
      [] el.k = "map" ->
            LET its == MapIts(el, m.v, Conv(Ev(el.init, m.v), el.ivt), 0) IN
            IF ~its[1] THEN {Fail(m)} ELSE {[m EXCEPT !.st = Append(@, Frame(e, 0, {its[2][i] : i \in 1..Len(its[2])}))]}
      [] el.k = "while" -> {[m EXCEPT !.st = Append(@, Frame(e, 0, {}))]}
      [] el.k = "break" ->
            LET i == InnerLoop(D, m) IN
            IF i = 0 \/ D.els[m.st[i].e].k = "map" THEN {Fail(m)} ELSE Finish(D, [m EXCEPT !.st = SubSeq(@, 1, i - 1)], any)
      [] el.k = "continue" ->
            LET i == InnerLoop(D, m) IN
            IF i = 0 THEN {Fail(m)} ELSE {[m EXCEPT !.st = SubSeq(@, 1, i)]}
      [] el.k = "return" ->
            {[m EXCEPT !.st = <<>>, !.out = "done",
                       !.ret = Returned(el, m.v)]}
      [] OTHER -> {Fail(m)}

\* a state machine: the dataflow of the state, then the one edge whose condition holds, then its assignments
StateStep(m, f, q, any) ==
    LET s == Ops([v |-> m.v, h |-> m.h, ok |-> TRUE], q.ops, 1)
        c == [i \in 1..Len(q.ed) |-> Ev(q.ed[i].c, s.v)]
        t == {i \in 1..Len(c) : c[i] # 0} IN
    IF ~s.ok \/ (~q.ret /\ (Cardinality(t) # 1 \/ UNSPEC \in {c[i] : i \in t})) THEN {Fail(m)}
    ELSE IF q.ret THEN {[m EXCEPT !.v = s.v, !.h = s.h, !.st = <<>>, !.out = "done", !.ret = Returned(q, s.v)]}
    ELSE LET e == q.ed[CHOOSE i \in t : TRUE] IN
         {[SetTop(m, Frame(f.e, e.to, {})) EXCEPT !.v = w, !.h = s.h] : w \in AfterTr(s.v, e.tr, any)}

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* the iterations that may be next: any of them; with many left only the outermost ones, to bound the orders explored
Picks(S) == IF Cardinality(S) <= 5 THEN S ELSE {MinOf(S), MaxOf(S)}
\* the successors of a running machine; any: all orders, otherwise the order of the loop
StepsOf(D, m, any) ==
    IF m.fuel = 0 THEN {[m EXCEPT !.out = "fuel"]}
    ELSE LET f == Top(m) el == D.els[f.e] n == [m EXCEPT !.fuel = @ - 1] IN
    CASE el.k = "seq" ->
            IF f.i > Len(el.ch) THEN Finish(D, [n EXCEPT !.st = Pop(@)], any)
            ELSE Enter(D, n, el.ch[f.i], any)
      [] el.k = "if" -> Finish(D, [n EXCEPT !.st = Pop(@)], any)
      [] el.k = "for" ->
            LET x == IF f.i = 0 THEN m.v[el.iv] ELSE Conv(Ev(el.upd, m.v), el.ivt)
                w == [m.v EXCEPT ![el.iv] = x] c == Ev(el.cond, w) IN
            IF c = UNSPEC THEN {Fail(m)}
            ELSE IF c = 0 THEN Finish(D, [n EXCEPT !.v = w, !.st = Pop(@)], any)
            ELSE {[n EXCEPT !.v = w, !.st = Append(Append(Pop(@), Frame(f.e, 1, {})), Frame(el.b, 1, {}))]}
      [] el.k = "map" ->
            IF f.it = {} THEN Finish(D, [n EXCEPT !.v[el.iv] = UNSPEC, !.st = Pop(@)], any)
            ELSE {[n EXCEPT !.v[el.iv] = x, !.st = Append(Append(Pop(@), Frame(f.e, 0, f.it \ {x})), Frame(el.b, 1, {}))] :
                    x \in IF any THEN Picks(f.it) ELSE {IF D.els[f.e].down THEN -MinOf({-y : y \in f.it}) ELSE MinOf(f.it)}}
      [] el.k = "while" -> {[n EXCEPT !.st = Append(@, Frame(el.b, 1, {}))]}
      [] el.k = "cfg" -> StateStep(n, f, el.st[f.i], any)
      [] OTHER -> {Fail(m)}

(* initial state: the caller's variables and objects, then the program's own objects *)
RECURSIVE AddOwn(_, _, _, _)
AddOwn(v, h, own, i) == IF i > Len(own) THEN <<v, h>> ELSE
    LET o == own[i] n == Ev(o.n, v) IN
    IF n = UNSPEC \/ n < 0 \/ n > 400000 THEN AddOwn([v EXCEPT ![o.c] = UNSPEC], Append(h, NewObj(0, UNSPEC)), own, i + 1)
    ELSE AddOwn([v EXCEPT ![o.c] = MkPtr(Len(h) + 1, 0)], Append(h, NewObj(n, UNSPEC)), own, i + 1)
StartOf(D, inp, fuel) ==
    LET v0 == [c \in {D.names[i] : i \in 1..Len(D.names)} |-> IF c \in DOMAIN inp.v THEN inp.v[c] ELSE UNSPEC]
        a == AddOwn(v0, inp.h, D.own, 1) IN
    [st |-> <<Frame(D.root, 1, {})>>, v |-> a[1], h |-> a[2], fuel |-> fuel, out |-> "run", ret |-> 0]

(* what a caller can see: its objects and the returned value *)
Seen(m, inp) == [h |-> [i \in 1..Len(inp.h) |-> m.h[i].d], ret |-> m.ret]
SameCell(p, q) == p = UNSPEC \/ p = q
SameSeen(p, q) == /\ SameCell(p.ret, q.ret)
                  /\ \A i \in 1..Len(p.h) : \A j \in 1..Len(p.h[i]) : SameCell(p.h[i][j], q.h[i][j])
=============================================================================
