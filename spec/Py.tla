--------------------------------- MODULE Py ---------------------------------
(* The Python and NumPy subset a user of @native writes kernels in: the value *)
(* of every expression and the effect of every statement, as a state machine  *)
(* that executes one statement per step over an environment of names and a    *)
(* heap of array buffers (slices, transposes and flips are views of a buffer).*)
(* Floats are multiples of 1/16, kept scaled by 16; a value that is not one   *)
(* or is too large is UV, and a program that uses UV is outside the model.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise
UV == 1073741824
LIM == 8388608
ILIM == 524288
Abs(x) == IF x < 0 THEN -x ELSE x
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Sgn(x) == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Fit(dt, x) == IF Abs(x) > (IF dt = "f" THEN LIM ELSE ILIM) THEN UV ELSE x
U == [k |-> "u"]
S(dt, v) == IF v = UV THEN U ELSE [k |-> "s", dt |-> dt, v |-> v]
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
\* C order: the index of element l (from 0) in shape sh, and back
Unrav(l, sh) == [k \in 1..Len(sh) |-> (l \div Prod(SubSeq(sh, k + 1, Len(sh)))) % sh[k]]
Rav(ix, sh) == Sum([k \in 1..Len(sh) |-> ix[k] * Prod(SubSeq(sh, k + 1, Len(sh)))])
CStr(sh) == [k \in 1..Len(sh) |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]

(* ---------------------------------------------------------------- numbers *)
Kind(a, b) == IF a = "f" \/ b = "f" THEN "f" ELSE IF a = "i" \/ b = "i" THEN "i" ELSE "b"
Compar == {"==", "!=", "<", "<=", ">", ">="}
ResKind(op, a, b) == IF op \in Compar THEN "b" ELSE IF op = "/" THEN "f" ELSE Kind(a, b)
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE IF Abs(a) > 1073741823 \div Abs(b) THEN UV ELSE a * b
DivEx(a, d) == IF a = UV THEN UV ELSE IF a % d # 0 THEN UV ELSE a \div d      \* d > 0
FloorDiv(a, b) == IF b > 0 THEN a \div b ELSE (-a) \div (-b)
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN 1 ELSE LET r == IPow(a, n - 1) IN IF r = UV THEN UV ELSE Mul(a, r)
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN 16 ELSE LET r == FPow(a, n - 1) IN IF r = UV THEN UV ELSE DivEx(Mul(a, r), 16)
\* a and b carry the scale of the kind k
SameKind(op, k, a, b) ==
  CASE op = "+" -> a + b [] op = "-" -> a - b
    [] op = "*" -> IF k = "f" THEN DivEx(Mul(a, b), 16) ELSE Mul(a, b)
    [] op = "//" -> IF b = 0 THEN UV ELSE IF k = "f" THEN 16 * FloorDiv(a, b) ELSE FloorDiv(a, b)
    [] op = "%" -> IF b = 0 THEN UV ELSE a - b * FloorDiv(a, b)
    [] op = "min" -> Min2(a, b) [] op = "max" -> Max2(a, b)
    [] op = "**" -> IF k = "f" THEN (IF b < 0 \/ b % 16 # 0 \/ b > 64 THEN UV ELSE FPow(a, b \div 16))
                    ELSE IF b < 0 \/ b > 8 THEN UV ELSE IPow(a, b)
    [] op = "&" -> IF k = "f" \/ a < 0 \/ b < 0 THEN UV ELSE a & b
    [] op = "|" -> IF k = "f" \/ a < 0 \/ b < 0 THEN UV ELSE a | b
    [] op = "^" -> IF k = "f" \/ a < 0 \/ b < 0 THEN UV ELSE a ^^ b
    [] op = "<<" -> IF k = "f" \/ b < 0 \/ b > 10 THEN UV ELSE Mul(a, 2 ^ b)
    [] op = ">>" -> IF k = "f" \/ b < 0 \/ b > 10 THEN UV ELSE a \div (2 ^ b)
    [] OTHER -> UV
Truth(b) == IF b THEN 1 ELSE 0
Cmp(op, a, b) == Truth(CASE op = "==" -> a = b [] op = "!=" -> a # b [] op = "<" -> a < b
                         [] op = "<=" -> a <= b [] op = ">" -> a > b [] op = ">=" -> a >= b)
Up(dt, v) == IF dt = "f" THEN v ELSE 16 * v
Bin(op, da, a, db, b) ==
  IF a = UV \/ b = UV THEN UV
  ELSE IF op \in Compar THEN Cmp(op, Up(da, a), Up(db, b))
  ELSE LET k == ResKind(op, da, db) IN
       IF k = "b" /\ op \notin {"&", "|", "^", "min", "max"} THEN UV
       ELSE IF op = "/" THEN (IF b = 0 THEN UV
              ELSE LET n == Mul(Up(da, a), 16) d == Up(db, b) IN IF n = UV THEN UV ELSE Fit("f", IF d > 0 THEN DivEx(n, d) ELSE DivEx(-n, -d)))
       ELSE LET x == IF k = "f" THEN Up(da, a) ELSE a y == IF k = "f" THEN Up(db, b) ELSE b
                r == SameKind(op, k, x, y) IN IF r = UV THEN UV ELSE Fit(k, r)
Trunc(v) == IF v >= 0 THEN v \div 16 ELSE -((-v) \div 16)
Cast(to, dt, v) == IF v = UV THEN UV ELSE IF to = dt THEN v
                   ELSE IF to = "b" THEN Truth(v # 0)
                   ELSE IF to = "f" THEN 16 * v ELSE IF dt = "f" THEN Trunc(v) ELSE v

(* ----------------------------------------------------------------- arrays *)
IsArr(v) == v.k \in {"a", "t"}
Mk(dt, sh, d) == IF \E i \in 1..Len(d) : d[i] = UV THEN U ELSE [k |-> "t", dt |-> dt, sh |-> sh, d |-> d]
At(a, ix) == a.off + Sum([k \in 1..Len(ix) |-> ix[k] * a.st[k]])
\* the elements of a value: a scalar counts as an array of rank 0
T(v, heap) == CASE v.k = "t" -> v
                [] v.k = "s" -> [k |-> "t", dt |-> v.dt, sh |-> <<>>, d |-> <<v.v>>]
                [] v.k = "a" -> [k |-> "t", dt |-> heap[v.b].dt, sh |-> v.sh,
                                 d |-> [l \in 1..Prod(v.sh) |-> heap[v.b].d[At(v, Unrav(l - 1, v.sh)) + 1]]]
Low(t) == IF t.k = "t" /\ t.sh = <<>> THEN S(t.dt, t.d[1]) ELSE t
\* an array that is not a view becomes one over a buffer of its own when it gets a name
Pad(sh, n) == [k \in 1..n |-> IF k <= n - Len(sh) THEN 1 ELSE sh[k - (n - Len(sh))]]
Castable(p, q) == \A k \in 1..Len(p) : p[k] = q[k] \/ p[k] = 1 \/ q[k] = 1
Joined(p, q) == [k \in 1..Len(p) |-> IF p[k] = 1 THEN q[k] ELSE p[k]]
\* element number l (from 0) of t spread over shape sh
Spread(t, l, sh) == LET p == Pad(t.sh, Len(sh)) ix == Unrav(l, sh)
                    IN t.d[Rav([k \in 1..Len(sh) |-> IF p[k] = 1 THEN 0 ELSE ix[k]], p) + 1]
Elem2(op, x, y, heap) ==
  IF x.k = "u" \/ y.k = "u" THEN U
  ELSE LET a == T(x, heap) b == T(y, heap) n == Max2(Len(a.sh), Len(b.sh))
           p == Pad(a.sh, n) q == Pad(b.sh, n)
       IN IF ~Castable(p, q) THEN U
          ELSE LET sh == Joined(p, q) IN
               Low(Mk(ResKind(op, a.dt, b.dt), sh, [l \in 1..Prod(sh) |-> Bin(op, a.dt, Spread(a, l - 1, sh), b.dt, Spread(b, l - 1, sh))]))
Elem1(F(_, _), dt, x, heap) == IF x.k = "u" THEN U ELSE LET a == T(x, heap) IN
                               Low(Mk(dt, a.sh, [l \in 1..Len(a.d) |-> F(a.dt, a.d[l])]))
Neg(dt, v) == -v
AbsV(dt, v) == Abs(v)
Not1(dt, v) == Truth(v = 0)
KindOf(v, heap) == IF v.k = "s" THEN v.dt ELSE IF v.k = "t" THEN v.dt ELSE heap[v.b].dt
ShapeOf(v) == IF v.k = "s" THEN <<>> ELSE v.sh

(* reductions over all axes (ax = <<>>) or one; kept axes have extent 1 *)
RECURSIVE Fold(_, _, _)
Fold(op, dt, s) == IF Len(s) = 1 THEN s[1] ELSE LET r == Fold(op, dt, SubSeq(s, 1, Len(s) - 1)) IN
                   IF r = UV THEN UV ELSE Bin(op, dt, r, dt, s[Len(s)])
Reduce(f, x, ax, keep, heap) ==
  IF x.k = "u" THEN U ELSE
  LET a == T(x, heap) n == Len(a.sh)
      axes == IF ax = <<>> THEN 1..n ELSE {IF ax[1] < 0 THEN ax[1] + n + 1 ELSE ax[1] + 1}
      full == [k \in 1..n |-> IF k \in axes THEN 1 ELSE a.sh[k]]
      cnt == Prod([k \in 1..n |-> IF k \in axes THEN a.sh[k] ELSE 1])
      dt == IF f = "sum" /\ a.dt = "b" THEN "i" ELSE a.dt
      op == CASE f \in {"sum", "mean"} -> "+" [] f = "max" -> "max" [] f = "min" -> "min"
      \* the elements that fold into element l of the result
      group(l) == LET hit == {i \in 1..Len(a.d) : \A k \in 1..n : k \in axes \/ Unrav(i - 1, a.sh)[k] = Unrav(l - 1, full)[k]}
                      RECURSIVE lst(_)
                      lst(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE z \in s : \A w \in s : z <= w IN <<a.d[m]>> \o lst(s \ {m})
                  IN lst(hit)
      val(l) == LET r == Fold(op, dt, group(l)) IN
                IF f # "mean" THEN r ELSE Bin("/", dt, r, "i", cnt)
      rest == SelectSeq([k \in 1..n |-> IF k \in axes THEN -1 ELSE a.sh[k]], LAMBDA z : z >= 0)
  IN IF cnt = 0 \/ ~(axes \subseteq 1..n) THEN U
     ELSE Low(Mk(IF f = "mean" THEN "f" ELSE dt, IF keep THEN full ELSE rest, [l \in 1..Prod(full) |-> val(l)]))
(* products *)
Dot(da, db, x, y) == LET k == Kind(da, db) IN Fold("+", k, [i \in 1..Len(x) |-> Bin("*", da, x[i], db, y[i])])
MatMul(x, y, heap) ==
  IF x.k = "u" \/ y.k = "u" THEN U ELSE
  LET a == T(x, heap) b == T(y, heap) IN
  IF Len(a.sh) \notin 1..2 \/ Len(b.sh) \notin 1..2 THEN U ELSE
  LET r == IF Len(a.sh) = 1 THEN 1 ELSE a.sh[1] n == a.sh[Len(a.sh)] c == IF Len(b.sh) = 1 THEN 1 ELSE b.sh[2]
      row(i) == [k \in 1..n |-> a.d[(i - 1) * n + k]]
      col(j) == [k \in 1..n |-> b.d[(k - 1) * c + j]]
      sh == (IF Len(a.sh) = 1 THEN <<>> ELSE <<r>>) \o (IF Len(b.sh) = 1 THEN <<>> ELSE <<c>>)
  IN IF n # b.sh[1] \/ n = 0 THEN U
     ELSE Low(Mk(Kind(a.dt, b.dt), sh, [l \in 1..(r * c) |-> Dot(a.dt, b.dt, row((l - 1) \div c + 1), col(((l - 1) % c) + 1))]))
Outer(op, x, y, heap) ==
  IF x.k = "u" \/ y.k = "u" THEN U ELSE
  LET a == T(x, heap) b == T(y, heap) n == Len(b.d) IN
  Mk(ResKind(op, a.dt, b.dt), a.sh \o b.sh, [l \in 1..(Len(a.d) * n) |-> Bin(op, a.dt, a.d[(l - 1) \div n + 1], b.dt, b.d[((l - 1) % n) + 1])])
Where(c, x, y, heap) ==
  IF c.k = "u" \/ x.k = "u" \/ y.k = "u" THEN U ELSE
  LET m == T(c, heap) a == T(x, heap) b == T(y, heap) n == Max2(Len(m.sh), Max2(Len(a.sh), Len(b.sh)))
      p == Pad(m.sh, n) q == Pad(a.sh, n) r == Pad(b.sh, n) k == Kind(a.dt, b.dt)
  IN IF ~Castable(p, q) \/ ~Castable(p, r) \/ ~Castable(q, r) THEN U
     ELSE LET sh == Joined(Joined(p, q), r) IN
          Low(Mk(k, sh, [l \in 1..Prod(sh) |-> IF Spread(m, l - 1, sh) # 0 THEN Cast(k, a.dt, Spread(a, l - 1, sh))
                                               ELSE Cast(k, b.dt, Spread(b, l - 1, sh))]))
(* views: a value that has no buffer is put through the same index maps *)
\* the array whose element ix is element off + sum ix[k]*st[k] of the buffer or of the value's own elements
View(v, off, sh, st) == IF v.k = "a" THEN [v EXCEPT !.off = off, !.sh = sh, !.st = st]
                        ELSE Mk(v.dt, sh, [l \in 1..Prod(sh) |-> v.d[off + Sum([k \in 1..Len(sh) |-> Unrav(l - 1, sh)[k] * st[k]]) + 1]])
OffOf(v) == IF v.k = "a" THEN v.off ELSE 0
StrOf(v) == IF v.k = "a" THEN v.st ELSE CStr(v.sh)
Permute(v, p) == View(v, OffOf(v), [k \in 1..Len(p) |-> v.sh[p[k] + 1]], [k \in 1..Len(p) |-> StrOf(v)[p[k] + 1]])
Flip(v, axes) == View(v, OffOf(v) + Sum([k \in 1..Len(v.sh) |-> IF k \in axes THEN (v.sh[k] - 1) * StrOf(v)[k] ELSE 0]), v.sh,
                      [k \in 1..Len(v.sh) |-> IF k \in axes THEN -StrOf(v)[k] ELSE StrOf(v)[k]])
Contig(v) == StrOf(v) = CStr(v.sh)
Reshape(v, sh, heap) == LET free == {k \in 1..Len(sh) : sh[k] = -1}
                            known == Prod([k \in 1..Len(sh) |-> IF sh[k] = -1 THEN 1 ELSE sh[k]])
                            s == [k \in 1..Len(sh) |-> IF sh[k] = -1 THEN Prod(v.sh) \div known ELSE sh[k]]
                        IN IF known <= 0 \/ Cardinality(free) > 1 \/ Prod(s) # Prod(v.sh) THEN U
                           ELSE IF v.k = "a" /\ Contig(v) THEN View(v, v.off, s, CStr(s)) ELSE Mk(KindOf(v, heap), s, T(v, heap).d)
\* Python's slice.indices for an extent n; an absent bound is U
SliceOf(lo, hi, step, n) ==
  LET st == IF step.k = "u" THEN 1 ELSE step.v
      cl(x, a, b) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < a THEN a ELSE IF y > b THEN b ELSE y
      l == IF lo.k = "u" THEN (IF st > 0 THEN 0 ELSE n - 1) ELSE IF st > 0 THEN cl(lo.v, 0, n) ELSE cl(lo.v, -1, n - 1)
      h == IF hi.k = "u" THEN (IF st > 0 THEN n ELSE -1) ELSE IF st > 0 THEN cl(hi.v, 0, n) ELSE cl(hi.v, -1, n - 1)
      c == IF st > 0 THEN (IF h > l THEN (h - l + st - 1) \div st ELSE 0) ELSE (IF h < l THEN (l - h + (-st) - 1) \div (-st) ELSE 0)
  IN [lo |-> l, st |-> st, n |-> c]
\* ix: a sequence of [at |-> TRUE, v] or [at |-> FALSE, lo, hi, step] with evaluated members
Index(v, ix, heap) ==
  IF v.k = "u" \/ ~IsArr(v) \/ Len(ix) > Len(v.sh) THEN U ELSE
  LET n == Len(v.sh) m == Len(ix)
      ok == \A k \in 1..m : IF ix[k].at THEN ix[k].v.k = "s" /\ ix[k].v.dt = "i" /\ ix[k].v.v >= -v.sh[k] /\ ix[k].v.v < v.sh[k]
                            ELSE \A z \in {ix[k].lo, ix[k].hi, ix[k].step} : z.k = "u" \/ (z.k = "s" /\ z.dt = "i")
      wrap(k) == IF ix[k].v.v < 0 THEN ix[k].v.v + v.sh[k] ELSE ix[k].v.v
      sl(k) == SliceOf(ix[k].lo, ix[k].hi, ix[k].step, v.sh[k])
      kept == SelectSeq([k \in 1..n |-> k], LAMBDA k : k > m \/ ~ix[k].at)
  IN IF ~ok \/ (\E k \in 1..m : ~ix[k].at /\ ix[k].step.k = "s" /\ ix[k].step.v = 0) THEN U
     ELSE LET off == OffOf(v) + Sum([k \in 1..m |-> StrOf(v)[k] * (IF ix[k].at THEN wrap(k) ELSE sl(k).lo)])
              sh == [j \in 1..Len(kept) |-> IF kept[j] > m THEN v.sh[kept[j]] ELSE sl(kept[j]).n]
              st == [j \in 1..Len(kept) |-> IF kept[j] > m THEN StrOf(v)[kept[j]] ELSE StrOf(v)[kept[j]] * sl(kept[j]).st]
          IN IF kept = <<>> THEN (IF v.k = "a" THEN S(heap[v.b].dt, heap[v.b].d[off + 1]) ELSE S(v.dt, v.d[off + 1]))
             ELSE View(v, off, sh, st)

(* ------------------------------------------------------------ expressions *)
\* G: [env, heap, fns]; fns maps a helper's name to [ps, lets, e]
RECURSIVE Eval(_, _), EvalAll(_, _), EvalIx(_, _), Lets(_, _, _)
EvalAll(es, G) == [i \in 1..Len(es) |-> Eval(es[i], G)]
EvalIx(ix, G) == [i \in 1..Len(ix) |-> IF ix[i].at THEN [at |-> TRUE, v |-> Eval(ix[i].v, G)]
                   ELSE [at |-> FALSE, lo |-> Eval(ix[i].lo, G), hi |-> Eval(ix[i].hi, G), step |-> Eval(ix[i].step, G)]]
Lets(ls, i, G) == IF i > Len(ls) THEN G
                  ELSE LET v == Eval(ls[i].e, G) IN Lets(ls, i + 1, [G EXCEPT !.env = (ls[i].x :> v) @@ G.env])
True(v) == v.v # 0
SOf(v) == v.k = "s"
IntsOf(vs) == [i \in 1..Len(vs) |-> IF vs[i].k = "s" /\ vs[i].dt = "i" THEN vs[i].v ELSE UV]
Call(e, a, G) ==
  LET h == G.heap f == e.f
      und == \E i \in 1..Len(a) : a[i].k = "u"
  IN
  CASE f = "user" -> LET d == G.fns[e.name] IN
                     Eval(d.e, Lets(d.lets, 1, [G EXCEPT !.env = [x \in {d.ps[i] : i \in 1..Len(d.ps)} |->
                            a[CHOOSE i \in 1..Len(d.ps) : d.ps[i] = x]] @@ [x \in {"_"} |-> U]]))
    [] f = "zeros" -> LET s == IntsOf(a) IN IF \E i \in 1..Len(s) : s[i] < 0 \/ s[i] > 64 THEN U
                      ELSE Mk(e.dt, s, [l \in 1..Prod(s) |-> 0])
    [] f = "ones" -> LET s == IntsOf(a) IN IF \E i \in 1..Len(s) : s[i] < 0 \/ s[i] > 64 THEN U
                     ELSE Mk(e.dt, s, [l \in 1..Prod(s) |-> IF e.dt = "f" THEN 16 ELSE 1])
    [] f = "eye" -> LET s == IntsOf(a) IN IF s[1] < 0 \/ s[1] > 64 THEN U
                    ELSE Mk(e.dt, <<s[1], s[1]>>, [l \in 1..(s[1] * s[1]) |-> IF (l - 1) \div s[1] = (l - 1) % s[1] THEN (IF e.dt = "f" THEN 16 ELSE 1) ELSE 0])
    [] und -> U
    [] f = "zeros_like" -> IF ~IsArr(a[1]) THEN U ELSE Mk(KindOf(a[1], h), a[1].sh, [l \in 1..Prod(a[1].sh) |-> 0])
    [] f \in {"minp", "maxp"} -> IF \E i \in 1..Len(a) : ~SOf(a[i]) THEN U
                     \* Python keeps the first of equals; the value is the same number whichever it is
                     ELSE LET k == IF \E i \in 1..Len(a) : a[i].dt = "f" THEN "f" ELSE IF \E i \in 1..Len(a) : a[i].dt = "i" THEN "i" ELSE "b"
                          IN S(k, Fold(IF f = "minp" THEN "min" ELSE "max", k, [i \in 1..Len(a) |-> Cast(k, a[i].dt, a[i].v)]))
    [] f = "int" -> IF SOf(a[1]) THEN S("i", Cast("i", a[1].dt, a[1].v)) ELSE U
    [] f = "float" -> IF SOf(a[1]) THEN S("f", Cast("f", a[1].dt, a[1].v)) ELSE U
    [] f = "bool" -> IF SOf(a[1]) THEN S("b", Cast("b", a[1].dt, a[1].v)) ELSE U
    [] f \in {"abs", "npabs"} -> IF KindOf(a[1], h) = "b" THEN U ELSE Elem1(AbsV, KindOf(a[1], h), a[1], h)
    [] f \in {"minimum", "maximum", "add", "subtract", "multiply", "divide"} ->
         Elem2(CASE f = "minimum" -> "min" [] f = "maximum" -> "max" [] f = "add" -> "+" [] f = "subtract" -> "-" [] f = "multiply" -> "*" [] f = "divide" -> "/", a[1], a[2], h)
    [] f = "clip" -> Elem2("min", Elem2("max", a[1], a[2], h), a[3], h)
    [] f \in {"sum", "max", "min", "mean"} -> IF IsArr(a[1]) THEN Reduce(f, a[1], e.axis, e.keep, h) ELSE U
    [] f \in {"matmul", "dot"} -> MatMul(a[1], a[2], h)
    [] f = "outer" -> IF Len(ShapeOf(a[1])) = 1 /\ Len(ShapeOf(a[2])) = 1 THEN Outer(e.op, a[1], a[2], h) ELSE U
    [] f = "transpose" -> IF ~IsArr(a[1]) THEN U ELSE Permute(a[1], IF e.perm = <<>> THEN Rev([k \in 1..Len(a[1].sh) |-> k - 1]) ELSE e.perm)
    [] f = "flip" -> IF ~IsArr(a[1]) THEN U ELSE LET n == Len(a[1].sh) IN
                     Flip(a[1], IF e.axis = <<>> THEN 1..n ELSE {IF e.axis[1] < 0 THEN e.axis[1] + n + 1 ELSE e.axis[1] + 1})
    [] f = "reshape" -> IF ~IsArr(a[1]) THEN U ELSE Reshape(a[1], IntsOf(Tail(a)), h)
    [] f = "where" -> Where(a[1], a[2], a[3], h)
    [] f = "astype" -> IF ~IsArr(a[1]) THEN U ELSE LET t == T(a[1], h) IN Mk(e.dt, t.sh, [l \in 1..Len(t.d) |-> Cast(e.dt, t.dt, t.d[l])])
    [] f = "copy" -> IF ~IsArr(a[1]) THEN U ELSE T(a[1], h)
    [] f = "shape" -> IF IsArr(a[1]) /\ e.d + 1 <= Len(a[1].sh) THEN S("i", a[1].sh[e.d + 1]) ELSE U
    [] OTHER -> U
Eval(e, G) ==
  CASE e.t = "c" -> S(e.dt, e.v)
    [] e.t = "none" -> U
    [] e.t = "v" -> IF e.x \in DOMAIN G.env THEN G.env[e.x] ELSE U
    [] e.t = "bin" -> LET a == Eval(e.a, G) b == Eval(e.b, G) IN
                      IF e.op = "@" THEN MatMul(a, b, G.heap) ELSE Elem2(e.op, a, b, G.heap)
    [] e.t = "and" -> LET a == Eval(e.a, G) IN IF ~SOf(a) THEN U ELSE IF ~True(a) THEN S("b", 0)
                      ELSE LET b == Eval(e.b, G) IN IF ~SOf(b) THEN U ELSE S("b", Truth(True(b)))
    [] e.t = "or" -> LET a == Eval(e.a, G) IN IF ~SOf(a) THEN U ELSE IF True(a) THEN S("b", 1)
                     ELSE LET b == Eval(e.b, G) IN IF ~SOf(b) THEN U ELSE S("b", Truth(True(b)))
    [] e.t = "not" -> LET a == Eval(e.a, G) IN IF ~SOf(a) THEN U ELSE S("b", Truth(~True(a)))
    [] e.t = "neg" -> LET a == Eval(e.a, G) IN IF a.k = "u" \/ (a.k # "u" /\ KindOf(a, G.heap) = "b") THEN U ELSE Elem1(Neg, KindOf(a, G.heap), a, G.heap)
    [] e.t = "idx" -> Index(Eval(e.a, G), EvalIx(e.ix, G), G.heap)
    [] e.t = "call" -> Call(e, EvalAll(e.args, G), G)
    [] OTHER -> U

(* --------------------------------------------------------------- programs *)
\* a program P: [ps, fns, body]; a state m: [out, env, heap, stk, ret, fuel]
Frame(ss) == [t |-> "blk", ss |-> ss, pc |-> 1]
GOf(P, m) == [env |-> m.env, heap |-> m.heap, fns |-> P.fns]
Undef(m) == [m EXCEPT !.out = "undef"]
\* binding a name: arrays without a buffer get one
Bind(m, x, v) ==
  IF v.k = "u" THEN Undef(m)
  ELSE IF v.k = "t" THEN [m EXCEPT !.heap = Append(@, [dt |-> v.dt, d |-> v.d]),
                                   !.env = (x :> [k |-> "a", b |-> Len(m.heap) + 1, off |-> 0, sh |-> v.sh, st |-> CStr(v.sh)]) @@ @]
  ELSE [m EXCEPT !.env = (x :> v) @@ @]
RECURSIVE BindAll(_, _, _, _)
BindAll(m, xs, vs, i) == IF i > Len(xs) \/ m.out # "run" THEN m ELSE BindAll(Bind(m, xs[i], vs[i]), xs, vs, i + 1)
\* writing val over the elements of view a; the new elements are computed before any is written
Write(m, a, val) ==
  IF val.k = "u" \/ a.k # "a" THEN Undef(m) ELSE
  LET t == T(val, m.heap) n == Len(a.sh) IN
  IF Len(t.sh) > n THEN Undef(m) ELSE
  LET p == Pad(t.sh, n) dt == m.heap[a.b].dt IN
  IF \E k \in 1..n : p[k] # 1 /\ p[k] # a.sh[k] THEN Undef(m) ELSE
  LET N == Prod(a.sh)
      new == [l \in 1..N |-> Cast(dt, t.dt, Spread(t, l - 1, a.sh))]
      pos == [l \in 1..N |-> At(a, Unrav(l - 1, a.sh)) + 1]
      d == m.heap[a.b].d
  IN IF \E l \in 1..N : Fit(dt, new[l]) = UV THEN Undef(m)
     ELSE [m EXCEPT !.heap[a.b].d = [i \in 1..Len(d) |-> LET hit == {l \in 1..N : pos[l] = i} IN
                                       IF hit = {} THEN d[i] ELSE new[CHOOSE l \in hit : \A q \in hit : q <= l]]]
\* the place A[ix]: a view even when it is a single element
Place(v, ix, heap) == IF v.k # "a" THEN U
   ELSE IF Len(ix) = Len(v.sh) /\ \A k \in 1..Len(ix) : ix[k].at
        THEN (IF \A k \in 1..Len(ix) : ix[k].v.k = "s" /\ ix[k].v.dt = "i" /\ ix[k].v.v >= -v.sh[k] /\ ix[k].v.v < v.sh[k]
              THEN [v EXCEPT !.off = v.off + Sum([k \in 1..Len(ix) |-> v.st[k] * (IF ix[k].v.v < 0 THEN ix[k].v.v + v.sh[k] ELSE ix[k].v.v)]), !.sh = <<>>, !.st = <<>>]
              ELSE U)
   ELSE Index(v, ix, heap)
\* NumPy refuses to put floats into an array of integers in place
InPlace(m, a, op, e, G) ==
  LET old == Low(T(a, m.heap)) v == Elem2(op, old, e, m.heap) IN
  IF v.k = "u" THEN Undef(m)
  ELSE IF a.sh # <<>> /\ m.heap[a.b].dt # "f" /\ KindOf(v, m.heap) # m.heap[a.b].dt THEN Undef(m)
  ELSE IF ShapeOf(v) # a.sh THEN Undef(m) ELSE Write(m, a, v)
Loop(f) == f.t \in {"while", "for", "each"}
RECURSIVE Unwind(_)
Unwind(s) == IF s = <<>> THEN <<>> ELSE IF Loop(Head(s)) THEN s ELSE Unwind(Tail(s))
RangeVals(a) == LET lo == IF Len(a) = 1 THEN 0 ELSE a[1] hi == IF Len(a) = 1 THEN a[1] ELSE a[2] st == IF Len(a) = 3 THEN a[3] ELSE 1
                    n == IF st > 0 THEN (IF hi > lo THEN (hi - lo + st - 1) \div st ELSE 0) ELSE IF lo > hi THEN (lo - hi + (-st) - 1) \div (-st) ELSE 0
                IN [i \in 1..n |-> lo + (i - 1) * st]
Exec(P, m, s) ==
  LET G == GOf(P, m) IN
  CASE s.t = "asg" -> Bind(m, s.x, Eval(s.e, G))
    [] s.t = "tup" -> BindAll(m, s.xs, EvalAll(s.es, G), 1)
    [] s.t = "sto" -> LET v == Eval(s.e, G) p == Place(Eval(s.a, G), EvalIx(s.ix, G), m.heap) IN
                      IF v.k = "u" \/ p.k = "u" THEN Undef(m) ELSE Write(m, p, v)
    [] s.t = "aug" -> LET old == Eval([t |-> "v", x |-> s.x], G) v == Eval(s.e, G) IN
                      IF old.k = "u" \/ v.k = "u" THEN Undef(m)
                      ELSE IF old.k = "a" THEN InPlace(m, old, s.op, v, G) ELSE Bind(m, s.x, Elem2(s.op, old, v, m.heap))
    [] s.t = "augs" -> LET v == Eval(s.e, G) p == Place(Eval(s.a, G), EvalIx(s.ix, G), m.heap) IN
                       IF v.k = "u" \/ p.k = "u" THEN Undef(m) ELSE InPlace(m, p, s.op, v, G)
    [] s.t = "if" -> LET c == Eval(s.c, G) IN IF ~SOf(c) THEN Undef(m)
                     ELSE [m EXCEPT !.stk = <<Frame(IF True(c) THEN s.th ELSE s.el)>> \o @]
    [] s.t = "while" -> [m EXCEPT !.stk = <<s>> \o @]
    [] s.t = "for" -> LET a == IntsOf(EvalAll(s.args, G)) IN
                      IF (\E i \in 1..Len(a) : a[i] = UV) \/ (Len(a) = 3 /\ a[3] = 0) THEN Undef(m)
                      ELSE [m EXCEPT !.stk = <<[t |-> "for", x |-> s.x, vals |-> RangeVals(a), pos |-> 1, body |-> s.body]>> \o @]
    [] s.t = "each" -> LET v == Eval(s.e, G) IN IF v.k # "a" THEN Undef(m)
                       ELSE [m EXCEPT !.stk = <<[t |-> "each", x |-> s.x, v |-> v, pos |-> 0, body |-> s.body]>> \o @]
    [] s.t = "brk" -> [m EXCEPT !.stk = Tail(Unwind(@))]
    [] s.t = "cont" -> [m EXCEPT !.stk = Unwind(@)]
    [] s.t = "ret" -> LET vs == EvalAll(s.es, G) IN IF \E i \in 1..Len(vs) : vs[i].k = "u" THEN Undef(m)
                      ELSE [m EXCEPT !.stk = <<>>, !.ret = [i \in 1..Len(vs) |-> T(vs[i], m.heap)]]
    [] OTHER -> m
Step(P, m) ==
  IF m.fuel = 0 THEN [m EXCEPT !.out = "fuel"]
  ELSE IF m.stk = <<>> THEN [m EXCEPT !.out = "done"]
  ELSE LET f == Head(m.stk) n == [m EXCEPT !.fuel = @ - 1] rest == Tail(m.stk) IN
  CASE f.t = "blk" -> IF f.pc > Len(f.ss) THEN [n EXCEPT !.stk = rest]
                      ELSE Exec(P, [n EXCEPT !.stk = <<[f EXCEPT !.pc = @ + 1]>> \o rest], f.ss[f.pc])
    [] f.t = "while" -> LET c == Eval(f.c, GOf(P, m)) IN IF ~SOf(c) THEN Undef(n)
                        ELSE IF True(c) THEN [n EXCEPT !.stk = <<Frame(f.body)>> \o @] ELSE [n EXCEPT !.stk = rest]
    [] f.t = "for" -> IF f.pos > Len(f.vals) THEN [n EXCEPT !.stk = rest]
                      ELSE [n EXCEPT !.env = (f.x :> S("i", f.vals[f.pos])) @@ @, !.stk = <<Frame(f.body), [f EXCEPT !.pos = @ + 1]>> \o rest]
    [] f.t = "each" -> IF f.pos >= f.v.sh[1] THEN [n EXCEPT !.stk = rest]
                       ELSE Bind([n EXCEPT !.stk = <<Frame(f.body), [f EXCEPT !.pos = @ + 1]>> \o rest], f.x,
                                 Index(f.v, <<[at |-> TRUE, v |-> S("i", f.pos)]>>, m.heap))
\* an input: the arguments in order (scalars [k |-> "s", ...], arrays [k |-> "n", b, off, sh, st]), the buffers behind them, and the module's constants
StartOf(P, inp, fuel) ==
  [out |-> "run", env |-> [x \in {P.ps[i] : i \in 1..Len(P.ps)} |-> inp.args[CHOOSE i \in 1..Len(P.ps) : P.ps[i] = x]] @@ P.consts,
   heap |-> inp.heap, stk |-> <<Frame(P.body)>>, ret |-> <<>>, fuel |-> fuel]
\* what the caller sees: the buffers it passed and the values it got, as numbers
Num(dt, d) == [i \in 1..Len(d) |-> Up(dt, d[i])]
Seen(m, inp) == [heap |-> [i \in 1..Len(inp.heap) |-> Num(m.heap[i].dt, m.heap[i].d)],
                 ret |-> [i \in 1..Len(m.ret) |-> [sh |-> m.ret[i].sh, d |-> Num(m.ret[i].dt, m.ret[i].d)]]]
=============================================================================
