------------------------------- MODULE PyCache --------------------------------
(* When the just-in-time compiler of the Python front end may use a kernel    *)
(* again.  A call is described by its arguments as the caller sees them:      *)
(*   arrays  [ty, sh, st]    element type, extents and strides (in elements)  *)
(*   scalars [ty, v]         members of objects are scalars with a name       *)
(*   mode    [instr, cap]    the instrumentation and capture settings         *)
(* SpecOf gives everything a kernel is specialised on.  The cache is a        *)
(* function from these to kernels: a call compiles a new kernel exactly if no *)
(* earlier call of the history had the same.                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
IsArray(a) == a.k = "a"
\* an extent of 1 (or an empty array) makes its stride irrelevant
RowMajor(a) == Prod(a.sh) = 0 \/ \A d \in 1..Len(a.sh) : a.sh[d] = 1 \/ a.st[d] = Prod(SubSeq(a.sh, d + 1, Len(a.sh)))
ColMajor(a) == Prod(a.sh) = 0 \/ \A d \in 1..Len(a.sh) : a.sh[d] = 1 \/ a.st[d] = Prod(SubSeq(a.sh, 1, d - 1))
Layout(a) == IF RowMajor(a) THEN [class |-> "C", st |-> <<>>] ELSE IF ColMajor(a) THEN [class |-> "F", st |-> <<>>]
             ELSE [class |-> "strided", st |-> a.st]
Dims(c) == {<<i, d>> \in (1..Len(c.args)) \X (1..4) : IsArray(c.args[i]) /\ d <= Len(c.args[i].sh)}
Extent(c, x) == c.args[x[1]].sh[x[2]]
\* integer arguments the kernel does not assign to stand for the extents they equal
Ties(c) == {<<x, i>> \in Dims(c) \X (1..Len(c.args)) : ~IsArray(c.args[i]) /\ c.args[i].tie /\ c.args[i].v = Extent(c, x)}
First(c, x) == LET t == {p \in Ties(c) : p[1] = x} IN IF t = {} THEN 0 ELSE (CHOOSE p \in t : \A q \in t : p[2] <= q[2])[2]
SpecOf(c) == [types |-> [i \in 1..Len(c.args) |-> IF IsArray(c.args[i]) THEN <<c.args[i].ty, Len(c.args[i].sh)>> ELSE <<c.args[i].ty, c.args[i].name>>],
              units |-> {x \in Dims(c) : Extent(c, x) = 1},
              equal |-> {<<x, y>> \in Dims(c) \X Dims(c) : Extent(c, x) = Extent(c, y)},
              ties |-> {<<x, First(c, x)>> : x \in Dims(c)},
              layout |-> [i \in 1..Len(c.args) |-> IF IsArray(c.args[i]) THEN Layout(c.args[i]) ELSE <<>>],
              mode |-> c.mode]
Parts == {"types", "units", "equal", "ties", "layout", "mode"}
Differ(a, b) == LET s == SpecOf(a) t == SpecOf(b) IN {p \in Parts : s[p] # t[p]}
\* the number of the kernel every call of a history gets
RECURSIVE Serve(_, _, _)
Serve(h, i, known) ==                       \* known: specialisations in the order they were compiled
  IF i > Len(h) THEN <<>>
  ELSE LET s == SpecOf(h[i]) hit == {k \in 1..Len(known) : known[k] = s} IN
       IF hit # {} THEN <<CHOOSE k \in hit : TRUE>> \o Serve(h, i + 1, known)
       ELSE <<Len(known) + 1>> \o Serve(h, i + 1, Append(known, s))
Kernels(h) == Serve(h, 1, <<>>)
=============================================================================
