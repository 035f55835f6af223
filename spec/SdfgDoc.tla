------------------------------- MODULE SdfgDoc -------------------------------
(* What saving, loading, cloning, editing and copying may do to a program.    *)
(* A program is                                                               *)
(*   parts    interface, containers, externals, structures, metadata (values) *)
(*   count    the number the next identifiers are taken from                  *)
(*   names    the names that are declared                                     *)
(*   els      its elements, sorted by identifier:                             *)
(*            [id, k, up, pos, val, dbg, uses, ends]                          *)
(* Values live in a pool V: [t, o, n, v] with t = "s" (text o), "l" (list),   *)
(* "r" (record with field names n), "g" (unordered), "e" (expression with     *)
(* operator o); v are the numbers of the parts.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Commutative == {"+", "*", "max", "min", "==", "!=", "and", "or"}
RECURSIVE Same(_, _, _)
SameBag(V, s, t) == \A k \in DOMAIN s : Cardinality({m \in DOMAIN s : Same(V, s[k], s[m])}) = Cardinality({m \in DOMAIN t : Same(V, s[k], t[m])})
Same(V, i, j) ==
  \/ i = j
  \/ LET a == V[i] b == V[j] IN
     /\ a.t = b.t /\ a.o = b.o /\ a.n = b.n /\ Len(a.v) = Len(b.v)
     /\ IF a.t = "g" \/ (a.t = "e" /\ a.o \in Commutative) THEN SameBag(V, a.v, b.v) ELSE \A k \in DOMAIN a.v : Same(V, a.v[k], b.v[k])
Ids(p) == {p.els[k].id : k \in DOMAIN p.els}
El(p, i) == p.els[CHOOSE k \in DOMAIN p.els : p.els[k].id = i]
\* ------------------------------------------------------------ well-formed
Unique(p) == Cardinality(Ids(p)) = Len(p.els)
Counted(p) == \A i \in Ids(p) : i <= p.count
Attached(p) == \A k \in DOMAIN p.els : LET e == p.els[k] IN e.ends = <<>> \/ \A m \in 1..2 : e.ends[m] \in Ids(p) /\ El(p, e.ends[m]).up = e.up
Declared(p) == \A k \in DOMAIN p.els : {p.els[k].uses[m] : m \in DOMAIN p.els[k].uses} \subseteq p.names
\* ------------------------------------------------------------ loading and cloning: everything is as it was
SameEl(V, a, b) == a.id = b.id /\ a.k = b.k /\ a.up = b.up /\ a.pos = b.pos /\ a.ends = b.ends /\ Same(V, a.val, b.val) /\ Same(V, a.dbg, b.dbg)
Parts == {"iface", "cs", "ex", "ss", "md"}
DiffParts(V, p, q) == {x \in Parts : ~Same(V, p[x], q[x])}
SameEls(V, p, q) == Len(p.els) = Len(q.els) /\ \A k \in DOMAIN p.els : SameEl(V, p.els[k], q.els[k])
FirstDiff(V, p, q) == IF Len(p.els) # Len(q.els) THEN 0 ELSE LET d == {k \in DOMAIN p.els : ~SameEl(V, p.els[k], q.els[k])} IN
                      IF d = {} THEN 0 ELSE p.els[CHOOSE k \in d : \A m \in d : k <= m].id
SameProgram(V, p, q) == DiffParts(V, p, q) = {} /\ p.count = q.count /\ SameEls(V, p, q)
\* ------------------------------------------------------------ editing: what was there stays, what is new has new identifiers
Kept(V, p, q) == \A i \in Ids(p) : i \in Ids(q) /\ LET a == El(p, i) b == El(q, i) IN a.k = b.k /\ a.ends = b.ends /\ Same(V, a.val, b.val)
Added(V, p, q) == Kept(V, p, q) /\ q.count >= p.count /\ \A i \in Ids(q) \ Ids(p) : i > p.count
Removed(V, p, q) == Kept(V, q, p) /\ q.count >= p.count
\* ------------------------------------------------------------ copying: a tree of the same shape and content
Below(p, i) == {k \in DOMAIN p.els : p.els[k].up = i}
OfKind(p, i, K) == {k \in Below(p, i) : p.els[k].k \in K}
Data == {"access", "constant", "tasklet", "library"}
\* the statements below an element, in order
Kids(p, i) == LET s == {k \in Below(p, i) : p.els[k].k \notin Data \cup {"edge", "tr"}} IN
              [n \in 1..Cardinality(s) |-> p.els[CHOOSE k \in s : p.els[k].pos = n]]
Trans(p, i) == LET s == OfKind(p, i, {"tr"}) IN [n \in 1..Cardinality(s) |-> p.els[CHOOSE k \in s : p.els[k].pos = n]]
EdgesMatch(V, p, q, a, b, f) ==
  LET ea == OfKind(p, a, {"edge"}) eb == OfKind(q, b, {"edge"})
      sig(e) == <<f[e.ends[1]], f[e.ends[2]]>>
      alike(e, g) == sig(e) = sig(g) /\ Same(V, e.val, g.val) /\ Same(V, e.dbg, g.dbg)
      image(e, g) == sig(e) = g.ends /\ Same(V, e.val, g.val) /\ Same(V, e.dbg, g.dbg) IN
  /\ Cardinality(ea) = Cardinality(eb)
  /\ \A e \in ea : Cardinality({g \in ea : alike(p.els[e], p.els[g])}) = Cardinality({g \in eb : image(p.els[e], q.els[g])})
RECURSIVE Match(_, _, _, _, _, _, _, _)
Match(V, p, q, a, b, na, nb, f) ==          \* na, nb: nodes not matched yet; f: identifiers matched so far
  IF na = {} THEN nb = {} /\ EdgesMatch(V, p, q, a, b, f)
  ELSE LET x == CHOOSE k \in na : TRUE IN
       \E y \in nb : /\ p.els[x].k = q.els[y].k /\ Same(V, p.els[x].val, q.els[y].val) /\ Same(V, p.els[x].dbg, q.els[y].dbg)
                     /\ Match(V, p, q, a, b, na \ {x}, nb \ {y}, f @@ (p.els[x].id :> q.els[y].id))
RECURSIVE SameTree(_, _, _, _, _)
SameTree(V, p, q, a, b) ==                   \* elements a of p and b of q
  /\ a.k = b.k /\ Same(V, a.val, b.val) /\ Same(V, a.dbg, b.dbg)
  /\ IF a.k = "block" THEN Match(V, p, q, a.id, b.id, OfKind(p, a.id, Data), OfKind(q, b.id, Data), <<>>)
     ELSE LET s == Kids(p, a.id) t == Kids(q, b.id) u == Trans(p, a.id) w == Trans(q, b.id) IN
          /\ Len(s) = Len(t) /\ Len(u) = Len(w)
          /\ \A k \in DOMAIN s : SameTree(V, p, q, s[k], t[k])
          /\ \A k \in DOMAIN u : Same(V, u[k].val, w[k].val)
\* the pairs of statements (original, copy) of two trees of the same shape
RECURSIVE Pairs(_, _, _, _)
Pairs(p, q, a, b) == {<<a.id, b.id>>} \cup (IF a.k = "block" THEN {} ELSE UNION {Pairs(p, q, Kids(p, a.id)[k], Kids(q, b.id)[k]) : k \in DOMAIN Kids(p, a.id)})
Last(p) == LET s == Kids(p, p.root) IN s[Len(s)]
Copied(V, p, q, src, map) ==
  /\ Added(V, p, q)
  /\ LET c == Last(q) IN
     /\ c.id \notin Ids(p)
     /\ SameTree(V, p, q, El(p, src), c)
     /\ map \subseteq Pairs(p, q, El(p, src), c)
     /\ <<src, c.id>> \in map
=============================================================================
