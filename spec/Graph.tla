-------------------------------- MODULE Graph --------------------------------
(* Definitions of the graph notions the compiler relies on, given as what they *)
(* mean (paths, cut vertices, a depth-first machine), not as algorithms.       *)
(* A graph is n (vertices 0..n-1) and es, a sequence of <<u, v>> (multigraph). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Vs(n) == 0..(n - 1)
ESet(es) == {es[i] : i \in 1..Len(es)}
Succ(E, v) == {e[2] : e \in {x \in E : x[1] = v}}
Pred(E, v) == {e[1] : e \in {x \in E : x[2] = v}}
Rev(E) == {<<e[2], e[1]>> : e \in E}
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])

(* forward reachability, as a least fixpoint *)
RECURSIVE Close(_, _)
Close(E, S) == LET T == S \cup UNION {Succ(E, v) : v \in S}
               IN IF T = S THEN S ELSE Close(E, T)
Reach(E, v) == Close(E, {v})
(* reachability by at least one edge *)
ReachPlus(E, v) == Close(E, Succ(E, v))

(* ------------------------------------------------ dominance (G01, G02) --- *)
(* d dominates v from r: every path from r to v meets d *)
AvoidReach(E, r, d) == IF r = d THEN {} ELSE Reach({e \in E : e[1] # d /\ e[2] # d}, r)
Doms(E, r, N) == [v \in Reach(E, r) |-> {d \in Reach(E, r) : v \notin AvoidReach(E, r, d)}]
(* the immediate dominator: the strict dominator dominated by all others *)
IDomOK(D, r, v, x) ==
    IF v \notin DOMAIN D \/ v = r THEN x = -1
    ELSE /\ x \in D[v] \ {v}
         /\ \A d \in D[v] \ {v} : d \in D[x]
DominatorTreeOK(n, es, r, idom) ==
    LET E == ESet(es)
        D == Doms(E, r, Vs(n))
    IN /\ Len(idom) = n
       /\ \A v \in Vs(n) : IDomOK(D, r, v, idom[v + 1])

Terminals(n, E) == {v \in Vs(n) : Succ(E, v) = {}}
(* with several exits the root is a virtual exit (n), never reported: -1 *)
PostDominatorTreeOK(n, es, pdom) ==
    LET E == ESet(es)
        T == Terminals(n, E)
        R == IF Cardinality(T) = 1 THEN Rev(E) ELSE Rev(E) \cup {<<n, t>> : t \in T}
        r == IF Cardinality(T) = 1 THEN CHOOSE t \in T : TRUE ELSE n
        D == Doms(R, r, Vs(n) \cup {n})
    IN /\ T # {}
       /\ Len(pdom) = n
       /\ \A v \in Vs(n) :
             \/ IDomOK(D, r, v, pdom[v + 1])
             \/ r = n /\ pdom[v + 1] = -1 /\ IDomOK(D, r, v, n)

(* -------------------------------------------- orders and traversal (G03) --- *)
Acyclic(n, E) == \A v \in Vs(n) : v \notin ReachPlus(E, v)
Pos(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x
IsPerm(n, s) == Len(s) = n /\ {s[i] : i \in 1..Len(s)} = Vs(n)
TopoOK(n, es, ord) ==
    /\ IsPerm(n, ord)
    /\ \A e \in ESet(es) : Pos(ord, e[1]) < Pos(ord, e[2])

(* The depth-first machine: the next discovered vertex is an undiscovered      *)
(* successor of the deepest vertex on the stack that still has one; when no    *)
(* vertex on the stack has one, any undiscovered vertex starts a new tree.     *)
RECURSIVE PopTo(_, _, _)
PopTo(E, stack, seen) ==
    IF stack = <<>> THEN <<>>
    ELSE IF Succ(E, Last(stack)) \subseteq seen THEN PopTo(E, Front(stack), seen)
    ELSE stack
RECURSIVE DfsRun(_, _, _, _)
DfsRun(E, rest, stack, seen) ==
    IF rest = <<>> THEN TRUE
    ELSE LET st == PopTo(E, stack, seen)
             v == Head(rest)
         IN /\ v \notin seen
            /\ st # <<>> => v \in Succ(E, Last(st))
            /\ DfsRun(E, Tail(rest), Append(st, v), seen \cup {v})
DfsOK(n, es, start, ord) ==
    /\ IsPerm(n, ord)
    /\ ord[1] = start
    /\ DfsRun(ESet(es), ord, <<>>, {})

(* back edges: exactly the edges that close a cycle for some depth-first run:  *)
(* without them no cycle is left, and each of them alone closes one; where the *)
(* target dominates the source the edge is one in every run.                   *)
BackEdgesOK(n, es, start, back) ==
    LET E == ESet(es)
        B == ESet(back)
        D == Doms(E, start, Vs(n))
        Rest == E \ B
    IN /\ B \subseteq E
       /\ \A b \in B : Count(back, b) = Count(es, b)
       /\ Acyclic(n, Rest)
       /\ \A b \in B : b[1] \in Reach(Rest, b[2])
       /\ \A e \in E : (e[1] \in DOMAIN D /\ e[2] \in D[e[1]]) => e \in B

(* ------------------------------------------------------ components (G04) --- *)
SccOK(n, es, cnt, comp) ==
    LET E == ESet(es)
        R == [v \in Vs(n) |-> Reach(E, v)]
    IN /\ Len(comp) = n
       /\ {comp[i] : i \in 1..n} = 0..(cnt - 1)
       /\ \A u, v \in Vs(n) : (comp[u + 1] = comp[v + 1]) <=> (v \in R[u] /\ u \in R[v])
WccOK(n, es, cnt, comp) ==
    LET E == ESet(es) \cup Rev(ESet(es))
        R == [v \in Vs(n) |-> Reach(E, v)]
    IN /\ Len(comp) = n
       /\ {comp[i] : i \in 1..n} = 0..(cnt - 1)
       /\ \A u, v \in Vs(n) : (comp[u + 1] = comp[v + 1]) <=> (v \in R[u])
ReverseOK(es, rev) == SameBag(rev, [i \in 1..Len(es) |-> <<es[i][2], es[i][1]>>])
Norm(e) == IF e[1] <= e[2] THEN e ELSE <<e[2], e[1]>>
UndirectedOK(es, und) == SameBag([i \in 1..Len(und) |-> Norm(und[i])], [i \in 1..Len(es) |-> Norm(es[i])])

(* ---------------------------------------------------- simple paths (G05) --- *)
RECURSIVE Simple(_, _, _, _)
(* vertex sequences of simple paths from the last element of p to t *)
Simple(E, p, t, used) ==
    UNION {IF w = t THEN {Append(p, w)} ELSE Simple(E, Append(p, w), t, used \cup {w})
           : w \in Succ(E, Last(p)) \ used}
(* number of parallel edges along a vertex path *)
RECURSIVE Mult(_, _)
Mult(es, p) == IF Len(p) < 2 THEN 1 ELSE Count(es, <<p[1], p[2]>>) * Mult(es, Tail(p))
AsVerts(path) == [i \in 1..(Len(path) + 1) |-> IF i = 1 THEN path[1][1] ELSE path[i - 1][2]]
Chained(path) == \A i \in 1..(Len(path) - 1) : path[i][2] = path[i + 1][1]
PathsOK(n, es, s, t, paths) ==
    LET want == Simple(ESet(es), <<s>>, t, {s})
        got == [i \in 1..Len(paths) |-> AsVerts(paths[i])]
    IN /\ \A i \in 1..Len(paths) : Len(paths[i]) > 0 /\ Chained(paths[i])
       /\ \A i \in 1..Len(paths) : got[i] \in want
       /\ \A p \in want : Count(got, p) = Mult(es, p)

(* ------------------------------------------- laws of the definitions ------- *)
(* checked by TLC on every graph over up to 3 vertices (GraphLaws.tla)         *)
LawDom(n, E, r) ==
    LET D == Doms(E, r, Vs(n)) IN
    \A v \in DOMAIN D :
       /\ r \in D[v] /\ v \in D[v]
       /\ v # r => Cardinality({x \in Vs(n) : IDomOK(D, r, v, x)}) = 1
LawScc(n, E) == Acyclic(n, E) <=> \E p \in Permutations(Vs(n)) : \A e \in E : p[e[1]] < p[e[2]]
==============================================================================
