------------------------------- MODULE Instr ----------------------------------
(* The instrumentation runtime: regions are registered, entered, exited and    *)
(* finalised by the threads of a program; each activation is charged its own   *)
(* interval of the clock and of the work counter.  Registrations nest and       *)
(* overlap.  A region's counter set runs exactly while it is registered and is *)
(* otherwise kept for reuse (at most CacheSize of them) or released.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT CacheSize
VARIABLES live,  \* region -> outstanding registrations
          order, \* regions in the order of their first registration (their handle)
          acts,  \* region -> sequence of activations [t, c, w, dc, dw]; dc = -1 while open
          mets,  \* region -> sequence of reported metrics <<name, value>>
          kept   \* finalised regions whose counter set is kept
vars == <<live, order, acts, mets, kept>>

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Get(f, k, d) == IF k \in DOMAIN f THEN f[k] ELSE d
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Live(u) == Get(live, u, 0)
Acts(u) == Get(acts, u, <<>>)
Mets(u) == Get(mets, u, <<>>)

Init == live = <<>> /\ order = <<>> /\ acts = <<>> /\ mets = <<>> /\ kept = {}

Register(u) ==
    /\ live' = Put(live, u, Live(u) + 1)
    /\ order' = IF u \in RangeOf(order) THEN order ELSE Append(order, u)
    /\ kept' = kept \ {u}
    /\ UNCHANGED <<acts, mets>>
Handle(u) == CHOOSE i \in 1..Len(order) : order[i] = u

OpenOf(u, t) == {i \in 1..Len(Acts(u)) : Acts(u)[i].dc = -1 /\ Acts(u)[i].t = t}
Opens(u) == {i \in 1..Len(Acts(u)) : Acts(u)[i].dc = -1}
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Enter(u, t, c, w) ==
    /\ Live(u) > 0
    /\ acts' = Put(acts, u, Append(Acts(u), [t |-> t, c |-> c, w |-> w, dc |-> -1, dw |-> -1]))
    /\ UNCHANGED <<live, order, mets, kept>>
(* exit ends the innermost activation the thread has open *)
Exit(u, t, c, w) ==
    /\ Live(u) > 0
    /\ OpenOf(u, t) # {}
    /\ LET i == Max(OpenOf(u, t)) IN
       acts' = [acts EXCEPT ![u][i].dc = c - Acts(u)[i].c, ![u][i].dw = w - Acts(u)[i].w]
    /\ UNCHANGED <<live, order, mets, kept>>
Metric(u, n, v) ==
    /\ Live(u) > 0
    /\ mets' = Put(mets, u, Append(Mets(u), <<n, v>>))
    /\ UNCHANGED <<live, order, acts, kept>>
(* the last registration stops the region's counters; which sets are given up *)
(* to stay within the bound is free *)
Finalize(u, newkept) ==
    /\ Live(u) > 0
    /\ Cardinality(Opens(u)) < Live(u) \/ Live(u) > 1
    /\ live' = [live EXCEPT ![u] = @ - 1]
    /\ IF Live(u) > 1 THEN newkept = kept
       ELSE newkept \subseteq kept \cup {u} /\ Cardinality(newkept) <= CacheSize
    /\ kept' = newkept
    /\ UNCHANGED <<order, acts, mets>>

(* ------------------------------------------------------------- statistics -- *)
Done(u) == SelectSeq(Acts(u), LAMBDA a : a.dc # -1)
RECURSIVE SumTo(_, _, _)
SumTo(s, i, j) == IF i > j THEN 0 ELSE IF i = j THEN s[i]
                  ELSE LET m == (i + j) \div 2 IN SumTo(s, i, m) + SumTo(s, m + 1, j)
SumSeq(s) == SumTo(s, 1, Len(s))
MinSeq(s) == CHOOSE x \in RangeOf(s) : \A y \in RangeOf(s) : x <= y
MaxSeq(s) == CHOOSE x \in RangeOf(s) : \A y \in RangeOf(s) : x >= y
SumSq(s) == SumSeq([i \in 1..Len(s) |-> s[i] * s[i]])
Durs(u) == [i \in 1..Len(Done(u)) |-> Done(u)[i].dc]
Counts(u, k) == [i \in 1..Len(Done(u)) |-> Done(u)[i].dw * k]
Vals(u, n) == LET s == SelectSeq(Mets(u), LAMBDA m : m[1] = n) IN [i \in 1..Len(s) |-> s[i][2]]
Names(u) == {m[1] : m \in RangeOf(Mets(u))}

(* ------------------------------------------------------------- properties -- *)
TypeOK == /\ \A u \in DOMAIN live : live[u] >= 0
          /\ kept \subseteq {u \in DOMAIN live : live[u] = 0}
          /\ Cardinality(kept) <= CacheSize
(* an activation belongs to a registered region and never has a negative span *)
Charged == \A u \in DOMAIN acts : /\ u \in RangeOf(order)
                                  /\ \A i \in 1..Len(acts[u]) : acts[u][i].dc >= -1 /\ acts[u][i].dw >= -1
(* the open activations of one thread close in last-in first-out order *)
Lifo == \A u \in DOMAIN acts : \A i, j \in 1..Len(acts[u]) :
    (i < j /\ acts[u][i].t = acts[u][j].t /\ acts[u][i].dc # -1 /\ acts[u][j].dc # -1
     /\ acts[u][j].c < acts[u][i].c + acts[u][i].dc)
    => acts[u][j].c + acts[u][j].dc <= acts[u][i].c + acts[u][i].dc
(* history is append-only: a completed activation and a reported metric stay *)
Stable == [][/\ \A u \in DOMAIN acts : /\ u \in DOMAIN acts' /\ Len(acts'[u]) >= Len(acts[u])
                                       /\ \A i \in 1..Len(acts[u]) : acts[u][i].dc # -1 => acts'[u][i] = acts[u][i]
             /\ \A u \in DOMAIN mets : u \in DOMAIN mets' /\ SubSeq(mets'[u], 1, Len(mets[u])) = mets[u]
             /\ SubSeq(order', 1, Len(order)) = order]_vars
==============================================================================
