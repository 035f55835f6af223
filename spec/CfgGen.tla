-------------------------------- MODULE CfgGen --------------------------------
(* Every control-flow graph with up to N states and up to R return states,     *)
(* once: the states are numbered in the order in which they are discovered     *)
(* from the start state 1.  g[i] is what state i may do next: one target, or   *)
(* two that exclude each other.  Targets N+1.. are the return states.          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, R, K
VARIABLES g, seen, rets
vars == <<g, seen, rets>>
Init == g = <<>> /\ seen = 1 /\ rets = 0
\* targets, one after the other: <<new sequence, seen, rets>>
Targets(s, r) == 1..(IF s < N THEN s + 1 ELSE N) \cup {N + x : x \in 1..(IF r < R THEN r + 1 ELSE R)}
SeenAfter(t, s) == IF t <= N /\ t > s THEN t ELSE s
RetsAfter(t, r) == IF t > N /\ t - N > r THEN t - N ELSE r
One == \E t \in Targets(seen, rets) :
    g' = Append(g, <<t>>) /\ seen' = SeenAfter(t, seen) /\ rets' = RetsAfter(t, rets)
Two == \E t \in Targets(seen, rets) : LET s == SeenAfter(t, seen) r == RetsAfter(t, rets) IN
       \E u \in Targets(s, r) \ {t} :
         g' = Append(g, <<t, u>>) /\ seen' = SeenAfter(u, s) /\ rets' = RetsAfter(u, r)
Three == K >= 3 /\ \E t \in Targets(seen, rets) : LET s == SeenAfter(t, seen) r == RetsAfter(t, rets) IN
       \E u \in Targets(s, r) \ {t} : LET s2 == SeenAfter(u, s) r2 == RetsAfter(u, r) IN
       \E w \in Targets(s2, r2) \ {t, u} :
         g' = Append(g, <<t, u, w>>) /\ seen' = SeenAfter(w, s2) /\ rets' = RetsAfter(w, r2)
Next == Len(g) < seen /\ (One \/ Two \/ Three)
Spec == Init /\ [][Next]_vars
Complete == Len(g) = seen
\* every state can reach a return state
RECURSIVE Back(_, _)
Back(S, n) == IF n = 0 THEN S ELSE Back(S \cup {i \in 1..Len(g) : \E k \in 1..Len(g[i]) : g[i][k] > N \/ g[i][k] \in S}, n - 1)
Leaves == Back({}, Len(g)) = 1..Len(g)
Show == ~Complete \/ ~Leaves \/ PrintT(<<"CFG", g>>)
===============================================================================
