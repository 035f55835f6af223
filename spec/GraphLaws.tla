------------------------------ MODULE GraphLaws -------------------------------
(* The definitions themselves, checked on every directed graph over N vertices. *)
EXTENDS Graph
CONSTANT N
VARIABLE E, todo
Init == E = {} /\ todo = {<<u, v>> : u, v \in Vs(N)}
Next == \E e \in todo : (\A f \in todo : e[1] * N + e[2] <= f[1] * N + f[2])
                        /\ todo' = todo \ {e} /\ (E' = E \/ E' = E \cup {e})
Laws == todo = {} => (LawScc(N, E) /\ \A r \in Vs(N) : LawDom(N, E, r))
==============================================================================
