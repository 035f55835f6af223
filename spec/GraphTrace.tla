------------------------------ MODULE GraphTrace ------------------------------
(* Conformance: every record is one graph with what the implementation answered. *)
EXTENDS Graph, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLE i
Init == i \in 1..(IF N < Stride THEN N ELSE Stride)
Next == i + Stride <= N /\ i' = i + Stride
Spec == Init /\ [][Next]_i

DomOK == LET r == Recs[i] IN \A s \in Vs(r.n) : DominatorTreeOK(r.n, r.e, s, r.idom[s + 1])
PdomOK == LET r == Recs[i] IN
    /\ r.after_n = r.n
    /\ SameBag(r.after_e, r.e)
    /\ r.keys = r.n
    /\ PostDominatorTreeOK(r.n, r.e, r.pdom)
OrderOK == LET r == Recs[i]
               a == Acyclic(r.n, ESet(r.e))
           IN /\ r.acyclic = a
              /\ r.sorted = a
              /\ a => TopoOK(r.n, r.e, r.topo)
              /\ \A s \in Vs(r.n) : DfsOK(r.n, r.e, s, r.dfs[s + 1])
              /\ \A s \in Vs(r.n) : BackEdgesOK(r.n, r.e, s, r.back[s + 1])
CompOK == LET r == Recs[i] IN
    /\ SccOK(r.n, r.e, r.nscc, r.scc)
    /\ WccOK(r.n, r.e, r.nwcc, r.wcc)
    /\ ReverseOK(r.e, r.rev)
    /\ r.undn = r.n
    /\ UndirectedOK(r.e, r.und)
PathOK == LET r == Recs[i] IN
    \A s, t \in Vs(r.n) : s # t => PathsOK(r.n, r.e, s, t, r.paths[s + 1][t + 1])
==============================================================================
