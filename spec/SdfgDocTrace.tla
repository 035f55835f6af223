---------------------------- MODULE SdfgDocTrace -----------------------------
(* Judges recorded sessions: [V, steps], a step is [act, p, ...]; the first   *)
(* step is the program as it was built.                                       *)
EXTENDS SdfgDoc, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES c, k
vars == <<c, k>>
Prog(s) == [s.p EXCEPT !.names = {s.p.names[m] : m \in DOMAIN s.p.names}]
Wrong(V, s, t) ==                            \* step t after step s
  LET p == Prog(s) q == Prog(t) IN
  (IF Unique(q) THEN {} ELSE {"unique"}) \cup (IF Counted(q) THEN {} ELSE {"counter"})
  \cup (IF Attached(q) THEN {} ELSE {"edges"}) \cup (IF Declared(q) THEN {} ELSE {"names"})
  \cup CASE t.act = "load" -> DiffParts(V, p, q) \cup (IF p.count = q.count THEN {} ELSE {"count"}) \cup (IF SameEls(V, p, q) THEN {} ELSE {"elements"})
                              \cup (IF Same(V, t.doc1, t.doc2) THEN {} ELSE {"document"})
         [] t.act = "clone" -> DiffParts(V, p, q) \cup (IF p.count = q.count THEN {} ELSE {"count"}) \cup (IF SameEls(V, p, q) THEN {} ELSE {"elements"})
         [] t.act = "add" -> DiffParts(V, p, q) \cup (IF Added(V, p, q) THEN {} ELSE {"added"})
         [] t.act = "del" -> DiffParts(V, p, q) \cup (IF Removed(V, p, q) THEN {} ELSE {"removed"})
         [] t.act = "copy" -> DiffParts(V, p, q) \cup (IF Copied(V, p, q, t.src, {t.map[m] : m \in DOMAIN t.map}) THEN {} ELSE {"copy"})
         [] OTHER -> {}
Judge(s, V, i) == LET w == Wrong(V, s[IF i = 1 THEN 1 ELSE i - 1], s[i]) IN
  /\ PrintT(<<"RUN", Cases[c].id, i>>)
  /\ w # {} => PrintT(<<"BADDOC", Cases[c].id, i, s[i].act, w, FirstDiff(V, Prog(s[IF i = 1 THEN 1 ELSE i - 1]), Prog(s[i]))>>)
Init == c \in DOMAIN Cases /\ k = 1
Next == k < Len(Cases[c].steps) /\ k' = k + 1 /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Report == Judge(Cases[c].steps, Cases[c].V, k)
=============================================================================
