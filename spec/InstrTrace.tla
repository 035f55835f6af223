------------------------------ MODULE InstrTrace ------------------------------
(* Recorded programs are behaviours of Instr; the calls the runtime makes to   *)
(* the counter library and the trace file it writes are judged against the     *)
(* specification's state.                                                       *)
EXTENDS Instr, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLES r, l,
          sets,  \* counter sets that exist: set -> [own, ev, run]
          legal  \* no call to the counter library was out of order so far
tvars == <<vars, r, l, sets, legal>>
TInit == Init /\ l = 1 /\ sets = <<>> /\ legal = TRUE /\ r \in 1..(IF N < Stride THEN N ELSE Stride)
R == Recs[r]
Ops == R.ops

(* ---------------------------------------------------- the counter library -- *)
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
(* one call: the sets afterwards and whether it was legal *)
Apply(st, k) ==
    LET s == k.s
        u == k.u
        isinit == k.i
        ex == s \in DOMAIN st.sets
        x == st.sets[s]
        bad == [sets |-> st.sets, legal |-> FALSE]
        ok(m) == [sets |-> m, legal |-> st.legal]
    IN CASE k.f = "create" -> IF k.ok THEN [sets |-> Put(st.sets, s, [own |-> u, ev |-> <<>>, run |-> FALSE]),
                                            legal |-> st.legal /\ isinit]
                              ELSE bad
         [] ~ex -> bad
         [] k.f = "add" -> IF x.run \/ ~k.ok THEN bad ELSE ok([st.sets EXCEPT ![s].ev = Append(@, k.ev)])
         [] k.f = "start" -> IF x.ev = <<>> THEN st ELSE IF x.run THEN bad ELSE ok([st.sets EXCEPT ![s].run = TRUE])
         [] k.f = "stop" -> IF x.ev = <<>> THEN st ELSE IF ~x.run THEN bad ELSE ok([st.sets EXCEPT ![s].run = FALSE])
         [] k.f = "read" -> IF x.own # u THEN bad ELSE st
         [] k.f = "reset" -> st
         [] k.f = "cleanup" -> IF x.run THEN bad ELSE ok([st.sets EXCEPT ![s].ev = <<>>])
         [] k.f = "destroy" -> IF x.run \/ x.ev # <<>> THEN bad ELSE ok(Del(st.sets, s))
         [] OTHER -> bad
RECURSIVE FoldTo(_, _, _)
FoldTo(st, ks, n) == IF n = 0 THEN st ELSE Apply(FoldTo(st, ks, n - 1), ks[n])
Fold(st, ks) == FoldTo(st, ks, Len(ks))
OwnedBy(m, u) == {s \in DOMAIN m : m[s].own = u}
Idle(m) == {u \in DOMAIN live' : live'[u] = 0 /\ OwnedBy(m, u) # {}}

Step ==
    /\ l <= Len(Ops)
    /\ LET o == Ops[l]
           st == Fold([sets |-> sets, legal |-> legal], o.calls)
       IN
       /\ sets' = st.sets /\ legal' = st.legal
       /\ \/ o.op = "init" /\ Register(o.u)
          \/ o.op = "enter" /\ Enter(o.u, o.t, o.c, o.w)
          \/ o.op = "exit" /\ Exit(o.u, o.t, o.c, o.w)
          \/ o.op \in {"met", "inc"} /\ Metric(o.u, o.name, o.q)
          \/ o.op \in {"bulkinc", "bulkpair"} /\ UNCHANGED vars   \* judged by BulkOK
          \/ /\ o.op = "fin"
             (* the sets that survive are those observed, as far as the specification allows it *)
             /\ LET obs == {u \in kept \cup {o.u} : OwnedBy(st.sets, u) # {}}
                    nk == IF Live(o.u) > 1 THEN kept
                          ELSE IF Cardinality(obs) <= CacheSize THEN obs ELSE {}
                IN Finalize(o.u, nk)
    /\ l' = l + 1 /\ r' = r
(* the end of the program *)
End == /\ l = Len(Ops) + 1
       /\ LET st == Fold([sets |-> sets, legal |-> legal], R.endcalls) IN sets' = st.sets /\ legal' = st.legal
       /\ l' = l + 1
       /\ UNCHANGED <<vars, r>>
NextRec ==
    /\ l = Len(Ops) + 2
    /\ r + Stride <= N
    /\ r' = r + Stride /\ l' = 1
    /\ live' = <<>> /\ order' = <<>> /\ acts' = <<>> /\ mets' = <<>> /\ kept' = {}
    /\ sets' = <<>> /\ legal' = TRUE
TNext == Step \/ End \/ NextRec
TSpec == TInit /\ [][TNext]_tvars
AtEnd == l = Len(Ops) + 2

(* ----------------------------------------------------------- R04: counters -- *)
Owners == {sets[s].own : s \in DOMAIN sets}
SetsOK == (R.conc /\ ~AtEnd) \/
    /\ legal
    /\ \A u \in DOMAIN live :
         IF live[u] > 0
         THEN LET S == OwnedBy(sets, u) IN
              /\ Cardinality(S) = 1
              /\ \A s \in S : sets[s].ev = R.regs[u].evs /\ (sets[s].ev # <<>> => sets[s].run)
         ELSE LET S == OwnedBy(sets, u) IN
              /\ Cardinality(S) <= 1
              /\ \A s \in S : ~sets[s].run
    /\ Cardinality({u \in Owners : Live(u) = 0}) <= CacheSize
    /\ AtEnd => \A s \in DOMAIN sets : Live(sets[s].own) > 0
HandlesOK ==
    (* the latest call against all calls before it *)
    /\ (l > 1 /\ l - 1 <= Len(Ops)) =>
         /\ Ops[l - 1].id # 0
         /\ \A i \in 1..(l - 2) : (Ops[i].u = Ops[l - 1].u) <=> (Ops[i].id = Ops[l - 1].id)
EndedOK == R.status = 0 /\ Len(Ops) = R.nops

(* -------------------------------------------------------------- the events -- *)
Ev == R.events
EvOf(u) == SelectSeq(Ev, LAMBDA e : e.u = u)
Regs == RangeOf(order)
MetricNames(e) == {e.metrics[i].n : i \in 1..Len(e.metrics)}
Static(u) == Names(u)
(* R01 *)
MetaOK == \A i \in 1..Len(Ev) : LET e == Ev[i] IN
    /\ e.u \in 1..Len(R.regs)
    /\ e.md = R.regs[e.u].md
    /\ e.ph = "X"
    /\ Len(e.metrics) = Cardinality(MetricNames(e))
FormOK == AtEnd =>
    /\ EndedOK
    /\ R.json
    /\ MetaOK
    /\ \A i \in 1..Len(Ev) : Ev[i].u \in Regs
    /\ \A u \in Regs :
         IF R.mode = "raw"
         THEN /\ Len(EvOf(u)) = Len(Acts(u))
              /\ \A i \in 1..Len(EvOf(u)) : LET e == EvOf(u)[i] IN
                   MetricNames(e) = (IF e.dur = -1 THEN {} ELSE RangeOf(R.regs[u].evs))
              /\ Cardinality({i \in 1..Len(EvOf(u)) : EvOf(u)[i].dur # -1}) = Len(Done(u))
         ELSE /\ Len(EvOf(u)) = 1
              /\ LET e == EvOf(u)[1]
                     ns == {"static:::" \o n : n \in Static(u)} \cup {"runtime"}
                 IN IF Done(u) # <<>> THEN MetricNames(e) = ns \cup RangeOf(R.regs[u].evs)
                    ELSE ns \subseteq MetricNames(e) /\ MetricNames(e) \subseteq ns \cup RangeOf(R.regs[u].evs)
              /\ LET e == EvOf(u)[1] IN \A i \in 1..Len(e.metrics) : LET m == e.metrics[i] IN
                   /\ m.n = "runtime" => m.count = Len(Done(u))
                   /\ \A n \in Static(u) : m.n = "static:::" \o n => m.count = Len(Vals(u, n))
                   /\ m.count = 0 => /\ m.mean \in {0, R.null} /\ m.var \in {0, R.null}
                                     /\ m.min \in {0, R.null} /\ m.max \in {0, R.null}

(* R02 *)
Expected(u, a) == [ts |-> a.c, dur |-> a.dc,
                   m |-> IF a.dc = -1 THEN <<>>
                         ELSE [k \in 1..Len(R.regs[u].evs) |-> a.dw * k]]
Shown(u, e) == [ts |-> e.ts, dur |-> e.dur,
                m |-> IF Len(e.metrics) = 0 THEN <<>>
                      ELSE [k \in 1..Len(R.regs[u].evs) |->
                              LET P == {i \in 1..Len(e.metrics) : e.metrics[i].n = R.regs[u].evs[k]} IN
                              IF P = {} THEN -2 ELSE e.metrics[CHOOSE i \in P : TRUE].v]]
Times(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
RawOK == AtEnd => EndedOK /\ R.json /\ (R.mode = "raw" => \A u \in Regs :
    LET want == [i \in 1..Len(Acts(u)) |-> Expected(u, Acts(u)[i])]
        got == [i \in 1..Len(EvOf(u)) |-> Shown(u, EvOf(u)[i])]
    IN \A x \in RangeOf(want) \cup RangeOf(got) : Times(want, x) = Times(got, x))

(* R03: reported statistics m of the values s, which are given in units of 1/q *)
Abs(x) == IF x < 0 THEN -x ELSE x
StatOK(m, s, q) ==
    LET n == Len(s) IN
    /\ m.count = n
    /\ n > 0 =>
       /\ {m.mean, m.var, m.min, m.max} \cap {R.null} = {}
       /\ Abs(m.mean * q * n - 100 * SumSeq(s)) <= n * q * (1 + Abs(m.mean) \div 100000)
       /\ Abs(m.min * q - 100 * MinSeq(s)) <= q * (1 + Abs(m.min) \div 100000)
       /\ Abs(m.max * q - 100 * MaxSeq(s)) <= q * (1 + Abs(m.max) \div 100000)
       /\ n <= 40 => Abs(m.var * q * q * n * n - R.vs * (n * SumSq(s) - SumSeq(s) * SumSeq(s)))
            <= q * q * n * n * (1 + Abs(m.var) \div 100000)
M(e, n) == e.metrics[CHOOSE i \in 1..Len(e.metrics) : e.metrics[i].n = n]
AggOK == AtEnd => EndedOK /\ R.json /\ (R.mode = "aggregate" => \A u \in Regs :
    /\ Len(EvOf(u)) = 1
    /\ LET e == EvOf(u)[1] IN
       /\ Acts(u) # <<>> => e.ts = MinSeq([i \in 1..Len(Acts(u)) |-> Acts(u)[i].c])
       /\ Abs(e.dur100 - 100 * SumSeq(Durs(u))) <= 1 + e.dur100 \div 100000
       /\ "runtime" \in MetricNames(e) /\ StatOK(M(e, "runtime"), Durs(u), 1)
       /\ \A k \in 1..Len(R.regs[u].evs) : LET n == R.regs[u].evs[k] IN
            (Done(u) # <<>> => n \in MetricNames(e)) /\ (n \in MetricNames(e) => StatOK(M(e, n), Counts(u, k), 1))
       /\ \A n \in Names(u) : /\ "static:::" \o n \in MetricNames(e)
                              /\ StatOK(M(e, "static:::" \o n), Vals(u, n), 4))

(* R05: many equal reports, and many complete activations, from several threads at once *)
Bulk(o, u) == {i \in 1..Len(Ops) : Ops[i].op = o /\ Ops[i].u = u}
RECURSIVE SumOver(_, _)
SumOver(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + SumOver(S \ {x}, f)
BulkOK == AtEnd => EndedOK /\ R.json /\ \A u \in 1..Len(R.regs) :
    /\ Bulk("bulkpair", u) # {} =>
         LET k == SumOver(Bulk("bulkpair", u), [i \in 1..Len(Ops) |-> Ops[i].k]) IN
         IF R.mode = "raw" THEN /\ Len(EvOf(u)) = k
                                /\ \A i \in 1..Len(EvOf(u)) : EvOf(u)[i].dur > 0
         ELSE Len(EvOf(u)) = 1 /\ M(EvOf(u)[1], "runtime").count = k
    /\ R.mode = "aggregate" => \A n \in {Ops[i].name : i \in Bulk("bulkinc", u)} :
         LET B == {i \in Bulk("bulkinc", u) : Ops[i].name = n}
             k == SumOver(B, [i \in 1..Len(Ops) |-> IF i \in B THEN Ops[i].k ELSE 0])
             tot == SumOver(B, [i \in 1..Len(Ops) |-> IF i \in B THEN Ops[i].k * Ops[i].q ELSE 0])
             m == M(EvOf(u)[1], "static:::" \o n)
             vs == {Ops[i].q : i \in B}
         IN /\ "static:::" \o n \in MetricNames(EvOf(u)[1])
            /\ m.count = k
            /\ Abs(m.mean * k - 100 * tot) <= k
            /\ m.min = 100 * (CHOOSE x \in vs : \A y \in vs : x <= y)
            /\ m.max = 100 * (CHOOSE x \in vs : \A y \in vs : x >= y)
==============================================================================
