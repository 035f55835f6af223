------------------------------- MODULE InstrGen -------------------------------
(* Bounded instance of Instr that prints every behaviour of length L.          *)
EXTENDS Instr, Json
CONSTANTS SIM, L, Regs, Threads, Mets_, Vals_, Overlap
VARIABLE h, c, w
gvars == <<vars, h, c, w>>
Pick(S) == IF SIM /\ S # {} THEN {RandomElement(S)} ELSE S
(* the clock and the work counter advance before each call, by distinct steps *)
DC == <<3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8, 9, 7, 9, 3, 2, 3, 8, 4>>
DW == <<2, 7, 1, 8, 2, 8, 1, 8, 2, 8, 4, 5, 9, 0, 4, 5, 2, 3, 5, 3>>
K == (Len(h) % 20) + 1
C == c + DC[K]
W == w + DW[K]
Op(o, t, u) == h' = Append(h, [op |-> o, t |-> t, u |-> u, c |-> C, w |-> W])
OpV(o, t, u, n, v) == h' = Append(h, [op |-> o, t |-> t, u |-> u, c |-> C, w |-> W, name |-> n, val |-> v])
GInit == Init /\ h = <<>> /\ c = 0 /\ w = 0
(* every thread has its own registrations of a region and enters within them *)
Regd(u, t) == Cardinality({i \in 1..Len(h) : h[i].op = "init" /\ h[i].u = u /\ h[i].t = t})
              - Cardinality({i \in 1..Len(h) : h[i].op = "fin" /\ h[i].u = u /\ h[i].t = t})
Keep(u) == LET all == kept \cup {u} IN
           IF Cardinality(all) <= CacheSize THEN all ELSE all \ {CHOOSE x \in all \ {u} : TRUE}
GNext ==
    /\ Len(h) < L
    /\ c' = C /\ w' = W
    /\ \E t \in Pick(Threads), u \in Pick(Regs) :
       \/ /\ Live(u) < Overlap
          /\ Register(u) /\ Op("init", t, u)
       \/ /\ Cardinality(OpenOf(u, t)) < Regd(u, t)
          /\ Enter(u, t, C, W) /\ Op("enter", t, u)
       \/ Exit(u, t, C, W) /\ Op("exit", t, u)
       \/ /\ Cardinality(OpenOf(u, t)) < Regd(u, t)
          /\ Finalize(u, IF Live(u) > 1 THEN kept ELSE Keep(u)) /\ Op("fin", t, u)
       \/ /\ Regd(u, t) > 0
          /\ \E n \in Pick(Mets_), v \in {x - 50 : x \in Pick(Vals_)}, o \in Pick({"met", "inc"}) :
                Metric(u, n, IF o = "inc" THEN 4 * v ELSE v) /\ OpV(o, t, u, n, v)
GSpec == GInit /\ [][GNext]_gvars
Dump == Len(h) = L => PrintT("@@" \o ToJson(h))
==============================================================================
