----------------------------- MODULE SdfgDocGen ------------------------------
(* Sessions with a program: it is built, loaded, cloned, added to, copied     *)
(* from and deleted from in every order.  Identifiers come from a counter;    *)
(* the invariants say that no session ever has two elements with the same     *)
(* number, whichever program it continues with.  Every session is printed     *)
(* and then done with the real code.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxLen
VARIABLES ids, count, hist, doc              \* doc: the last saved [ids, count]
vars == <<ids, count, hist, doc>>
Init == ids = {0, 1, 2} /\ count = 2 /\ hist = <<>> /\ doc = [ids |-> {0, 1, 2}, count |-> 2]
Do(a) == Len(hist) < MaxLen /\ hist' = Append(hist, a)
Load == Do("load") /\ doc' = [ids |-> ids, count |-> count] /\ ids' = doc'.ids /\ count' = doc'.count
Clone == Do("clone") /\ doc' = [ids |-> ids, count |-> count] /\ UNCHANGED <<ids, count>>
Add(n) == ids' = ids \cup {count + m : m \in 1..n} /\ count' = count + n /\ UNCHANGED doc
AddSome == Do("add") /\ Add(2)
Copy == Do("copy") /\ ids # {0} /\ Add(1)
Del == Do("del") /\ \E i \in ids \ {0} : ids' = ids \ {i} /\ UNCHANGED <<count, doc>>
Next == Load \/ Clone \/ AddSome \/ Copy \/ Del
Spec == Init /\ [][Next]_vars
Counted == \A i \in ids : i <= count
Fresh == Cardinality(ids \cup {count + 1}) = Cardinality(ids) + 1
Restores == hist # <<>> /\ hist[Len(hist)] = "load" => ids = doc.ids /\ count = doc.count
Show == Len(hist) = MaxLen => PrintT(<<"HIST", hist>>)
=============================================================================
