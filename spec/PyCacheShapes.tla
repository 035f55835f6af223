----------------------------- MODULE PyCacheShapes -----------------------------
(* Pairs of calls g(A, b, n, k) whose extents and integers relate differently:*)
(* which extents are equal, and which integer argument equals which extent.   *)
(* Prints those a kernel must not be shared between although a coarser key    *)
(* (how many different extents, which extents have a name) is the same, and   *)
(* those it must be shared between although the numbers are others.           *)
EXTENDS PyCache
Vals == 2..4
CONSTANTS Every, Phase
Arr(sh) == [k |-> "a", ty |-> "f", name |-> "", sh |-> sh, st |-> [d \in 1..Len(sh) |-> Prod(SubSeq(sh, d + 1, Len(sh)))], v |-> 0, tie |-> FALSE]
Num(v) == [k |-> "s", ty |-> "i", name |-> "", sh |-> <<>>, st |-> <<>>, v |-> v, tie |-> TRUE]
Call(t) == [args |-> <<Arr(<<t[1], t[2]>>), Arr(<<t[3]>>), Num(t[4]), Num(t[5])>>, mode |-> [instr |-> "", cap |-> FALSE]]
Tuples == Vals \X Vals \X Vals \X (Vals \cup {7}) \X (Vals \cup {7})
VARIABLES a, b
Init == a \in Tuples /\ b = <<>>
Next == b = <<>> /\ a' = a /\ b' \in Tuples \ {a}
Spec == Init /\ [][Next]_<<a, b>>
S == SpecOf(Call(a))
T == SpecOf(Call(b))
Distinct(t) == Cardinality({t[1], t[2], t[3]})
Named(s) == {x[1] : x \in {y \in s.ties : y[2] # 0}}
Kind == IF S = T THEN "same"
        ELSE IF S.equal # T.equal /\ S.ties = T.ties THEN (IF Distinct(a) = Distinct(b) THEN "equal" ELSE "fewer")
        ELSE IF S.equal = T.equal /\ S.ties # T.ties THEN (IF Named(S) = Named(T) THEN "ties" ELSE "names")
        ELSE "both"
Code(t) == t[1] + 5 * t[2] + 17 * t[3] + 31 * t[4] + 67 * t[5]
Picked == (Code(a) * 7 + Code(b) * 13 + Phase) % Every = 0
Sound == b = <<>> \/ ~Picked \/ (Kernels(<<Call(a), Call(b)>>) = <<1, 1>> <=> S = T)
Back == b = <<>> \/ ~Picked \/ Kernels(<<Call(a), Call(b), Call(a)>>)[3] = 1
Show == b = <<>> \/ ~Picked \/ PrintT(<<"SHAPES", Kind, ToString(a), ToString(b)>>)
=============================================================================
