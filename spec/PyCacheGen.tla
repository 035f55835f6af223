------------------------------ MODULE PyCacheGen ------------------------------
(* All histories of two calls of f(A, u, n, x) over small arguments, and the  *)
(* invariants of the cache; prints the histories that tell one part of the    *)
(* specialisation from the rest: pairs that differ in one part, or in none.   *)
EXTENDS PyCache
Exts == 1..3
Ints == {2, 3, 5}
Lays == {"C", "F", "step", "neg"}
Tys == {"f", "i"}
Modes == {<<"", FALSE>>, <<"ols", FALSE>>, <<"", TRUE>>}
CStr(sh) == [k \in 1..Len(sh) |-> Prod(SubSeq(sh, k + 1, Len(sh)))]
FStr(sh) == [k \in 1..Len(sh) |-> Prod(SubSeq(sh, 1, k - 1))]
StrOf(lay, sh) == CASE lay = "C" -> CStr(sh) [] lay = "F" -> FStr(sh)
                    [] lay = "step" -> [k \in 1..Len(sh) |-> 2 * CStr(sh)[k]]
                    [] lay = "neg" -> [k \in 1..Len(sh) |-> -CStr(sh)[k]]
Arr(ty, sh, lay) == [k |-> "a", ty |-> ty, name |-> "", sh |-> sh, st |-> StrOf(lay, sh), v |-> 0, tie |-> FALSE]
Sca(ty, v, tie) == [k |-> "s", ty |-> ty, name |-> "", sh |-> <<>>, st |-> <<>>, v |-> v, tie |-> tie]
Call(t) == [args |-> <<Arr(t[7], <<t[1], t[2]>>, t[4]), Arr("f", <<t[1]>>, t[5]), Sca("i", t[3], TRUE), Sca(t[6], 1, FALSE)>>,
            mode |-> [instr |-> t[8][1], cap |-> t[8][2]]]
Tuples == {t \in Exts \X Exts \X Ints \X Lays \X {"C", "step"} \X Tys \X Tys \X Modes :
              (t[6] = "i" => t[7] = "f") /\ (t[8] # <<"", FALSE>> => t[4] = "C" /\ t[5] = "C" /\ t[6] = "f" /\ t[7] = "f")}
CONSTANTS Every, Phase
VARIABLES a, b
Init == a \in Tuples /\ b = <<>>
Changed(s, t) == {k \in 1..8 : s[k] # t[k]}
Next == /\ b = <<>> /\ a' = a
        /\ b' \in {t \in Tuples : Cardinality(Changed(a, t)) <= 2}
Spec == Init /\ [][Next]_<<a, b>>
H == <<Call(a), Call(b)>>
D == Differ(Call(a), Call(b))
\* a kernel serves the second call exactly if nothing it is specialised on changed
Sound == b = <<>> \/ (Kernels(H) = <<1, 1>> <=> D = {})
\* going back to the first call never compiles again
Back == b = <<>> \/ Kernels(<<Call(a), Call(b), Call(a)>>)[3] = 1
Num(t) == <<t[1], t[2], t[3], t[4], t[5], t[6], t[7], t[8][1], t[8][2]>>
\* a fixed sample of them, whatever the order TLC finds them in
Code(t) == t[1] + 3 * t[2] + 11 * t[3] + 29 * (CASE t[4] = "C" -> 1 [] t[4] = "F" -> 2 [] t[4] = "step" -> 3 [] t[4] = "neg" -> 4)
             + 37 * (IF t[5] = "C" THEN 1 ELSE 2) + 53 * (IF t[6] = "f" THEN 1 ELSE 2) + 71 * (IF t[7] = "f" THEN 1 ELSE 2)
Picked == D \cap {"mode", "units", "equal"} # {} \/ (Code(a) * 7 + Code(b) * 13 + Phase) % Every = 0
Show == b = <<>> \/ Cardinality(D) > 1 \/ (a = b) \/ ~Picked
        \/ PrintT(<<"PAIR", IF D = {} THEN "same" ELSE CHOOSE p \in D : TRUE, ToString(Num(a)), ToString(Num(b))>>)
=============================================================================
