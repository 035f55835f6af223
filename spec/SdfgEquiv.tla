------------------------------ MODULE SdfgEquiv ------------------------------
(* Runs the program before a change (P) in its own order, then the program   *)
(* after it (Q) in every order its maps and transitions allow, and compares  *)
(* what a caller sees.                                                       *)
EXTENDS Sdfg, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ii, ph, m, obs
vars == <<ci, ii, ph, m, obs>>
C == Cases[ci]
Inp == C.inputs[ii]
Init == /\ ci \in 1..Len(Cases) /\ ii \in 1..Len(Cases[ci].inputs) /\ ph = "P" /\ obs = [h |-> <<>>, ret |-> 0]
        /\ m = StartOf(Cases[ci].P, Cases[ci].inputs[ii], Cases[ci].fuel)
RunP == ph = "P" /\ m.out = "run" /\ m' \in StepsOf(C.P, m, FALSE) /\ UNCHANGED <<ci, ii, ph, obs>>
EndP == /\ ph = "P" /\ m.out = "done" /\ obs' = Seen(m, Inp) /\ ph' = "Q"
        /\ m' = StartOf(C.Q, Inp, 8 * (C.fuel - m.fuel) + 400)
        /\ PrintT(<<"RUN", C.id, ii>>)
        /\ UNCHANGED <<ci, ii>>
SkipP == /\ ph = "P" /\ m.out \in {"undef", "fuel"} /\ ph' = "skip" /\ PrintT(<<"SKIP", C.id, ii, m.out>>) /\ UNCHANGED <<ci, ii, m, obs>>
RunQ == ph = "Q" /\ m.out = "run" /\ m' \in StepsOf(C.Q, m, C.any) /\ UNCHANGED <<ci, ii, ph, obs>>
EndQ == /\ ph = "Q" /\ m.out # "run"
        /\ LET ok == m.out = "done" /\ SameSeen(obs, Seen(m, Inp)) IN
           IF ok THEN TRUE ELSE PrintT(<<"BAD", C.id, ii, m.out, obs, Seen(m, Inp)>>)
        /\ ph' = "end" /\ UNCHANGED <<ci, ii, m, obs>>
Next == RunP \/ EndP \/ SkipP \/ RunQ \/ EndQ
Spec == Init /\ [][Next]_vars
=============================================================================
