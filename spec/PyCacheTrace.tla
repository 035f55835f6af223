----------------------------- MODULE PyCacheTrace -----------------------------
(* Recorded histories: which kernel every call got and what is in its code.   *)
EXTENDS PyCache, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, i
C == Cases[ci]
Init == ci \in 1..Len(Cases) /\ i = 0
\* the first earlier call whose kernel this call was given
Donor == CHOOSE j \in 1..i : C.obj[j] = C.obj[i] /\ \A k \in 1..(j - 1) : C.obj[k] # C.obj[i]
Judge == /\ i' = i + 1 /\ i < Len(C.calls) /\ UNCHANGED ci
Spec == Init /\ [][Judge]_<<ci, i>>
Report == \/ i = 0
          \/ /\ PrintT(<<"RUN", C.id, i>>)
             \* handed out although something differs, or compiled although an earlier one would do
             /\ LET d == Differ(C.calls[Donor], C.calls[i]) IN
                IF d = {} THEN TRUE ELSE \A p \in d : PrintT(<<"BADSHARE", C.id, i, p>>)
             /\ IF Donor = i /\ \E j \in 1..(i - 1) : Differ(C.calls[j], C.calls[i]) = {} THEN PrintT(<<"BADAGAIN", C.id, i, "">>) ELSE TRUE
             /\ IF C.loops => (C.instr[i] = (C.calls[i].mode.instr # "") /\ C.cap[i] = C.calls[i].mode.cap) THEN TRUE
                ELSE PrintT(<<"BADMODE", C.id, i, "">>)
=============================================================================
