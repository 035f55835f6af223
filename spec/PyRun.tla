------------------------------- MODULE PyRun --------------------------------
(* Executes each kernel in the model and compares what its caller sees with   *)
(* what CPython with NumPy and what the compiled kernel gave.                 *)
EXTENDS Py, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ii, m
C == Cases[ci]
Inp == C.inputs[ii]
Init == /\ ci \in 1..Len(Cases) /\ ii \in 1..Len(Cases[ci].inputs)
        /\ m = StartOf(Cases[ci].P, Cases[ci].inputs[ii], Cases[ci].fuel)
Run == m.out = "run" /\ m' = Step(C.P, m) /\ UNCHANGED <<ci, ii>>
End == /\ m.out \in {"done", "undef", "fuel"} /\ m' = [m EXCEPT !.out = "end"]
       /\ IF m.out # "done" THEN PrintT(<<"SKIP", C.id, ii, m.out>>)
          ELSE /\ PrintT(<<"RUN", C.id, ii>>)
               /\ IF C.py[ii] = Seen(m, Inp) THEN TRUE ELSE PrintT(<<"BADPY", C.id, ii, Seen(m, Inp)>>)
               /\ IF C.docc[ii] = Seen(m, Inp) THEN TRUE ELSE PrintT(<<"BAD", C.id, ii, Seen(m, Inp)>>)
       /\ UNCHANGED <<ci, ii>>
Next == Run \/ End
Spec == Init /\ [][Next]_<<ci, ii, m>>
=============================================================================
