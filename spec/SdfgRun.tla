------------------------------- MODULE SdfgRun -------------------------------
(* Runs a program and compares what its caller sees with what was recorded   *)
(* when the code generated for it ran on the same input.                     *)
EXTENDS Sdfg, Json, IOUtils
Cases == JsonDeserialize(IOEnv.CASES)
VARIABLES ci, ii, m
C == Cases[ci]
Inp == C.inputs[ii]
Got == C.got[ii]
\* mathematical functions are not evaluated: their results are not specified here
NoValue(f, x) == UNSPEC
Init == /\ ci \in 1..Len(Cases) /\ ii \in 1..Len(Cases[ci].inputs)
        /\ m = StartOf(Cases[ci].P, Cases[ci].inputs[ii], Cases[ci].fuel)
Run == m.out = "run" /\ m' \in StepsOf(C.P, m, FALSE) /\ UNCHANGED <<ci, ii>>
End == /\ m.out \in {"done", "undef", "fuel"} /\ m' = [m EXCEPT !.out = "end"]
       /\ IF m.out # "done" THEN PrintT(<<"SKIP", C.id, ii, m.out>>)
          ELSE /\ PrintT(<<"RUN", C.id, ii>>)
               /\ IF Got.out = "done" /\ SameSeen(Seen(m, Inp), [h |-> Got.h, ret |-> IF C.ret THEN Got.ret ELSE m.ret]) THEN TRUE
                  ELSE PrintT(<<"BAD", C.id, ii, Got, Seen(m, Inp)>>)
       /\ UNCHANGED <<ci, ii>>
Next == Run \/ End
Spec == Init /\ [][Next]_<<ci, ii, m>>
=============================================================================
