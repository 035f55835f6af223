-------------------------------- MODULE RpcGen --------------------------------
(* Sequences of configuration steps.  The alphabet of concrete steps comes from *)
(* a table; the properties are those of layering itself.                        *)
EXTENDS Rpc, Json, IOUtils
CONSTANT L
Tab == ndJsonDeserialize(IOEnv.TAB)[1]
K == Tab.K
A == Tab.steps
VARIABLES st, hist
Init == st = Blank0 /\ hist = <<>>
Next == \E i \in 1..Len(A) : Len(hist) < L /\ ~st.failed /\ st' = ApplyStep(st, A[i], K) /\ hist' = Append(hist, i)
Spec == Init /\ [][Next]_<<st, hist>>
Dump == hist = <<>> \/ PrintT("@@" \o ToJson(hist))
Step == A[hist'[Len(hist')]]
(* a step changes only what it provides *)
Frame == [][~st'.failed =>
   /\ st'.server # st.server => Step.op \in {"local", "file", "env", "docc"}
   /\ st'.endpoint # st.endpoint => Step.op \in {"local", "file", "env", "docc"}
   /\ Step.op \in {"file", "env"} =>
        LET f == IF Step.file = None THEN [server |-> None, endpoint |-> None, headers |-> <<>>] ELSE Val(Step.file) IN
        /\ f.server = None => st'.server = st.server
        /\ f.endpoint = None => st'.endpoint = st.endpoint
        /\ \A p \in st.headers : p[1] \notin {f.headers[i][1] : i \in 1..Len(f.headers)} => p \in st'.headers
   /\ Step.op = "header" => <<Step.name, Step.value>> \in st'.headers
   /\ {p[1] : p \in st.headers} \subseteq {p[1] : p \in st'.headers}]_<<st, hist>>
OneValue == \A p, q \in st.headers : p[1] = q[1] => p = q
==============================================================================
