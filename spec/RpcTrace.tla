------------------------------- MODULE RpcTrace -------------------------------
(* Recorded lookups, builder runs and requests judged by the rules of Rpc.       *)
EXTENDS Rpc, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLES r
TInit == r \in 1..(IF N < Stride THEN N ELSE Stride)
TNext == r + Stride <= N /\ r' = r + Stride
TSpec == TInit /\ [][TNext]_r
R == Recs[r]

(* N01 *)
AuthOK ==
    LET a == Resolve(R.cfg) IN
    /\ R.found = (a # None)
    /\ a # None => R.tok = Val(a).tok /\ R.job = Val(a).job
    /\ R.ctx.thrown = (a = None)
    /\ a # None =>
         /\ RangeOf(R.ctx.headers) = {<<R.K.auth, AuthOf(Val(a))>>}
         /\ R.ctx.address = (IF IsSet(R.cfg.rpcserver) THEN Val(R.cfg.rpcserver) ELSE R.K.server) \o <<"/">> \o R.K.endpoint

(* N02: after every step *)
RECURSIVE After(_)
After(i) == IF i = 0 THEN Blank0 ELSE ApplyStep(After(i - 1), R.steps[i], R.K)
Same(o, st) == IF st.failed THEN o.thrown
               ELSE /\ ~o.thrown
                    /\ o.server = st.server /\ o.endpoint = st.endpoint
                    /\ RangeOf(o.headers) = st.headers /\ Len(o.headers) = Cardinality(st.headers)
StepsOK ==
    /\ Len(R.obs) = (IF \E i \in 1..Len(R.steps) : After(i).failed
                     THEN CHOOSE i \in 1..Len(R.steps) : After(i).failed /\ ~After(i - 1).failed
                     ELSE Len(R.steps))
    /\ \A i \in 1..Len(R.obs) : Same(R.obs[i], After(i))
    /\ LET st == After(Len(R.steps)) IN
         ~st.failed =>
           /\ R.built.thrown = ~Builds(st)
           /\ Builds(st) => R.built.address = Address(st) /\ RangeOf(R.built.headers) = st.headers

(* N03 *)
RequestOK ==
    /\ R.out.class = Class(R.case)
    /\ R.out.class = "ok" <=> R.out.message = ""
    (* a response is given in full, with its status *)
    /\ R.case.complete => R.out.status = R.case.status /\ R.out.body = R.case.body
    (* and the server got the request as it was meant, once *)
    /\ R.case.reached => /\ Len(R.got) = 1
                         /\ R.got[1].method = "POST" /\ R.got[1].path = R.case.path
                         /\ R.got[1].payload = R.case.payload
                         /\ \A i \in 1..Len(R.case.headers) : R.case.headers[i] \in RangeOf(R.got[1].headers)
    /\ ~R.case.reached => R.got = <<>>
==============================================================================
