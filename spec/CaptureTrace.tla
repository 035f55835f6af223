----------------------------- MODULE CaptureTrace -----------------------------
(* Every recorded script must be a behaviour of Capture whose projected disk   *)
(* is the observed one after every call.                                        *)
EXTENDS Capture, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLES r, l
tvars == <<vars, r, l>>
TInit == Init /\ l = 1 /\ r \in 1..(IF N < Stride THEN N ELSE Stride)
Ops == Recs[r].ops
Step ==
    /\ l <= Len(Ops)
    /\ LET o == Ops[l] IN
       \/ o.op = "init" /\ InitCtx(o.c, o.name, o.strat, o.env, o.dir)
       \/ o.op = "enter" /\ Enter(o.c, o.el)
       \/ o.op = "cap" /\ Cap(o.c, o.el, o.arg, o.after, o.type, o.dims, Val(o.tag, o.dims))
       \/ o.op = "end" /\ End(o.c)
    /\ l' = l + 1 /\ r' = r
NextRec ==
    /\ l = Len(Ops) + 1
    /\ r + Stride <= N
    /\ r' = r + Stride /\ l' = 1
    /\ ctx' = <<>> /\ disk' = <<>> /\ ret' = TRUE
TNext == Step \/ NextRec
TSpec == TInit /\ [][TNext]_tvars

Observed(d) == {<<d.idx[i].dir, d.idx[i].name, d.idx[i].el, d.idx[i].inv>> : i \in 1..Len(d.idx)}
EntryFor(d, k) == CHOOSE e \in {d.idx[i] : i \in 1..Len(d.idx)} : <<e.dir, e.name, e.el, e.inv>> = k
CapSet(e) == {e.caps[i] : i \in 1..Len(e.caps)}
SameDisk(d) ==
    /\ d.bad = 0
    /\ Len(d.idx) = Cardinality(Observed(d))       \* one index per recorded invocation
    /\ Observed(d) = DOMAIN disk
    /\ \A k \in DOMAIN disk : LET e == EntryFor(d, k) IN
          /\ Len(e.caps) = Cardinality(disk[k])
          /\ CapSet(e) = disk[k]
          /\ e.fmt = 1
(* nothing captured so far: nothing written *)
Clean(d) == (disk = <<>> /\ \A c \in DOMAIN ctx : ctx[c].cur = <<>>
             /\ \A j \in 1..(l - 1) : Ops[j].op # "cap") => d.files = 0
Last == Ops[l - 1]
RetOK == l > 1 => /\ ~Last.thrown
                  /\ Last.op \in {"init", "enter"} => Last.ret = ret
DiskOK == (l > 1 /\ "disk" \in DOMAIN Last) => SameDisk(Last.disk) /\ Clean(Last.disk)
FinishedOK == Recs[r].status = 0 /\ Len(Ops) = Recs[r].nops
==============================================================================
