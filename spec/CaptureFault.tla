----------------------------- MODULE CaptureFault -----------------------------
(* C05: recording runs in which one file operation failed or the process ended *)
(* at it.  The completed calls are Capture steps; what the interrupted call may *)
(* have left behind is at most the recording it was about to complete.          *)
EXTENDS Capture, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLES r, l
tvars == <<vars, r, l>>
TInit == Init /\ l = 1 /\ r \in 1..(IF N < Stride THEN N ELSE Stride)
Ops == Recs[r].ops       \* the calls that returned or threw
Done == {j \in 1..Len(Ops) : ~Ops[j].thrown}
Apply(o) ==
    \/ o.op = "init" /\ InitCtx(o.c, o.name, o.strat, o.env, o.dir)
    \/ o.op = "enter" /\ Enter(o.c, o.el)
    \/ o.op = "cap" /\ Cap(o.c, o.el, o.arg, o.after, o.type, o.dims, Val(o.tag, o.dims))
    \/ o.op = "end" /\ End(o.c)
Step == /\ l \in Done
        /\ Apply(Ops[l])
        /\ l' = l + 1 /\ r' = r
AtEnd == l = Len(Ops) + 1 \/ (l <= Len(Ops) /\ Ops[l].thrown)
NextRec == /\ AtEnd /\ r + Stride <= N
           /\ r' = r + Stride /\ l' = 1
           /\ ctx' = <<>> /\ disk' = <<>> /\ ret' = TRUE
TNext == Step \/ NextRec
TSpec == TInit /\ [][TNext]_tvars

Entries(d) == {d.idx[i] : i \in 1..Len(d.idx)}
KeyOf(e) == <<e.dir, e.name, e.el, e.inv>>
CapSet(e) == {e.caps[i] : i \in 1..Len(e.caps)}
(* recordings an unfinished end may have completed *)
Pending == {<<ctx[c].dir, ctx[c].name, ctx[c].open, ctx[c].cnt[ctx[c].open] - 1>> :
               c \in {x \in DOMAIN ctx : ctx[x].open # -1 /\ ctx[x].cur # <<>>}}
PendingCaps(k) == LET c == CHOOSE x \in DOMAIN ctx : ctx[x].open # -1 /\ ctx[x].cur # <<>>
                             /\ <<ctx[x].dir, ctx[x].name, ctx[x].open, ctx[x].cnt[ctx[x].open] - 1>> = k
                  IN Range(ctx[c].cur)
Failed == \E i \in 1..Len(Recs[r].io) : Recs[r].io[i][1] = "FAILED"
Thrown == \E j \in 1..Len(Ops) : Ops[j].thrown
Complete == Recs[r].status = 0 /\ ~Thrown

(* every index that can be loaded is one that was (about to be) written, with all its data *)
NoDangling == AtEnd =>
    \A e \in Entries(Recs[r].final) :
        \/ KeyOf(e) \in DOMAIN disk /\ CapSet(e) = disk[KeyOf(e)]
        \/ ~Complete /\ KeyOf(e) \in Pending /\ CapSet(e) = PendingCaps(KeyOf(e))
(* what ended successfully is still there *)
NothingLost == AtEnd => \A k \in DOMAIN disk : \E e \in Entries(Recs[r].final) : KeyOf(e) = k
Reported == AtEnd => (Failed => Thrown)
NoSpurious == AtEnd => /\ (Recs[r].kind \in {"none", "short"} => Complete /\ Recs[r].final.bad = 0)
                       /\ (Recs[r].status \in {0, 77})
                       /\ (Recs[r].status = 77 => Recs[r].kind = "kill")
==============================================================================
