------------------------------ MODULE CaptureGen ------------------------------
(* Bounded instance of Capture that prints every behaviour of length L.        *)
EXTENDS Capture, Json
CONSTANTS SIM, L, Ctxs, Els, Args, Strats, Envs, Dirs, DimSet, Tags
VARIABLE h
(* shapes: element size first, then up to three extents *)
DimTab == << <<4>>, <<8>>, <<33>>, <<32>>, <<0>>, <<8, 5>>, <<4, 0>>, <<1, 700>>, <<4, 3, 2>>, <<4, 40, 100>>,
             <<2, 3, 4, 5>>, <<8, 1, 0, 3>> >>
(* simulation: draw the arguments instead of branching on all of them *)
Pick(S) == IF SIM THEN {RandomElement(S)} ELSE S
Op(r) == h' = Append(h, r)
GInit == Init /\ h = <<>>
(* contexts are created in order, with their own name *)
GNext ==
    /\ Len(h) < L
    /\ \/ \E c \in Ctxs, s \in Pick(Strats), e \in Pick(Envs), d \in Pick(Dirs) :
            /\ \A b \in Ctxs : b < c => b \in DOMAIN ctx
            /\ InitCtx(c, "f" \o ToString(c), s, e, d)
            /\ Op([op |-> "init", c |-> c, name |-> "f" \o ToString(c), strat |-> s, env |-> e, dir |-> d])
       \/ \E c \in Ctxs, el \in Els : Enter(c, el) /\ Op([op |-> "enter", c |-> c, el |-> el])
       \/ \E c \in Ctxs, el \in Els, a \in Pick(Args), after \in Pick(BOOLEAN), di \in Pick(DimSet), t \in Pick(Tags) :
            LET d == DimTab[di] IN
            /\ Cap(c, el, a, after, 4 + a, d, Val(t, d))
            /\ Op([op |-> "cap", c |-> c, el |-> el, arg |-> a, after |-> after, type |-> 4 + a, dims |-> d, tag |-> t])
       \/ \E c \in Ctxs : End(c) /\ Op([op |-> "end", c |-> c])
GSpec == GInit /\ [][GNext]_<<vars, h>>
Dump == Len(h) = L => PrintT("@@" \o ToJson(h))
==============================================================================
