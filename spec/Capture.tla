------------------------------- MODULE Capture --------------------------------
(* Argument capture: contexts count how often each region was entered and      *)
(* decide which invocation is recorded; the arguments captured between enter    *)
(* and end become one immutable recording (an index with its data) on disk.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

VARIABLES ctx,   \* context id -> [name, dir, lim, cnt, open, cur]
          disk,  \* <<dir, name, region, invocation>> -> set of recorded arguments
          ret    \* result of the last call
vars == <<ctx, disk, ret>>

DefaultDir == "arg_captures"
(* the environment overrides the argument, which overrides the default *)
DirOf(env, dir) == IF env # "unset" THEN env ELSE IF dir # "unset" THEN dir ELSE DefaultDir
LimOf(strat) == CASE strat = "all" -> "all" [] strat = "never" -> "null" [] OTHER -> "first"

Init == ctx = <<>> /\ disk = <<>> /\ ret = TRUE

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]

InitCtx(c, name, strat, env, dir) ==
    /\ c \notin DOMAIN ctx
    /\ ctx' = Put(ctx, c, [name |-> name, dir |-> DirOf(env, dir), lim |-> LimOf(strat),
                           cnt |-> <<>>, open |-> -1, cur |-> <<>>])
    /\ ret' = (LimOf(strat) # "null")
    /\ UNCHANGED disk

Times(x, el) == IF el \in DOMAIN x.cnt THEN x.cnt[el] ELSE 0
Records(x, el) == x.lim = "all" \/ (x.lim = "first" /\ Times(x, el) = 0)

(* entering a region starts a new invocation of it; its number is how often it *)
(* was entered before *)
Enter(c, el) ==
    /\ c \in DOMAIN ctx
    /\ LET x == ctx[c] IN
       /\ ret' = Records(x, el)
       /\ ctx' = IF x.lim = "null" THEN ctx
                 ELSE [ctx EXCEPT ![c].cnt = Put(x.cnt, el, Times(x, el) + 1),
                                  ![c].open = IF Records(x, el) THEN el ELSE -1,
                                  ![c].cur = <<>>]
    /\ UNCHANGED disk

(* the protocol of generated code: capture only between enter = true and end *)
Cap(c, el, arg, after, type, dims, val) ==
    /\ c \in DOMAIN ctx
    /\ ctx[c].open = el
    /\ ctx' = [ctx EXCEPT ![c].cur = Put(ctx[c].cur, <<arg, after>>,
                   [arg |-> arg, after |-> after, type |-> type, dims |-> dims, val |-> val])]
    /\ ret' = TRUE
    /\ UNCHANGED disk

Range(f) == {f[k] : k \in DOMAIN f}
End(c) ==
    /\ c \in DOMAIN ctx
    /\ LET x == ctx[c] IN
       /\ disk' = IF x.open = -1 \/ x.cur = <<>> THEN disk
                  ELSE Put(disk, <<x.dir, x.name, x.open, x.cnt[x.open] - 1>>, Range(x.cur))
       /\ ctx' = [ctx EXCEPT ![c].open = -1, ![c].cur = <<>>]
    /\ ret' = TRUE

Product(d) == LET RECURSIVE P(_)
                  P(i) == IF i > Len(d) THEN 1 ELSE d[i] * P(i + 1)
              IN P(1)
Val(tag, d) == [len |-> Product(d), tag |-> IF Product(d) = 0 THEN 0 ELSE tag]

(* ------------------------------------------------------------- properties -- *)
(* C03: recordings are write-once *)
Immutable == [][\A k \in DOMAIN disk : k \in DOMAIN disk' /\ disk'[k] = disk[k]]_vars
(* C01: what is on disk is allowed by the strategy of some context *)
OnlyAllowed == \A k \in DOMAIN disk : \E c \in DOMAIN ctx :
    /\ ctx[c].name = k[2] /\ ctx[c].dir = k[1]
    /\ ctx[c].lim # "null"
    /\ ctx[c].lim = "first" => k[4] = 0
    /\ k[4] < Times(ctx[c], k[3])
(* C02: no recording is empty and none has two entries for one slot *)
Slots == \A k \in DOMAIN disk : /\ disk[k] # {}
                                /\ \A a, b \in disk[k] : (a.arg = b.arg /\ a.after = b.after) => a = b
==============================================================================
