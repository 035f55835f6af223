------------------------------ MODULE CaptureIO -------------------------------
(* C04: what is loaded from an index is what was written (one record per pair). *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Recs)
Stride == 64
VARIABLE r
TInit == r \in 1..(IF N < Stride THEN N ELSE Stride)
TNext == r + Stride <= N /\ r' = r + Stride
TSpec == TInit /\ [][TNext]_r

(* base64 (RFC 4648) as a function of the byte sequence, on character codes *)
Code(v) == CASE v < 26 -> 65 + v [] v < 52 -> 97 + (v - 26) [] v < 62 -> 48 + (v - 52) [] v = 62 -> 43 [] OTHER -> 47
At(b, i) == IF i <= Len(b) THEN b[i] ELSE 0
B64(b) ==
    LET groups == (Len(b) + 2) \div 3
        Char(k) == LET g == k \div 4
                       p == k % 4
                       x == At(b, 3 * g + 1)
                       y == At(b, 3 * g + 2)
                       z == At(b, 3 * g + 3)
                       have == Len(b) - 3 * g          \* bytes left in this group
                   IN CASE p = 0 -> Code(x \div 4)
                        [] p = 1 -> Code((x % 4) * 16 + y \div 16)
                        [] p = 2 -> IF have < 2 THEN 61 ELSE Code((y % 16) * 4 + z \div 64)
                        [] OTHER -> IF have < 3 THEN 61 ELSE Code(z % 64)
    IN [k \in 1..(4 * groups) |-> Char(k - 1)]

Key(c) == <<c.arg, c.after>>
(* the last capture of a slot counts *)
Final(w) == {w.caps[i] : i \in {j \in 1..Len(w.caps) : \A k \in (j + 1)..Len(w.caps) : Key(w.caps[k]) # Key(w.caps[j])}}
Same(a, b) == /\ Key(a) = Key(b) /\ a.type = b.type /\ a.dims = b.dims /\ a.kind = b.kind /\ a.bytes = b.bytes
              /\ a.kind = "file" => a.file = b.file
              /\ b.keyok
RoundTrip == LET x == Recs[r] IN
    /\ x.ok
    /\ x.l.name = x.w.name
    /\ x.l.els = <<x.w.el>>
    /\ x.l.inv = x.w.inv
    /\ Len(x.l.caps) = Cardinality(Final(x.w))
    /\ \A c \in Final(x.w) : \E i \in 1..Len(x.l.caps) : Same(c, x.l.caps[i])
Base64OK == LET x == Recs[r] IN
    /\ Len(x.text) = Cardinality({c \in Final(x.w) : c.kind = "inline"})
    /\ \A i \in 1..Len(x.text) : \E c \in Final(x.w) :
        Key(c) = <<x.text[i].arg, x.text[i].after>> /\ x.text[i].codes = B64(c.bytes)
DamageOK == LET x == Recs[r] IN
    \A i \in 1..Len(x.damage) :
        x.damage[i][2] = IF x.damage[i][1] \in {"control", "data control"} THEN "loaded" ELSE "refused"
==============================================================================
