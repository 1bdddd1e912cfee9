------------------------------- MODULE ValueMC -------------------------------
(***************************************************************************)
(* Writing typed values.  An input is a type with a number (its big-endian *)
(* digits in base 256, no leading zeros), a byte string or a hash; Stored  *)
(* says which entry it becomes.  States are the contents reachable by      *)
(* writing the inputs of a universe under its keys.                        *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)

VARIABLES u, x
vars == <<u, x>>

Width == [u8 |-> 1, u16 |-> 2, u32 |-> 4, u64 |-> 8, U128 |-> 16, U256 |-> 32, U512 |-> 64]

Zeros(n) == [i \in 1..n |-> 0]
Stored(in) ==
    CASE in.ty \in {"vec", "slice"} -> Val(in.n)
      [] in.ty = "H256" -> Hid(in.n)
      [] OTHER -> Val(Zeros(Width[in.ty] - Len(in.n)) \o in.n)

Keys == U[u].keys
Ins == U[u].ins
Ent(z) ==
    LET D == {i \in 1..Len(z) : z[i] # 0}
        K == {Keys[i] : i \in D}
    IN [k \in K |-> Stored(Ins[z[CHOOSE i \in D : Keys[i] = k]])]

Write(i, j) ==
    LET ref == InsertRefused(Ent(x), Keys[i], Stored(Ins[j])) IN
    /\ x' = IF ref THEN x ELSE [x EXCEPT ![i] = j]
    /\ PrintT(ToJson([q |-> "T", u |-> u, x |-> x, y |-> x', i |-> i, j |-> j, refused |-> ref]))

Init == u \in 1..Len(U) /\ x = [i \in 1..Len(U[u].keys) |-> 0]
Next ==
    /\ \E i \in 1..Len(Keys), j \in 1..Len(Ins) : Write(i, j)
    /\ UNCHANGED u

\* the stored bytes are the number, in the width of the type
RECURSIVE Lstrip(_)
Lstrip(b) == IF b # <<>> /\ b[1] = 0 THEN Lstrip(Tail(b)) ELSE b
StoredLaws ==
    \A j \in 1..Len(Ins) :
        LET in == Ins[j]
            e == Stored(in)
        IN IF in.ty \in {"vec", "slice", "H256"} THEN e.b = in.n /\ (e.kind = "h" <=> in.ty = "H256")
           ELSE e.kind = "v" /\ Len(e.b) = Width[in.ty] /\ Lstrip(e.b) = in.n

Props ==
    LET ent == Ent(x)
        t == Canon(ent)
    IN /\ StoredLaws
       /\ \A i \in 1..Len(Keys) : AlgGet(t, Keys[i]) = LookupVal(ent, Keys[i])
       /\ \A i \in 1..Len(Keys), j \in 1..Len(Ins) :
            LET e == Stored(Ins[j])
                w == AlgIns(t, Keys[i], e)
            IN IF InsertRefused(ent, Keys[i], e) THEN w.r = "panic"
               ELSE w.r = "ok" /\ w.n = Canon(Put(ent, Keys[i], e))

Emit == PrintT(ToJson(
    [q |-> "S", u |-> u, x |-> x, tree |-> Brief(Canon(Ent(x))),
     stored |-> IF \A i \in 1..Len(x) : x[i] = 0
                THEN [j \in 1..Len(Ins) |-> Stored(Ins[j])] ELSE <<>>]))
=============================================================================
