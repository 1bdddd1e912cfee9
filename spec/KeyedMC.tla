------------------------------- MODULE KeyedMC -------------------------------
(***************************************************************************)
(* Keys given as integers.  Every operation of a trie takes any type that  *)
(* converts to a key; an integer stands for its nibbles without leading    *)
(* zeros, whatever its width.  Several inputs of a universe may stand for  *)
(* the same key.  States are the contents over the keys of the inputs.     *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)

VARIABLES u, ent
vars == <<u, ent>>

Ins == U[u].ins                 \* [ty, n]: n big-endian digits in base 256
KeyOf(in) == IF in.ty = "nibbles" THEN in.n ELSE StripZeros(UnpackBytes(in.n))
Keys == {KeyOf(Ins[i]) : i \in 1..Len(Ins)}
Vals == U[u].vals

Emit(r) == PrintT(ToJson(r))
Show1(e) == Brief(Canon(e))

Write(i, j) ==
    /\ ent' = Put(ent, KeyOf(Ins[i]), Val(Vals[j]))
    /\ Emit([q |-> "T", u |-> u, op |-> "put", i |-> i, j |-> j, from |-> Show1(ent), to |-> Show1(ent'),
             r |-> "ok", v |-> <<>>])
Erase(i) ==
    LET g == LookupVal(ent, KeyOf(Ins[i])) IN
    /\ ent' = Remove(ent, KeyOf(Ins[i]))
    /\ Emit([q |-> "T", u |-> u, op |-> "del", i |-> i, j |-> 0, from |-> Show1(ent), to |-> Show1(ent'),
             r |-> g.r, v |-> g.v])

Init == u \in 1..Len(U) /\ ent = NoEnt
Next ==
    /\ \/ \E i \in 1..Len(Ins), j \in 1..Len(Vals) : Write(i, j)
       \/ \E i \in 1..Len(Ins) : Erase(i)
    /\ UNCHANGED u

\* the same number in another width is the same key, other numbers are others
SameNumber(a, b) == StripZeros(a.n) = StripZeros(b.n)
\* a number is the key of its digits, without zeros in front
KeyLaws1 ==
    /\ \A i \in 1..Len(Ins) : Ins[i].ty # "nibbles" =>
        LET k == KeyOf(Ins[i]) IN
        /\ k = <<>> \/ k[1] # 0
        /\ PackBytes(k) = StripZeros(Ins[i].n)
    /\ \A i, j \in 1..Len(Ins) :
        Ins[i].ty # "nibbles" /\ Ins[j].ty # "nibbles" =>
            (KeyOf(Ins[i]) = KeyOf(Ins[j]) <=> SameNumber(Ins[i], Ins[j]))

Props ==
    LET t == Canon(ent) IN
    /\ KeyLaws1
    /\ \A k \in Keys :
        /\ AlgGet(t, k) = LookupVal(ent, k)
        /\ AlgDel(t, k).n = Canon(Remove(ent, k))
        /\ RootHash(Sub(t, {k})) = RootHash(t)

EmitState == Emit([q |-> "S", u |-> u, tree |-> Show1(ent),
    keys |-> [i \in 1..Len(Ins) |-> KeyOf(Ins[i])],
    gets |-> [i \in 1..Len(Ins) |-> LookupVal(ent, KeyOf(Ins[i]))],
    subs |-> [i \in 1..Len(Ins) |-> Brief(Sub(Canon(ent), {KeyOf(Ins[i])}))]])
=============================================================================
