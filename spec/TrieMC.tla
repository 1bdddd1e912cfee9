------------------------------- MODULE TrieMC -------------------------------
(***************************************************************************)
(* One trie under arbitrary histories of inserts and deletes, explored     *)
(* exhaustively over many small universes of keys and entries.             *)
(*                                                                         *)
(* State: u - the universe; x - the contents, x[i] = 0 (key i absent) or   *)
(* the index of its entry; tree - the node tree produced by the algorithms.*)
(* The invariants say that the algorithms refine the abstract map; the     *)
(* state and transition records printed on the way are replayed into the   *)
(* implementation by the harness.                                          *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)
Emitting == IOEnv.EMIT = "1"

VARIABLES u, x, tree
vars == <<u, x, tree>>

Keys(w) == U[w].keys
Ents(w) == U[w].ents
Probes(w) == U[w].probes

\* contents denoted by a vector
EntX(w, y) == Denoted(U[w], y)

Emit(r) == Emitting => PrintT(ToJson(r))

Init == /\ u \in 1..Len(U)
        /\ x = [i \in 1..Len(Keys(u)) |-> 0]
        /\ tree = Canon(EntX(u, x))

DoInsert(i, j) ==
    LET k == Keys(u)[i]
        e == Ents(u)[j]
        s == AlgIns(tree, k, e)
        refused == InsertRefused(EntX(u, x), k, e)
        y == IF refused THEN x ELSE [x EXCEPT ![i] = j]
    IN /\ Assert((s.r = "panic") <=> refused, <<"insert outcome", u, x, i, j, s>>)
       /\ x' = y /\ tree' = s.n /\ u' = u
       /\ Emit([q |-> "T", u |-> u, x |-> x, y |-> y, op |-> "ins", i |-> i, j |-> j,
                r |-> s.r, v |-> <<>>])

DoDelete(i) ==
    LET k == Keys(u)[i]
        ent == EntX(u, x)
        s == AlgDel(tree, k)
        want == IF Blocked(ent, k) THEN [r |-> "panic", v |-> <<>>] ELSE LookupVal(ent, k)
        y == IF want.r = "some" THEN [x EXCEPT ![i] = 0] ELSE x
    IN /\ Assert(s.r = want.r /\ s.v = want.v, <<"delete outcome", u, x, i, s>>)
       /\ x' = y /\ tree' = s.n /\ u' = u
       /\ Emit([q |-> "T", u |-> u, x |-> x, y |-> y, op |-> "del", i |-> i, j |-> 0,
                r |-> s.r, v |-> s.v])

Next == \E i \in 1..Len(x) : DoDelete(i) \/ \E j \in 1..Len(Ents(u)) : DoInsert(i, j)

Spec == Init /\ [][Next]_vars

(* ------------------------------ properties ------------------------------ *)
Contents == EntX(u, x)

\* the tree is the canonical one: independent of the history (C01, C02, C04)
Refines == tree = Canon(Contents)
Shape == WellFormed(tree)
\* lookups, for keys in and around the universe (C01, C11)
Lookups == \A i \in 1..Len(Probes(u)) :
              AlgGet(tree, Probes(u)[i]) = LookupVal(Contents, Probes(u)[i])
\* iteration (C12)
Iteration == ItemsMatch(Items(tree), Contents)
\* the contents can be read back from the tree (C04: different contents,
\* different trees; C12: iteration determines the trie)
ReadBack == EntOf(tree) = Contents

EmitState ==
    Emitting => PrintT(ToJson([q |-> "S", u |-> u, x |-> x, tree |-> Brief(tree),
        hash |-> Hex(RootHash(tree)),
        gets |-> [i \in 1..Len(Probes(u)) |-> AlgGet(tree, Probes(u)[i])]]))
=============================================================================
