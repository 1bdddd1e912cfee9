------------------------------- MODULE HideMC -------------------------------
(***************************************************************************)
(* A complete trie and a copy of it with some sub-tries replaced by their  *)
(* hashes, both changed by the same operations.                            *)
(*                                                                         *)
(* State: u - the universe, x - contents of the complete trie, full - its  *)
(* nodes, part - the nodes of the partially hidden copy.                   *)
(* An operation the copy refuses (it leads into a hidden part) is not      *)
(* carried out on either.                                                  *)
(*                                                                         *)
(* Known finding F1: a deletion that leaves a hidden node as the only      *)
(* child of a branch merges them without knowing what the hidden node is.  *)
(* The copy then has a wrong hash if it was a leaf or an extension.  The   *)
(* specification isolates exactly these steps (Guess); everywhere else the *)
(* hashes agree (SameRoot).                                                *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)
Emitting == IOEnv.EMIT = "1"

VARIABLES u, x, full, part
vars == <<u, x, full, part>>

Keys(w) == U[w].keys
Ents(w) == U[w].ents

EntX(w, y) == Denoted(U[w], y)

Emit(r) == Emitting => PrintT(ToJson(r))

\* positions at which the nodes may be hidden
Hideable(t) == {p \in Positions(t, <<>>) : Hashable(NodeAt(t, p))}
\* no position above another one
Antichain(P) == \A p, q \in P : p # q => ~IsPfx(p, q)

\* every set of them, or with large surroundings: none, one, all but one, all at the bottom
Hidings(t) ==
    LET h == Hideable(t)
        low == {p \in h : \A q \in h : p # q => ~IsPfx(p, q)}
    IN IF RestOf(U[u]) = <<>> THEN {Q \in SUBSET h : Antichain(Q)}
       ELSE {{}, low} \cup {{p} : p \in h} \cup {low \ {p} : p \in low}

Init == /\ u \in 1..Len(U)
        /\ x \in [1..Len(Keys(u)) -> 0..Len(Ents(u))]
        /\ full = Canon(EntX(u, x))
        /\ part \in {Hide(full, P) : P \in Hidings(full)}

Refuse == UNCHANGED vars

Insert(i, j) ==
    LET k == Keys(u)[i]
        e == Ents(u)[j]
        f == AlgIns(full, k, e)
        s == AlgIns(part, k, e)
        y == IF s.r = "ok" THEN [x EXCEPT ![i] = j] ELSE x
    IN /\ Emit([q |-> "T", u |-> u, x |-> x, part |-> Brief(part), op |-> "ins", i |-> i, j |-> j,
                r |-> s.r, y |-> y, to |-> Brief(s.n), hash |-> Hex(RootHash(f.n)), guess |-> FALSE])
       /\ IF s.r = "panic" THEN Refuse
          ELSE x' = y /\ full' = f.n /\ part' = s.n /\ u' = u

\* the deletion cannot know its result: it merges with a hidden node
Guess(i) == CollapsesOntoHidden(EntOf(part), Keys(u)[i])

Delete(i) ==
    LET k == Keys(u)[i]
        f == AlgDel(full, k)
        s == AlgDel(part, k)
        g == s.r = "some" /\ Guess(i)
        y == IF s.r = "some" THEN [x EXCEPT ![i] = 0] ELSE x
        wrong == g /\ RootHash(s.n) # RootHash(f.n)
    IN /\ Assert(s.r # "panic" => s.r = f.r /\ s.v = f.v, <<"delete outcome", u, x, i>>)
       /\ Emit([q |-> "T", u |-> u, x |-> x, part |-> Brief(part), op |-> "del", i |-> i, j |-> 0,
                r |-> s.r, y |-> y, to |-> Brief(s.n), hash |-> Hex(RootHash(f.n)), guess |-> wrong])
       \* F1: from there on the copy is not a copy any more
       /\ ~wrong
       /\ IF s.r = "panic" THEN Refuse
          ELSE x' = y /\ full' = f.n /\ part' = s.n /\ u' = u

Next == \E i \in 1..Len(x) : Delete(i) \/ \E j \in 1..Len(Ents(u)) : Insert(i, j)

(* ------------------------------ properties ------------------------------ *)
IsComplete == full = Canon(EntX(u, x))
\* hiding and everything done afterwards keeps the hash (C07)
SameRoot == RootHash(part) = RootHash(full)
\* the copy stays the complete trie with parts hidden
Partial == IsPartialOf(part, full)
\* and it is the canonical tree of what it shows
Canonical == WellFormed(part) /\ part = Canon(EntOf(part))

EmitState == Emit([q |-> "S", u |-> u, x |-> x, part |-> Brief(part), hash |-> Hex(RootHash(full))])
=============================================================================
