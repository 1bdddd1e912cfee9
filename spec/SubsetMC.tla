------------------------------ MODULE SubsetMC ------------------------------
(***************************************************************************)
(* Extraction of subsets, one after the other from the same tracked trie,  *)
(* as the batch function does it.                                          *)
(*                                                                         *)
(* State: u - the universe, x - the contents of the base trie (fixed from  *)
(* the start), base - its nodes, K - the indices of the requests of the list processed so    *)
(* far, touched - the positions marked in the tracked trie, err - a request*)
(* ran into a hidden part.  Mark processes one request, Finish extracts    *)
(* the subset and resets the tracking for the next list.                   *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

U == JsonDeserialize(IOEnv.UNIVERSES)
Composing == IOEnv.AGAIN = "1"
Emitting == IOEnv.EMIT = "1"

VARIABLES u, x, base, K, touched, err
vars == <<u, x, base, K, touched, err>>

Keys(w) == U[w].keys
Ents(w) == U[w].ents
Req(w) == U[w].requests

EntX(w, y) == Denoted(U[w], y)

Emit(r) == Emitting => PrintT(ToJson(r))

(* ---- the algorithm: marking, extraction, reset ---- *)
\* positions of the nodes visited for key k, starting at position p
RECURSIVE Visit(_, _, _)
Visit(n, k, p) ==
    CASE n.t \in {"E", "L"} -> [err |-> FALSE, at |-> {p}]
      [] n.t = "H" -> [err |-> k # <<>>, at |-> {p}]
      [] n.t = "B" ->
            IF k = <<>> THEN [err |-> FALSE, at |-> {p}]
            ELSE LET r == Visit(n.c[k[1] + 1], Tail(k), p \o <<k[1]>>)
                 IN [r EXCEPT !.at = @ \cup {p}]
      [] n.t = "X" ->
            IF ~IsPfx(n.k, k) THEN [err |-> FALSE, at |-> {p}]
            ELSE LET r == Visit(n.c, Drop(k, Len(n.k)), p \o n.k)
                 IN [r EXCEPT !.at = @ \cup {p}]

RECURSIVE FromTracked(_, _, _)
FromTracked(n, p, T) ==
    IF p \notin T /\ Hashable(n) THEN HashN(RootHash(n))
    ELSE CASE n.t \in {"E", "H", "L"} -> n
           [] n.t = "X" -> Ext(n.k, FromTracked(n.c, p \o n.k, T))
           [] n.t = "B" -> Branch([i \in 1..16 |-> FromTracked(n.c[i], p \o <<i - 1>>, T)], n.v)

Result == FromTracked(base, <<>>, touched)
Requests == {Req(u)[i] : i \in K}

Init == /\ u \in 1..Len(U)
        /\ x \in [1..Len(Keys(u)) -> 0..Len(Ents(u))]
        /\ Consistent(EntX(u, x))
        /\ base = Canon(EntX(u, x))
        /\ K = {} /\ touched = {} /\ err = FALSE

Mark(i) ==
    LET r == Visit(base, Req(u)[i], <<>>)
    IN /\ ~err
       /\ K' = K \cup {i}
       /\ touched' = touched \cup r.at
       /\ err' = r.err
       /\ UNCHANGED <<u, x, base>>

\* IOEnv.RESET = "root": a reset that forgets the root only (the defect of
\* the original code), for which BatchIndependent fails
Finish ==
    /\ ~err /\ K # {}
    /\ K' = {}
    /\ touched' = IF IOEnv.RESET = "root" THEN touched \ {<<>>} ELSE {}
    /\ UNCHANGED <<u, x, base, err>>

Next == Finish \/ \E i \in 1..Len(Req(u)) : Mark(i)

(* ------------------------------ properties ------------------------------ *)
(* R: the requests, v: the positions their lookups visit, res: the subset  *)

\* the tracking depends on the present list only (C10)
BatchIndependent(v) == touched = v
\* same hash, requested keys answered as before without meeting hidden nodes (C08)
SameRoot(res) == RootHash(res) = RootHash(base)
Answers(R, res) ==
    \A k \in R : /\ AlgGet(res, k) = AlgGet(base, k)
                 /\ (MeetsHidden(res, k) => MeetsHidden(base, k))
\* only what is needed stays visible, everything else is hidden at the top (C09)
RECURSIVE Minimal(_, _, _, _)
Minimal(n, b, p, v) ==            \* n: node of the subset, b: same of the base
    CASE n.t \in {"E", "H"} -> n = b \/ (n.t = "H" /\ p \notin v /\ n.h = RootHash(b))
      [] n.t = "L" -> n = b /\ (p \in v \/ ~Hashable(b))
      [] n.t = "X" -> /\ b.t = "X" /\ b.k = n.k
                      /\ p \in v \/ ~Hashable(b)
                      /\ Minimal(n.c, b.c, p \o n.k, v)
      [] n.t = "B" -> /\ b.t = "B" /\ b.v = n.v
                      /\ p \in v \/ ~Hashable(b)
                      /\ \A i \in 1..16 : Minimal(n.c[i], b.c[i], p \o <<i - 1>>, v)
\* agrees with the one-line definition used elsewhere
AsDefined(R, res) == res = Sub(base, R)
\* subsets are canonical, so that they can be worked on like any trie
Canonical(res) == WellFormed(res) /\ Canon(EntOf(res)) = res
\* asking for less hides more
Monotone(R, res) == \A k \in R : IsPartialOf(Sub(base, {k}), res)

\* what was extracted serves for extracting parts of it (C24)
SubsetsOf(R) == {{k} : k \in R} \cup {R \ {k} : k \in R}
Composes(R, res) == \A Q \in SubsetsOf(R) : ~SubErr(res, Q) /\ Sub(res, Q) = Sub(base, Q)
\* a further request on its own: refused (0), as from the base (1), or
\* ending exactly at a node that the subset hides (2)
Again(res, k) ==
    IF SubErr(res, {k}) THEN 0
    ELSE IF Sub(res, {k}) = Sub(base, {k}) THEN 1 ELSE 2
\* which of them it is follows from where the lookup ends
AgainLaw(R, res, k) ==
    LET a == Again(res, k) IN
    /\ a = 0 <=> \E p \in Visit(base, k, <<>>).at : Len(p) < Len(k) /\ NodeAt(res, p).t = "H"
    /\ a = 2 => \E p \in Visit(base, k, <<>>).at : p = k /\ NodeAt(res, p).t = "H"
    /\ k \in R => a = 1

P(name, b) == b \/ (PrintT(<<"FAILED", name, u, x, K>>) /\ FALSE)
Emission(res) ==
    Emitting => PrintT(ToJson([q |-> "S", u |-> u, x |-> x, k |-> K, err |-> err,
        base |-> IF K = {} THEN Brief(base) ELSE Empty, tree |-> Brief(res), hash |-> Hex(RootHash(base)),
        gets |-> [i \in 1..Len(Req(u)) |-> AlgGet(base, Req(u)[i])],
        \* requests whose key leads to a hidden node of the base
        hid |-> {i \in 1..Len(Req(u)) : MeetsHidden(base, Req(u)[i])},
        again |-> IF Composing /\ ~err THEN [i \in 1..Len(Req(u)) |-> Again(res, Req(u)[i])] ELSE <<>>]))

Props ==
    LET R == Requests
        res == Result
        v == UNION {Visit(base, k, <<>>).at : k \in R}
    IN /\ P("Errors", err = SubErr(base, R))          \* C08, C11
       /\ IF err THEN Emission(Empty)
          ELSE /\ P("BatchIndependent", BatchIndependent(v))
               /\ P("SameRoot", SameRoot(res))
               /\ P("Answers", Answers(R, res))
               /\ P("Minimal", Minimal(res, base, <<>>, v))
               /\ P("AsDefined", AsDefined(R, res))
               /\ P("Canonical", Canonical(res))
               /\ P("Monotone", Monotone(R, res))
               /\ Composing =>
                    /\ P("Composes", Composes(R, res))
                    /\ \A i \in 1..Len(Req(u)) : P("AgainLaw", AgainLaw(R, res, Req(u)[i]))
               /\ Emission(res)
=============================================================================
