------------------------------ MODULE TrieTrace ------------------------------
(***************************************************************************)
(* Code -> spec: validates recorded executions of the implementation.      *)
(*                                                                         *)
(* A trace file holds episodes; an episode is a sequence of events on a    *)
(* few numbered tries ("handles").  The state of the specification is H,   *)
(* the abstract contents of each handle.  Every event carries what the     *)
(* implementation answered; Step says whether the specification allows     *)
(* that answer in the current state and what the state is afterwards.      *)
(* An event that is not allowed is reported and ends its episode.          *)
(***************************************************************************)
EXTENDS Mpt, TLC, Json, IOUtils

Tr == JsonDeserialize(IOEnv.TRACE)
NH == 6

VARIABLES ep, i, H
vars == <<ep, i, H>>

R(ok, h) == [ok |-> ok, H |-> h]

(* entries given in bulk: stops at the first refused one *)
RECURSIVE InsertAll(_, _, _)
InsertAll(ent, es, n) ==
    IF n > Len(es) THEN [r |-> "ok", ent |-> ent]
    ELSE IF InsertRefused(ent, es[n][1], es[n][2]) THEN [r |-> "panic", ent |-> ent]
    ELSE InsertAll(Put(ent, es[n][1], es[n][2]), es, n + 1)

SetOf(s) == {s[n] : n \in 1..Len(s)}

SubsetOutcome(ent, ks) ==
    LET t == Canon(ent) IN
    IF SubErr(t, SetOf(ks)) THEN [r |-> "err", tree |-> Empty]
    ELSE [r |-> "ok", tree |-> Sub(t, SetOf(ks))]

\* an answer about a difference of two tries
DiffAllowed(ta, tb, e) ==
    LET rep == Reportable(ta, tb) IN
    IF e.r = "none" THEN rep = {}
    ELSE /\ e.r = "some"
         /\ \E p \in rep :
              LET side(n, s) ==
                     /\ s.key = p.key \o KeyPiece(n)
                     /\ s.kind = KindName(n)
                     /\ s.hash = RootHash(n)
                     /\ s.hasval = (n.t \in {"B", "L"})
                     /\ (n.t \in {"B", "L"} => s.val = n.v)
              IN /\ p.key = e.key /\ side(p.a, e.a) /\ side(p.b, e.b)
                 \* two hidden nodes may count as a step of their own
                 /\ e.depth \in IF p.a.t = "H" /\ p.b.t = "H" THEN {p.d - 1, p.d} ELSE {p.d}

Step(e) ==
    CASE e.op = "new" -> R(TRUE, [H EXCEPT ![e.h] = NoEnt])
      [] e.op = "ins" ->
            IF InsertRefused(H[e.h], e.k, e.e) THEN R(e.r = "panic", H)
            ELSE R(e.r = "ok", [H EXCEPT ![e.h] = Put(H[e.h], e.k, e.e)])
      [] e.op = "del" ->
            IF Blocked(H[e.h], e.k) THEN R(e.r = "panic", H)
            ELSE LET w == LookupVal(H[e.h], e.k)
                 IN R(w.r = e.r /\ w.v = e.v,
                      IF w.r = "some" THEN [H EXCEPT ![e.h] = Remove(H[e.h], e.k)] ELSE H)
      [] e.op = "get" ->
            LET w == LookupVal(H[e.h], e.k) IN R(w.r = e.r /\ w.v = e.v, H)
      [] e.op = "extend" ->
            LET w == InsertAll(H[e.h], e.es, 1) IN R(w.r = e.r, [H EXCEPT ![e.h] = w.ent])
      [] e.op = "collect" ->
            LET w == InsertAll(NoEnt, e.es, 1)
            IN R(w.r = e.r, IF w.r = "ok" THEN [H EXCEPT ![e.h] = w.ent] ELSE H)
      [] e.op = "hash" -> R(e.hash = RootHash(Canon(H[e.h])), H)
      [] e.op = "tree" -> R(e.tree = Canon(H[e.h]), H)
      [] e.op = "items" -> R(ItemsMatch(e.items, H[e.h]), H)
      [] e.op = "eq" -> R(e.r = (H[e.a] = H[e.b]), H)
      [] e.op = "clone" -> R(TRUE, [H EXCEPT ![e.to] = H[e.h]])
      [] e.op = "set" ->     \* replaced through mutable access
            R(TRUE, [H EXCEPT ![e.h] = EntOf(e.tree)])
      [] e.op = "subset" ->
            LET w == SubsetOutcome(H[e.h], e.ks)
            IN IF w.r = "err" THEN R(e.r = "err", H)
               ELSE R(e.r = "ok" /\ e.tree = w.tree, [H EXCEPT ![e.to] = EntOf(w.tree)])
      [] e.op = "subsethash" ->   \* only what C08 asks of a subset
            LET t == Canon(H[e.h])
                w == SubsetOutcome(H[e.h], e.ks)
            IN IF w.r = "err" THEN R(e.r = "err", H)
               ELSE R(/\ e.r = "ok"
                      /\ e.hash = RootHash(t)
                      /\ IsPartialOf(e.tree, t)
                      /\ \A k \in SetOf(e.ks) :
                            AlgGet(e.tree, k) = AlgGet(t, k)
                            /\ (MeetsHidden(e.tree, k) => MeetsHidden(t, k)),
                      [H EXCEPT ![e.to] = EntOf(e.tree)])
      [] e.op = "subsets" ->      \* C10: as each list alone, which is in e.alone
            LET err == \E n \in 1..Len(e.kss) : e.alone[n].r # "ok"
            IN R(IF err THEN e.r = "err"
                 ELSE e.r = "ok" /\ Len(e.trees) = Len(e.kss)
                      /\ \A n \in 1..Len(e.kss) : e.trees[n] = e.alone[n].tree, H)
      [] e.op = "twins" ->        \* C07: a trie and a partly hidden version of it
            R(IsPartialOf(Canon(H[e.b]), Canon(H[e.a])) => e.ha = e.hb, H)
      [] e.op = "query" ->
            LET t == Canon(H[e.h])
            IN R(/\ e.r = "ok"
                 /\ e.found = QueryFound(H[e.h], e.k)
                 /\ e.path = QueryPath(t, e.k), H)
      [] e.op = "diff" -> R(DiffAllowed(Canon(H[e.ha]), Canon(H[e.hb]), e), H)
      [] e.op = "stats" ->
            LET s == Stats(Canon(H[e.h]), 0)
            IN R(e.e = s.e /\ e.hn = s.h /\ e.b = s.b /\ e.x = s.x /\ e.l = s.l /\ e.low = s.low, H)

Init == /\ ep \in 1..Len(Tr)
        /\ i = 1
        /\ H = [n \in 1..NH |-> NoEnt]

Next == /\ i <= Len(Tr[ep])
        /\ LET s == Step(Tr[ep][i])
           IN /\ (~s.ok => PrintT(ToJson([q |-> "BAD", ep |-> ep, i |-> i])))
              /\ s.ok
              /\ H' = s.H
        /\ i' = i + 1
        /\ ep' = ep
=============================================================================
